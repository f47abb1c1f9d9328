"""P36: generated clusters."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import lattice as lattice_package

from vlib import gen, lattices
from vlib.harness import Section

PID = "P36"
RULE = ("clusters of random sizes of every type compared as sets with an independent enumeration of the parent lattice "
        "inside the supercell; every alias; hostile names and sizes; histories of generation in which results, their "
        "arrays and their caches are abused between calls; non-trivial when a cluster of more than one cell, an alias or "
        "a refusal was judged")
MUST = {"clusters": 150, "sites matched": 3000, "aliases": 20, "refusals observed": 150, "regenerations": 150}

ROOT3 = 3 ** 0.5
HONEY = [[0, -0.5 / ROOT3], [0, 0.5 / ROOT3]]
DIM = {"chain": 1, "cubic": 3}


def parent_of(name):
    vectors, points = lattices.PARENTS[name]
    return np.array(vectors, dtype=float), np.array(HONEY if points is None else points, dtype=float)


def judge(case, lat, name, sizes):
    vectors, basis = parent_of(name)
    n = len(vectors)
    used = list(sizes[:n])
    want_vectors = vectors * np.array(used)[:, None]
    case.close(lat.vectors, want_vectors, "vectors", (name, sizes), atol=1e-12)
    points = lat.points
    case.equal(len(points), len(basis) * int(np.prod(used)), "number", (name, sizes))
    case.equal((lat.point_num, lat.space_dim, lat.trans_dim), (len(points), n, n), "counts", (name, sizes))
    seen = set()
    inverse = np.linalg.inv(vectors)
    for p in points:
        # which parent site is it, modulo the supercell
        found = []
        for b, q in enumerate(basis):
            c = (p - q) @ inverse
            if np.all(np.abs(c - np.round(c)) < 1e-9):
                found.append((b,) + tuple(int(x) for x in np.round(c)))
        case.check(len(found) == 1, "not-a-parent-site", (name, sizes, p))
        site = found[0]
        case.check(all(0 <= c < m for c, m in zip(site[1:], used)), "outside-supercell", (name, sizes, p))
        case.check(site not in seen, "repeated-site", (name, sizes, p))
        seen.add(site)
        case.obs("sites matched")
    case.equal(seen, set(itertools.product(range(len(basis)), *[range(m) for m in used])), "missing", (name, sizes))
    if all(m == 1 for m in used):
        want = name + "_cell"
    else:
        want = "{0}({1})".format(name, ",".join(str(m) for m in used))
    case.equal(lat.name, want, "name", (name, sizes))
    case.close(lat.vectors @ lat.bs.T, 2 * np.pi * np.eye(n), "reciprocal", atol=1e-10)
    case.obs("clusters")


def random_sizes(py, name):
    n = DIM.get(name, 2)
    top = {1: 40, 2: 8, 3: 4}[n]
    if py.random() < 0.06:
        # long or large
        if n == 1:
            return (py.randrange(100, 700),)
        if n == 3:
            return tuple(py.randrange(1, 10) for _ in range(3))
        sizes = [py.randrange(1, 4), py.choice([py.randrange(10, 40), py.randrange(128, 300)])]
        py.shuffle(sizes)
        return tuple(sizes)
    kind = py.randrange(4)
    if kind == 0:
        return tuple(1 if py.random() < 0.6 else py.randrange(1, top) for _ in range(3))
    if kind == 1:
        return tuple(py.randrange(1, top) for _ in range(n))
    return tuple(py.randrange(1, top) for _ in range(3))


def generate(py, name, sizes):
    style = py.randrange(3)
    if style == 0:
        return HP.lattice_generator(name, *sizes)
    if style == 1:
        return HP.lattice_generator(which=name, **{"num{0}".format(k): s for k, s in enumerate(sizes)})
    return lattice_package.lattice_generator(name, *sizes)


def clusters(case):
    py = case.py
    name = py.choice(gen.LATTICE_NAMES)
    sizes = random_sizes(py, name)
    case.note(name=name, sizes=sizes)
    lat = generate(py, name, sizes)
    judge(case, lat, name, sizes)
    if len(lat.points) > len(parent_of(name)[1]):
        case.nontrivial(name, sizes)
    case.peak("points", len(lat.points))
    if py.random() < 0.3:
        # the cluster of cells tiles the parent lattice: neighbours are parent sites
        cell = HP.lattice_generator(name)
        site = lat.points[py.randrange(len(lat.points))] + np.array(
            [py.randrange(-2, 3) for _ in range(len(lat.vectors))]) @ lat.vectors
        p, dr = cell.decompose(site)
        case.close(p + dr, site, "fold-to-cell", atol=1e-9)


def small(case):
    """All small sizes of all types (enumerated)."""
    name = gen.LATTICE_NAMES[case.index % 6]
    n = DIM.get(name, 2)
    case.note(name=name)
    for sizes in itertools.product(range(1, 4), repeat=n):
        judge(case, HP.lattice_generator(name, *sizes), name, sizes)
        case.nontrivial(name, sizes)
    judge(case, HP.lattice_generator(name), name, (1, 1, 1))
    if n < 3:
        # sizes that do not apply are ignored
        judge(case, HP.lattice_generator(name, *([1] * n), *([5] * (3 - n))), name, (1,) * n)
        judge(case, HP.lattice_generator(name, *([2] * n), *([5] * (3 - n))), name, (2,) * n)


def aliases(case):
    family = list(gen.SPECIAL)[case.index % 7]
    first = HP.special_cluster(family)
    case.note(family=family)
    numbers = {"square_cross": 12, "square_z": 10, "square_s": 10, "triangle_star": 13, "honeycomb_benzene": 6,
               "honeycomb_diphenyl": 10, "honeycomb_gear": 24}
    for alias in gen.SPECIAL[family]:
        lat = HP.special_cluster(alias)
        case.equal(lat.point_num, numbers[family], "alias-number", alias)
        case.close(lat.points, first.points, "alias-points", alias, atol=0, rtol=0)
        case.close(lat.vectors, first.vectors, "alias-vectors", alias, atol=0, rtol=0)
        case.close(lat.bs, first.bs, "alias-bs", alias, atol=0, rtol=0)
        case.equal(lat.name, alias, "alias-name")
        case.check(lat is not first, "alias-shared", alias)
        case.close(lat.points, getattr(lattice_package, family.upper() + "_POINTS"), "alias-table", alias)
        case.close(lat.vectors, getattr(lattice_package, family.upper() + "_AS"), "alias-table", alias)
        case.obs("aliases")
        case.nontrivial(alias)


def refused(case):
    py = case.py
    known = set(gen.LATTICE_NAMES)
    special = {a for v in gen.SPECIAL.values() for a in v}
    name = py.choice(gen.LATTICE_NAMES)
    case.note(name=name)
    for bad in (0, -1, -py.randrange(2, 9), 1.5, 2.0, "2", None):
        sizes = [py.randrange(1, 4) for _ in range(3)]
        sizes[py.randrange(3)] = bad
        # the arguments that do not apply are validated as well
        case.raises((AssertionError, ValueError, TypeError), lambda: HP.lattice_generator(name, *sizes), "size", (name, sizes))
    for bad in ("", "Chain", "hexagon", name + " ", "bcc", py.choice(sorted(special - known)), None, 3):
        case.raises(KeyError, lambda: HP.lattice_generator(bad, 2), "unknown-lattice", bad)
    for bad in ("", "Star", "sd", name, "square_13", " z", None, 12):
        case.raises(KeyError, lambda: HP.special_cluster(bad), "unknown-special", bad)
    case.nontrivial("refused", name, case.index)


def history(case):
    """Results are independent of each other and of the tables."""
    py = case.py
    jobs = []
    for _ in range(py.randrange(3, 7)):
        if py.random() < 0.4:
            jobs.append((py.choice(sorted({a for v in gen.SPECIAL.values() for a in v})), None))
        else:
            name = py.choice(gen.LATTICE_NAMES)
            jobs.append((name, tuple(py.randrange(1, 3) for _ in range(3))))
    jobs += [py.choice(jobs) for _ in range(3)]
    tables = {n: np.array(getattr(lattice_package, n)) for n in dir(lattice_package)
              if n.isupper() and isinstance(getattr(lattice_package, n), np.ndarray)}
    case.check(len(tables) > 40, "tables-missing", len(tables))
    case.note(jobs=jobs)
    first = {}
    alive = []
    for job in jobs:
        name, sizes = job
        lat = HP.special_cluster(name) if sizes is None else HP.lattice_generator(name, *sizes)
        data = (lat.points, lat.vectors, lat.bs, lat.name)
        if job in first:
            for a, b in zip(first[job], data):
                case.check(np.array_equal(a, b), "regenerated", job)
            case.obs("regenerations")
        else:
            first[job] = tuple(np.array(d) if isinstance(d, np.ndarray) else d for d in data)
        if sizes is not None:
            judge(case, lat, name, sizes)
        for other, kept in alive:
            case.check(other is not lat, "shared-object", job)
        # abuse what was returned
        for array in data[:3]:
            array[...] = py.uniform(-5, 5)
        for array in (lat.points, lat.vectors, lat.getSite(0)):
            array += 1
        if py.random() < 0.5:
            lat.name = "changed"
        if py.random() < 0.5:
            lat.neighbor_distance(2)
        alive.append((lat, job))
    for lat, job in alive:
        for a, b in zip(first[job][:3], (lat.points, lat.vectors, lat.bs)):
            case.check(np.array_equal(a, b), "changed-later", job)
        case.obs("regenerations")
    for n, value in tables.items():
        case.check(np.array_equal(getattr(lattice_package, n), value), "table-changed", n)
    case.nontrivial("history", tuple(jobs))


SECTIONS = [
    Section("clusters", clusters, 120, 1500),
    Section("small", small, 6, 6, fixed=True),
    Section("aliases", aliases, 7, 7, fixed=True),
    Section("refused", refused, 12, 100),
    Section("history", history, 60, 800),
]
