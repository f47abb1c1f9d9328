"""P19: folding sites back into the cluster."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import Lattice
from HamiltonianPy.lattice import lattice as lattice_module

from vlib import gen, lattices, ref
from vlib import history as past
from vlib.harness import Section

PID = "P19"
RULE = ("published, random and re-described lattices in 1-3 dimensions; every cluster point translated by near and far "
        "integer combinations, off-lattice sites, all queries in random order with distance and bond queries in between; "
        "non-trivial when the translation is not zero")
ASSUMPTIONS = ["sites are exact up to 1e-6 or at least 1.5e-3 away from every lattice site; cluster points are inequivalent"]
MUST = {"lattices at other precisions": 15, "sites folded": 2000, "far translations": 400, "off-lattice refusals": 400, "sites beside the lattice": 20, "lattices": 120,
        "unfolded refusals": 1500, "lattices of short or unsigned integers": 5, "large or remote lattices": 8, "sites far away or of large clusters": 120}
REFUSED = (KeyError, RuntimeError, ValueError)


def translation(case, vectors, far):
    rng, py = case.rng, case.py
    k = len(vectors)
    if not far:
        return rng.integers(-1, 2, size=k)
    reach = {1: 40, 2: 12, 3: 4}[k]
    n = rng.integers(-reach, reach + 1, size=k)
    if py.random() < 0.3:
        n[py.randrange(k)] = 0
    return n


def off_lattice(case, points, vectors):
    """A site that is not on the lattice."""
    rng = case.rng
    for _ in range(50):
        base = points[case.py.randrange(len(points))] + rng.integers(-3, 4, size=len(vectors)) @ vectors
        r = case.py.random()
        if r < 0.3:
            # next to a point of the cluster
            base = points[case.py.randrange(len(points))]
        elif r < 0.6:
            base = base + translation(case, vectors, True) @ vectors
        delta = rng.normal(size=points.shape[1])
        if len(vectors) < points.shape[1] and case.py.random() < 0.6:
            # beside the lattice: nothing but a distance from its translations
            delta -= np.linalg.lstsq(vectors.T, delta, rcond=None)[0] @ vectors
            case.obs("sites beside the lattice")
        elif case.py.random() < 0.4:
            # along one axis
            delta = np.eye(points.shape[1])[case.py.randrange(points.shape[1])]
        delta *= 10 ** rng.uniform(-2.7, -0.2) / np.linalg.norm(delta)
        site = base + delta
        best = np.inf
        for p in points:
            d = site - p
            coeff, *_ = np.linalg.lstsq(vectors.T, d, rcond=None)
            for shift in np.array(np.meshgrid(*[[-1, 0, 1]] * len(vectors))).reshape(len(vectors), -1).T:
                best = min(best, np.linalg.norm(d - (np.rint(coeff) + shift) @ vectors))
        if best > 1.5e-3:
            return site
    return None


def fold(case):
    py, rng = case.py, case.rng
    lat, points, vectors, tag = lattices.make(case)
    if py.random() < 0.4:
        # an additional lattice in use at the same time
        other = lattices.make(case)[0]
    else:
        other = lat
    points = np.array(points, dtype=float)
    case.note(tag=tag, points=points, vectors=vectors)
    keep = lat.points, lat.vectors, lat.bs
    queries = []
    for i in range(len(points)):
        queries.append(("point", i, np.zeros(len(vectors), dtype=int)))
        queries.append(("near", i, translation(case, vectors, False)))
        if i < 6:
            queries.append(("far", i, translation(case, vectors, True)))
    queries += [("off", k, None) for k in range(6)]
    queries += [q for q in queries if py.random() < 0.3]
    py.shuffle(queries)
    for kind, i, n in queries:
        r = py.random()
        if r < 0.03 and len(points) * len(vectors) < 20:
            lat.neighbor_distance(py.randrange(1, 4))
        elif r < 0.05 and len(points) * len(vectors) < 20:
            lat.bonds(py.randrange(1, 3), fold=True)
        elif r < 0.15:
            other.decompose(other.getSite(0) + other.vectors[0])
        if kind == "off":
            site = off_lattice(case, points, np.asarray(vectors, dtype=float))
            if site is None:
                continue
            given = site.copy()
            case.raises(REFUSED, lambda: lat.decompose(site), "off-lattice-decompose", site)
            case.raises(REFUSED, lambda: lat.getIndex(site, fold=True), "off-lattice-fold", site)
            case.raises(KeyError, lambda: lat.getIndex(site), "off-lattice-index", site)
            case.check(not lat.in_cluster(site), "off-lattice-member", site)
            case.check(np.array_equal(site, given), "input-changed")
            case.obs("off-lattice refusals")
            continue
        shift = n @ vectors
        site = points[i] + shift
        if py.random() < 0.3:
            site = site + rng.uniform(-1e-6, 1e-6, size=len(site))
        elif py.random() < 0.2:
            site.flags.writeable = False
        if tag == "stored" and site.flags.writeable:
            site = gen.storage(py, site)
        given = site.copy()
        for _ in range(2):
            eqv, dR = lat.decompose(site)
            case.close(eqv, points[i], "equivalent-point", (i, n), atol=1e-9)
            case.close(dR, shift, "translation", (i, n), atol=3e-6)
            case.close(eqv + dR, given, "sum", (i, n), atol=3e-6)
            # what was returned belongs to the caller
            eqv += 100
            dR += 100
        case.equal(int(lat.getIndex(site, fold=True)), i, "folded-index", (i, n))
        if np.any(n):
            case.raises(KeyError, lambda: lat.getIndex(site), "unfolded", (i, n))
            case.raises(KeyError, lambda: lat.getIndex(site, fold=False), "unfolded", (i, n))
            case.check(lat.in_cluster(site) is False, "member", (i, n))
            case.obs("unfolded refusals")
            case.nontrivial(tag, i, tuple(int(x) for x in n), case.index)
        else:
            case.equal(int(lat.getIndex(site)), i, "index", i)
            case.check(lat.in_cluster(site) is True, "member", i)
        case.check(np.array_equal(site, given), "input-changed")
        case.obs("sites folded")
        if kind == "far":
            case.obs("far translations")
            case.peak("largest translation", int(np.max(np.abs(n))))
    for i in range(len(points)):
        got = lat.getSite(i)
        case.close(got, points[i], "site", i, atol=1e-12)
        got += 5
        case.close(lat.getSite(i), points[i], "site-alias", i, atol=1e-12)
    for bad in (-1, len(points), len(points) + 7):
        case.raises((AssertionError, IndexError, KeyError, ValueError), lambda: lat.getSite(bad), "site-index", bad)
    for a, b in zip((lat.points, lat.vectors, lat.bs), keep):
        case.check(np.array_equal(a, b), "lattice-changed")
    case.obs("lattices")


def extensive(case):
    """Large clusters, and sites very far away."""
    py, rng = case.py, case.rng
    name = py.choice(gen.LATTICE_NAMES)
    d = {"chain": 1, "cubic": 3}.get(name, 2)
    if py.random() < 0.5:
        sizes = tuple(py.randrange(1, {1: 300, 2: 14, 3: 6}[d]) for _ in range(d))
        reach = {1: 300, 2: 20, 3: 4}[d]
    else:
        sizes = tuple(py.randrange(1, 3) for _ in range(d))
        reach = {1: 30000, 2: 130, 3: 14}[d]
    lat = HP.lattice_generator(name, *sizes)
    points, vectors = lat.points, lat.vectors
    case.note(name=name, sizes=sizes)
    for _ in range(4):
        i = py.randrange(len(points))
        n = rng.integers(-reach, reach + 1, size=d)
        if py.random() < 0.3:
            n[py.randrange(d)] = py.choice([-reach, reach])
        shift = n @ vectors
        site = points[i] + shift
        eqv, dR = lat.decompose(site)
        case.close(eqv, points[i], "extensive-point", (i, n), atol=1e-9)
        case.close(dR, shift, "extensive-translation", (i, n), atol=1e-6)
        case.equal(int(lat.getIndex(site, fold=True)), i, "extensive-index", (i, n))
        case.equal(bool(lat.in_cluster(site)), not np.any(n), "extensive-member", (i, n))
        case.equal(int(lat.getIndex(points[i])), i, "extensive-index", i)
        case.close(lat.getSite(i), points[i], "extensive-site", i, atol=0)
        wrong = site + 0.21
        case.raises(REFUSED, lambda: lat.getIndex(wrong, fold=True), "extensive-refusal", wrong)
        case.obs("sites far away or of large clusters")
        case.nontrivial(name, sizes, i, tuple(int(x) for x in n))


def integer_lattices(case):
    """Lattices given by integer arrays."""
    py, rng = case.py, case.rng
    d = py.choice([1, 2, 2, 3])
    while True:
        vectors = rng.integers(-4, 5, size=(d, d))
        if abs(np.linalg.det(vectors)) > 0.5 and np.linalg.cond(vectors) < 10:
            break
    # representatives of Z^d modulo the vectors
    reps = []
    span = int(np.abs(vectors).sum())
    grid = np.array(np.meshgrid(*[np.arange(-span, span + 1)] * d)).reshape(d, -1).T if d < 3 else rng.integers(
        -6, 7, size=(200, 3))
    rng.shuffle(grid)
    for p in grid:
        if all(ref.reduced(vectors, p - q) is None for q in reps):
            reps.append(p)
        if len(reps) >= 8:
            break
    points = np.array(reps)
    lat = Lattice(points, vectors, "integer")
    case.note(points=points, vectors=vectors)
    for i in range(len(points)):
        for far in (False, True, True):
            n = translation(case, vectors, far)
            site = points[i] + n @ vectors
            eqv, dR = lat.decompose(site)
            case.close(eqv, points[i], "equivalent-point", (i, n), atol=1e-9)
            case.close(dR, n @ vectors, "translation", (i, n), atol=1e-9)
            case.equal(int(lat.getIndex(site, fold=True)), i, "folded-index", (i, n))
            case.obs("sites folded")
            if far:
                case.obs("far translations")
            if np.any(n):
                case.raises(KeyError, lambda: lat.getIndex(site), "unfolded", (i, n))
                case.obs("unfolded refusals")
                case.nontrivial(i, tuple(int(x) for x in n), case.index)
        half = points[i] + 0.5
        if all(ref.reduced(vectors, half - q) is None for q in points):
            case.raises(REFUSED, lambda: lat.decompose(half), "off-lattice-decompose", half)
            case.obs("off-lattice refusals")
    case.obs("lattices")


def precision(case):
    """Other configured precisions: what is the same site, and what is beside it."""
    py, rng = case.py, case.rng
    digits = py.choice([0, 1, 2, 2, 3, 5, 6, 7])
    tol = 10.0 ** -digits
    points, vectors = gen.random_lattice_data(case, max_points=3)
    if digits < 2:
        points, vectors = points * 1000.0, vectors * 1000.0
    if lattices.groups(points, vectors, 1)[1] < 8 * tol:
        points, vectors = points * 10.0, vectors * 10.0
    case.note(digits=digits, points=points, vectors=vectors)
    lattice_module.set_float_point_precision(*[digits][case.index % 2:], **{"precision": digits for _ in range(case.index % 2)})
    try:
        lat = Lattice(points, vectors)
        for i in [py.randrange(len(points)) for _ in range(4)]:
            for far in (False, False, True):
                n = translation(case, vectors, far)
                delta = rng.normal(size=points.shape[1])
                delta /= np.linalg.norm(delta)
                site = points[i] + n @ vectors
                near, beside = site + delta * tol * rng.uniform(0, 0.4), site + delta * tol * rng.uniform(1.7, 3.0)
                eqv, dR = lat.decompose(near)
                case.close(eqv, points[i], "precision-point", (digits, i, n), atol=1e-9 * max(1, np.max(np.abs(points))), rtol=0)
                case.close(dR, n @ vectors, "precision-translation", (digits, i, n), atol=0.5 * tol + 1e-9, rtol=1e-10)
                case.equal(int(lat.getIndex(near, fold=True)), i, "precision-index", (digits, i, n))
                case.check(lat.in_cluster(near) is (not np.any(n)), "precision-member", (digits, i, n))
                case.raises(REFUSED, lambda: lat.decompose(beside), "precision-beside", (digits, i, n))
                case.raises(REFUSED, lambda: lat.getIndex(beside), "precision-beside", (digits, i, n))
                case.check(not lat.in_cluster(beside), "precision-beside", (digits, i, n))
                case.obs("sites folded")
        case.obs("lattices at other precisions")
        case.nontrivial("precision", digits, case.index)
    finally:
        lattice_module.set_float_point_precision(*py.choice([(), (4,)]))


SECTIONS = [
    past.section(past.lattice, quick=14, thorough=280),
    Section("fold", fold, 130, 3000),
    Section("integer_lattices", integer_lattices, 40, 1500),
    Section("extensive", extensive, 40, 800),
    Section("precision", precision, 40, 600),
]
