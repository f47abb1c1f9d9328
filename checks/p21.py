"""P21: bond lists."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import Lattice
from HamiltonianPy.lattice import lattice as lattice_module

from vlib import gen, lattices, ref
from vlib import history as past
from vlib.harness import Section, Skip

PID = "P21"
RULE = ("published, random and re-described lattices in 1-3 dimensions; the bonds of every order asked in random order with "
        "all options are reduced to classes (point, point, translation) modulo translation and direction and compared with "
        "a brute-force enumeration of the infinite lattice; non-trivial when there is an inter-cluster bond")
ASSUMPTIONS = ["distances of the generated lattices differ by at least 1e-3"]
MUST = {"lattices at other precisions": 15, "bonds classified": 8000, "bond lists": 800, "inter-cluster bonds": 3000, "folded bonds": 2000, "lattices with a distance on a rounding edge": 15, "lattices": 120, "large or remote lattices": 8, "lattices of short or unsigned integers": 5,
        "3D bonds beyond the next cell": 4}


def canonical(i, j, n):
    a = (i, j, tuple(int(x) for x in n))
    b = (j, i, tuple(-int(x) for x in n))
    return min(a, b)


def locate(points, vectors, site):
    """(index, translation) of a site, brute force."""
    for i, p in enumerate(points):
        n = ref.reduced(vectors, site - p)
        if n is not None:
            return i, n
    return None


def classify(case, points, vectors, intra, inter):
    zero = (0,) * len(vectors)
    res = []
    for kind, bonds in (("intra", intra), ("inter", inter)):
        for bond in bonds:
            case.check(isinstance(bond, HP.Bond), "bond-type", bond)
            case.check(bond.directional is True, "directional", bond)
            p0, p1 = bond.endpoints
            a, b = locate(points, vectors, p0), locate(points, vectors, p1)
            case.check(a is not None and b is not None, "endpoint-off-lattice", bond)
            case.equal(a[1], zero, kind + "-start-in-cluster", bond)
            if kind == "intra":
                case.equal(b[1], zero, "intra-end-in-cluster", bond)
            else:
                case.check(b[1] != zero, "inter-end-outside", bond)
                case.obs("inter-cluster bonds")
            res.append((canonical(a[0], b[0], b[1]), kind, bond))
            case.obs("bonds classified")
    return res


def expected(points, vectors, low, high):
    i, j, mesh, disp, dist = ref.pair_displacements(points, vectors, high + 2e-4)
    sel = dist > low + 2e-4
    return {canonical(a, b, n) for a, b, n in zip(i[sel], j[sel], mesh[sel])}


def verify(case, lat, points, vectors, want, nth, tag):
    py = case.py
    only = py.random() < 0.5
    default = py.random() < 0.3
    if nth == 0:
        intra, inter = lat.bonds(0, only=only, fold=py.random() < 0.5)
        case.check(inter is None or len(inter) == 0, "onsite-inter", inter)
        case.equal(len(intra), len(points), "onsite-count")
        seen = []
        for bond in intra:
            p0, p1 = bond.endpoints
            case.check(np.array_equal(p0, p1), "onsite", bond)
            seen.append(locate(points, vectors, p0))
        case.equal(sorted(seen), [(k, (0,) * len(vectors)) for k in range(len(points))], "onsite-points")
        case.obs("bond lists")
        return
    if default:
        only = True
        intra, inter = lat.bonds(nth)
    else:
        intra, inter = lat.bonds(nth, only=only, fold=False)
    low = want[nth - 1] if only else 0.0
    exp = expected(points, vectors, low, want[nth])
    items = classify(case, points, vectors, intra, inter)
    got = [k for k, _, _ in items]
    case.equal(len(got), len(set(got)), "duplicates", (nth, only))
    case.check(set(got) == exp, "bond-set", lambda: "order {0} only={1}: missing {2} extra {3}".format(
        nth, only, sorted(exp - set(got))[:4], sorted(set(got) - exp)[:4]))
    for key, kind, bond in items:
        length = float(bond.getLength())
        if only:
            case.close(length, want[nth], "length", bond, atol=2e-4, rtol=1e-9)
        else:
            case.check(1e-6 < length <= want[nth] + 2e-4, "length", bond)
    case.obs("bond lists")
    if inter:
        case.nontrivial(tag, nth, only, case.index)
    # folded
    intra_f, inter_f = lat.bonds(nth, only=only, fold=True)
    case.equal(sorted(sorted(map(tuple, np.round(b.endpoints, 6).tolist())) for b in intra_f),
               sorted(sorted(map(tuple, np.round(b.endpoints, 6).tolist())) for b in intra), "fold-intra")
    case.equal(len(inter_f), len(inter), "fold-count")
    ends = []
    for bond in inter_f:
        p0, p1 = bond.endpoints
        a, b = locate(points, vectors, p0), locate(points, vectors, p1)
        case.check(a is not None and b is not None, "fold-off-lattice", bond)
        case.check(not any(a[1]) and not any(b[1]), "fold-outside", bond)
        case.check(bond.directional is True, "directional", bond)
        ends.append((a[0], b[0]))
        case.obs("folded bonds")
    outer = []
    for bond in inter:
        p0, p1 = bond.endpoints
        outer.append((locate(points, vectors, p0)[0], locate(points, vectors, p1)[0]))
    case.equal(sorted(tuple(sorted(e)) for e in ends), sorted(tuple(sorted(e)) for e in outer), "fold-endpoints")
    # what was returned belongs to the caller
    intra.clear()
    inter.clear()
    inter_f.clear()


def bonds(case):
    py = case.py
    lat, points, vectors, tag = lattices.make(case)
    points, vectors = np.asarray(points, dtype=float), np.asarray(vectors, dtype=float)
    case.note(tag=tag, points=points, vectors=vectors)
    d = len(vectors)
    top = {1: 9, 2: 7, 3: 6}[d]
    want = lattices.groups(points, vectors, top + 1)
    top = max([k for k in range(1, top + 1) if len(expected(points, vectors, 0, want[k])) <= 400] or [1])
    if len(expected(points, vectors, 0, want[top])) > 1500:
        raise Skip("too big")
    reach = max(max(map(abs, n)) for _, _, n in expected(points, vectors, 0, want[top]))
    case.peak("farthest translation", reach)
    if d == 3 and reach > 1:
        case.obs("3D bonds beyond the next cell")
    orders = list(range(top + 1)) + [py.randrange(1, top + 1) for _ in range(3)]
    py.shuffle(orders)
    for nth in orders:
        if py.random() < 0.2:
            lat.neighbor_distance(py.randrange(top + 2))
        verify(case, lat, points, vectors, want, nth, tag)
    case.obs("lattices")


def supercells(case):
    """The bonds of a supercell are those of the unit cell, once per cell."""
    py = case.py
    name = py.choice(gen.LATTICE_NAMES)
    if name == "chain":
        sizes, top = (py.choice([py.randrange(1, 7), py.randrange(7, 160)]), 1, 1), py.choice([5, 5, 14])
    elif name == "cubic":
        sizes, top = tuple(py.randrange(1, py.choice([3, 3, 5])) for _ in range(3)), py.choice([2, 2, 5])
    else:
        high = py.choice([4, 4, 11])
        sizes, top = (py.randrange(1, high), py.randrange(1, high), 1), py.choice([3, 3, 8])
    cells = int(np.prod(sizes[:{"chain": 1, "cubic": 3}.get(name, 2)]))
    unit, big = HP.lattice_generator(name), HP.lattice_generator(name, *sizes)
    case.note(name=name, sizes=sizes)
    if cells > 40:
        case.obs("large clusters")
    for nth in py.sample(range(1, top + 1), min(top, 5)):
        only = py.random() < 0.6
        a, b = unit.bonds(nth, only=only), big.bonds(nth, only=only)
        case.equal(len(b[0]) + len(b[1]), cells * (len(a[0]) + len(a[1])), "count-per-cell", (nth, only))
        case.obs("bond lists", 2)

        def shape(bs):
            res = []
            for x in bs:
                v = np.round(x.getDisplace(), 5) + 0.0
                v = v if tuple(v) > tuple(-v) else -v + 0.0
                res.append(tuple(v))
            return sorted(res)
        case.equal(shape(b[0] + b[1]), sorted(shape(a[0] + a[1]) * cells), "directions", (nth, only))
        # the bonds of one direction start at different points of the supercell
        starts = set()
        inverse = np.linalg.inv(big.vectors)
        for x in b[0] + b[1]:
            (p0, p1), v = x.endpoints, np.round(x.getDisplace(), 5) + 0.0
            if tuple(v) < tuple(-v):
                p0, v = p1, -v + 0.0
            starts.add((tuple(np.round(np.mod(np.asarray(p0) @ inverse + 1e-7, 1) - 1e-7, 6) + 0.0), tuple(v)))
        case.equal(len(starts), len(b[0]) + len(b[1]), "repeated", (nth, only))
        case.nontrivial(name, sizes, nth, only)
    case.obs("lattices")


def precision(case):
    """Other configured precisions, coarse and fine."""
    py = case.py
    digits = py.choice([0, 1, 2, 2, 3, 5, 6, 7])
    points, vectors = gen.random_lattice_data(case, max_points=3)
    if digits < 2:
        # in small units
        points, vectors = points * 1000.0, vectors * 1000.0
    gap = max(0.03, 3 * 10.0 ** -digits)
    want = lattices.groups(points, vectors, 4, gap=gap)
    case.note(digits=digits, points=points, vectors=vectors)
    top = max([k for k in range(1, 4) if len(expected(points, vectors, 0, want[k])) <= 300] or [0])
    if not top:
        raise Skip("too big")
    lattice_module.set_float_point_precision(*[digits][case.index % 2:], **{"precision": digits for _ in range(case.index % 2)})
    try:
        lat = Lattice(points, vectors)
        for nth in py.sample(range(top + 1), top + 1):
            verify(case, lat, points, vectors, want, nth, ("precision", digits))
        case.obs("lattices at other precisions")
    finally:
        lattice_module.set_float_point_precision(*py.choice([(), (4,)]))
    verify(case, Lattice(points, vectors), points, vectors, want, py.randrange(1, top + 1), ("precision", digits))


SECTIONS = [
    past.section(past.lattice, quick=14, thorough=280),
    Section("bonds", bonds, 170, 3000),
    Section("supercells", supercells, 40, 400),
    Section("precision", precision, 40, 600),
]
