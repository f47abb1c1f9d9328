"""P12: bonds."""
import itertools
import math

import numpy as np

from HamiltonianPy import Bond
from HamiltonianPy import bond as bond_module

from vlib import gen
from vlib import history as past
from vlib.harness import Section

PID = "P12"
RULE = ("bonds of random grid endpoints in 1-3 dimensions with float noise, all containers and number types; all pairs "
        "of a pool compared with a fixed-point identity model, geometry with math.hypot/atan2; non-trivial when the "
        "two endpoints differ")
ASSUMPTIONS = [
    "endpoints that are compared agree within 1e-4 of the configured unit or differ by two units or more in a coordinate",
    "azimuths on the branch cut (exactly along -x) may be reported as +180 or -180 degrees",
]
MUST = {"pairs compared": 15000, "equal pairs": 800, "geometry": 1500, "undirected refusals": 400, "precisions": 60,
        "quadrants": 500, "whole numbers": 80, "nearly along an axis": 60, "zero length": 15, "remote bonds": 60}


def spell(py, g, digits):
    base = g / 10 ** digits
    kind = py.randrange(5)
    if kind == 0:
        return base
    if kind == 1:
        return float(g) * 10.0 ** -digits
    if kind == 2:
        return base + py.choice([-1, 1]) * min(4e-16 * max(1.0, abs(base)) * py.randrange(1, 5), 1e-5 * 10.0 ** -digits)
    if kind == 3 and g % 10 ** digits == 0:
        return g // 10 ** digits
    if g != 0:
        return base + (1 if g > 0 else -1) * 10.0 ** -digits * py.choice([0.1, 0.25, 0.4])
    return base


def container(py, coords):
    kind = py.randrange(6)
    if kind == 0:
        return tuple(coords)
    if kind == 1:
        return list(coords)
    if kind == 2:
        return np.array([[float(c), 7.0] for c in coords])[:, 0]
    if kind == 3:
        return gen.storage(py, coords)
    return np.array(coords)


def grid_point(py, dim, digits):
    big = 10 ** digits
    return tuple(py.choice([0, 1, -1, py.randrange(-4, 5) * big, py.randrange(-3 * big - 2, 3 * big + 3), big // 3,
                            py.choice([-1, 1]) * py.randrange(2 ** 31, 2 ** 34) if py.random() < 0.5 else 2])
                 for _ in range(dim))


def near(py, g):
    g = list(g)
    k = py.randrange(len(g))
    g[k] += py.choice([-9, -3, -2, 2, 3, 11, -9, -3, -2, 2, 3, 11, 2 ** 16, -2 ** 31, 2 ** 32])
    return tuple(g)


def identity_of(p, q, directed):
    return ((p, q) if directed else tuple(sorted((p, q))), directed)


def sure(a, b):
    """Grid points that are equal or clearly different."""
    return a == b or max(abs(x - y) for x, y in zip(a, b)) >= 2


def pool(case, digits, size):
    py = case.py
    dim = py.choice([1, 2, 3])
    points = [grid_point(py, dim, digits)]
    while len(points) < 4:
        new = near(py, py.choice(points)) if py.random() < 0.5 else grid_point(py, dim, digits)
        if all(sure(new, p) for p in points):
            points.append(new)
    res = []
    for _ in range(size):
        p, q = py.choice(points), py.choice(points)
        directed = py.random() < 0.5
        bond = Bond(container(py, [spell(py, g, digits) for g in p]), container(py, [spell(py, g, digits) for g in q]),
                    directional=directed)
        res.append((identity_of(p, q, directed), bond))
    return res


def compare(case, items, digits):
    keys = [k for k, _ in items]
    for (ka, a), (kb, b) in itertools.product(items, repeat=2):
        same = ka == kb
        what = lambda: "{0!r} and {1!r} at {2} digits".format(a, b, digits)     # noqa: E731
        case.check((a == b) == same, "equality", what)
        case.check((a != b) == (not same), "inequality", what)
        if same:
            case.check(hash(a) == hash(b), "hash", what)
            case.obs("equal pairs")
        if ka[1]:
            swapped = (ka[0][::-1], True)
            case.check(a.oppositeTo(b) == (kb == swapped), "opposition", what)
        case.obs("pairs compared")
    case.equal(len({b for _, b in items}), len(set(keys)), "set-size", digits)


def identity(case):
    items = pool(case, 4, 9)
    case.note(bonds=[b for _, b in items])
    compare(case, items, 4)
    case.nontrivial(tuple(k for k, _ in items))


def precision(case):
    digits = case.py.choice([0, 1, 2, 3, 5, 6, 7])
    bond_module.set_float_point_precision(*[digits][case.index % 2:], **{"precision": digits for _ in range(case.index % 2)})
    try:
        items = pool(case, digits, 7)
        case.note(digits=digits, bonds=[b for _, b in items])
        compare(case, items, digits)
        case.obs("precisions")
    finally:
        # the default is four digits
        bond_module.set_float_point_precision(*case.py.choice([(), (4,)]))
    compare(case, pool(case, 4, 4), 4)


def same_angle(case, got, want, period, mechanism, message, tol):
    got, want = np.atleast_1d(got), np.atleast_1d(want)
    case.equal(got.shape, want.shape, mechanism + "-shape", message)
    for g, w in zip(got, want):
        on_cut = abs(abs(w) - period / 2) < 1e-12 and abs(abs(g) - period / 2) < max(tol, 1e-9)
        case.check(abs(g - w) <= tol or on_cut, mechanism, lambda: "{0} got={1} want={2}".format(message, got, want))
        case.check(abs(g) <= period / 2 + tol, mechanism + "-range", message)


def geometry(case):
    py = case.py
    dim = py.choice([1, 2, 2, 3])
    scale = py.choice([1, 1, 1e-2, 1e3])
    remote = py.random() < 0.15

    def coordinate():
        k = py.randrange(5)
        if k == 0:
            return 0
        if k == 1:
            return py.randrange(-3, 4)
        return scale * py.choice([py.uniform(-3, 3), float(py.randrange(-3, 4)), py.randrange(-8, 9) / 4])
    p = [coordinate() for _ in range(dim)]
    if py.random() < 0.3:
        q = list(p)
        q[py.randrange(dim)] += py.choice([-1, 1, 2.5])
    elif py.random() < 0.06:
        q = list(p)
    elif py.random() < 0.25:
        # whole numbers, which may be stored in short or unsigned types
        p = [py.randrange(0, 101) for _ in range(dim)]
        q = [py.randrange(py.choice([0, -100]), 101) for _ in range(dim)]
        case.obs("whole numbers")
    elif py.random() < 0.25:
        # nearly along an axis
        p = [py.choice([0.0, 0.0, 1.5, -2.0]) for _ in range(dim)]
        q = [x + py.choice([-1, 1]) * 10 ** py.uniform(-9, -4) for x in p]
        q[py.randrange(dim)] += py.choice([-1, 1]) * py.choice([1, 2.5, 1000])
        case.obs("nearly along an axis")
    else:
        q = [coordinate() for _ in range(dim)]
    if remote:
        # a short bond far away from the origin
        shift = [py.choice([0, 1, -1]) * py.choice([10 ** py.uniform(2, 6), py.randrange(1000, 10 ** 6)]) for _ in p]
        step = py.choice([1, 1e-1, 1e-2, 1e-3])
        p, q = [x + s for x, s in zip(p, shift)], [x + s + step * (y - x) for x, y, s in zip(p, q, shift)]
        case.obs("remote bonds")
    if max(abs(y - x) for x, y in zip(p, q)) == 0:
        case.obs("zero length")
    a, b = container(py, p), container(py, q)
    keep = [np.array(x, copy=True) for x in (a, b)]
    bond = Bond(a, b)
    loose = Bond(a, b, directional=False)
    case.note(p=p, q=q)
    dr = [float(y) - float(x) for x, y in zip(p, q)]
    length = math.sqrt(math.fsum(d * d for d in dr))
    deg = 180 / math.pi
    if dim == 1:
        theta = 0.0 if dr[0] >= 0 else math.pi
    elif dim == 2:
        theta = math.atan2(dr[1], dr[0])
    else:
        theta = [math.atan2(math.hypot(dr[0], dr[1]), dr[2]), math.atan2(dr[1], dr[0])]
    first = repr(bond), str(bond), hash(bond)
    for _ in range(2):
        for nd in (None, 0, 1, 2, 3, 6):
            half = 1e-9 * (1 + length) if nd is None else 0.5 * 10.0 ** -nd + 1e-9 * (1 + length)
            for obj in (bond, loose):
                got = obj.getLength(ndigits=nd)
                case.check(abs(got - length) <= half, "length", (got, length, nd))
                if nd is not None:
                    case.check(abs(got * 10 ** nd - round(got * 10 ** nd)) < 1e-6 * (1 + abs(got)), "length-digits",
                               (got, nd))
            got = bond.getDisplace(ndigits=nd)
            case.close(got, np.array(dr), "displacement", nd, atol=half, rtol=0)
            if nd is not None:
                case.close(got * 10.0 ** nd, np.rint(got * 10.0 ** nd), "displacement-digits", nd, atol=1e-5, rtol=1e-9)
            for radian in (False, True):
                unit = 1.0 if radian else deg
                tol = 1e-13 * unit if nd is None else 0.5 * 10.0 ** -nd + 1e-9
                got = bond.getAzimuth(radian=radian, ndigits=nd)
                same_angle(case, got, np.asarray(theta) * unit, 2 * math.pi * unit, "azimuth", (radian, nd), tol)
                if nd is not None:
                    case.close(got * 10.0 ** nd, np.rint(got * 10.0 ** nd), "azimuth-digits", (radian, nd), atol=1e-5,
                               rtol=1e-9)
        case.obs("geometry")
    # default arguments are: exact, degrees
    same_angle(case, bond.getAzimuth(), np.asarray(theta) * deg, 360.0, "azimuth", "default", 1e-9)
    # flipping
    flip = bond.flip()
    case.check(type(flip) is Bond and flip.directional is True, "flip-kind")
    case.equal([list(map(float, x)) for x in flip.endpoints], [list(map(float, q)), list(map(float, p))], "flip-endpoints")
    case.close(flip.getDisplace(), -np.array(dr), "flip-displacement", atol=1e-9 * (1 + length))
    case.check(flip.flip() == bond and hash(flip.flip()) == hash(bond), "flip-twice")
    case.check(bond.oppositeTo(flip) is True or bond.oppositeTo(flip) == True, "opposite")  # noqa: E712
    case.equal((bond == flip), max(abs(x) for x in dr) < 1e-4 and bond == flip, "flip-different")
    if max(abs(x) for x in dr) > 3e-4:
        case.check(not bond.oppositeTo(bond), "opposite-self")
        case.check(bond != flip, "flip-different")
        case.check(loose == Bond(b, a, directional=False), "undirected")
        case.nontrivial(tuple(p), tuple(q))
        case.obs("quadrants")
    case.check(bond != loose and not bond == loose, "kinds")
    case.check(not bond.oppositeTo(Bond(b, a, directional=False)), "kinds-opposite")
    for call in (loose.getDisplace, loose.getAzimuth, loose.flip, lambda: loose.oppositeTo(bond),
                 lambda: loose.getDisplace(ndigits=2), lambda: loose.getAzimuth(radian=True),
                 lambda: loose.oppositeTo(loose)):
        case.raises(NotImplementedError, call, "undirected-refusal")
        case.obs("undirected refusals")
    for bad in (None, 1, "x", (p, q)):
        case.raises(TypeError, lambda: bond.oppositeTo(bad), "foreign", bad)
    for op in ("__lt__", "__le__", "__gt__", "__ge__"):
        case.check(getattr(bond, op)(flip) is NotImplemented, "not-ordered", op)
    # endpoints are copies, inputs are copied
    for x, k in zip((a, b), keep):
        case.equal(list(map(float, x)), list(map(float, k)), "input-changed")
    for obj in (bond, loose):
        case.equal([list(map(float, x)) for x in obj.endpoints], [list(map(float, p)), list(map(float, q))], "endpoints")
        for x in obj.endpoints:
            x += 50
        obj.endpoints[0][:] = 9
        if obj.directional:
            d = obj.getDisplace()
            d += 5
            t = obj.getAzimuth()
            if isinstance(t, np.ndarray) and t.ndim:
                t += 5
        case.equal([list(map(float, x)) for x in obj.endpoints], [list(map(float, p)), list(map(float, q))], "aliased-output")
    if isinstance(a, (list, np.ndarray)):
        a[0] = 77
    if isinstance(b, (list, np.ndarray)):
        b[-1] = 78
    for obj in (bond, loose):
        case.equal([list(map(float, x)) for x in obj.endpoints], [list(map(float, p)), list(map(float, q))], "aliased-input")
    case.close(bond.getDisplace(), np.array(dr), "aliased-input")
    case.equal((repr(bond), str(bond), hash(bond)), first, "unchanged")
    case.check(bond == Bond(p, q), "aliased-identity")


def refused(case):
    err = (AssertionError, ValueError, TypeError)
    for p, q in [((), ()), ((1, 2, 3, 4), (1, 2, 3, 4)), ((0, 0), (1,)), ((0,), (1, 2)), ([[0, 0]], [[1, 1]]), (0, 1)]:
        case.raises(err, lambda: Bond(p, q), "shape", (p, q))
    for bad in (-1, 1.5, None):
        case.raises(err, lambda: bond_module.set_float_point_precision(bad), "precision", bad)
    case.check(Bond((0.12,), (0,)) != Bond((0.1203,), (0,)), "precision-after-refusal")
    case.check(Bond((0.12,), (0,)) == Bond((0.1200000001,), (0,)), "precision-after-refusal")


SECTIONS = [
    past.section(past.bond, quick=14, thorough=280),
    Section("identity", identity, 150, 8000),
    Section("precision", precision, 80, 4000),
    Section("geometry", geometry, 900, 30000),
    Section("refused", refused, 1, 1, fixed=True),
]
