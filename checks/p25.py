"""P25: points relative to a line in the plane."""
from fractions import Fraction

import numpy as np

from HamiltonianPy.line2d import Line2D, Location

from vlib import gen
from vlib import history as past
from vlib.harness import Section, Skip

PID = "P25"
RULE = ("lines of all directions (vertical, horizontal, slanted, steep, flat, integer and float data, all containers, custom "
        "tolerances) and points on them, next to them and far away; locations from exact rational arithmetic; non-trivial "
        "when a slanted, a vertical or a horizontal line was judged at points on both sides")
ASSUMPTIONS = ["points between half the tolerance (along the compared coordinate) and twice the tolerance (perpendicular "
               "distance) are not judged",
               "slopes are at most 200 for points that have to be ON, so that rounding stays below the tolerance; "
               "the two points that define a line are ON for every slope, also 1e4 away from the origin"]
MUST = {"locations": 6000, "on the line": 1500, "vertical lines": 60, "horizontal lines": 60, "slanted lines": 150,
        "coordinates completed": 1000, "refusals observed": 300, "generated points": 5000, "extreme slopes": 60,
        "defining points": 600, "lines far from the origin": 120}

TOL = 1e-10


def exact(p):
    return tuple(Fraction(float(x)) if not isinstance(x, (int, np.integer)) else Fraction(int(x)) for x in p)


def line_points(case):
    py = case.py
    kind = py.choice(["vertical", "horizontal", "slanted", "slanted", "grid", "steep", "flat", "very steep",
                      "very flat"])
    value = lambda: py.choice([py.randrange(-5, 6), py.uniform(-10, 10), py.randrange(-20, 21) * 0.1])
    x0, y0 = value(), value()
    sign = py.choice([1, -1])
    if kind == "vertical":
        p1 = (x0, y0 + sign * py.choice([1, 2.5, py.uniform(0.1, 9)]))
    elif kind == "horizontal":
        p1 = (x0 + sign * py.choice([1, 2.5, py.uniform(0.1, 9)]), y0)
    elif kind == "grid":
        x0, y0 = py.choice([(py.randrange(-5, 6), py.randrange(-5, 6)), (py.randrange(3, 9), py.randrange(3, 9)),
                            (py.randrange(-100, 101), py.randrange(100, 120))])
        p1 = (x0 + py.choice([-3, -2, -1, 1, 2, 3]), y0 + py.choice([-3, -2, -1, 1, 2, 3]))
    elif kind == "slanted":
        p1 = (x0 + py.choice([-1, 1]) * py.uniform(0.1, 8), y0 + sign * py.uniform(0.1, 8))
    elif kind == "steep":
        p1 = (x0 + py.choice([-1, 1]) * py.uniform(0.03, 0.1), y0 + sign * py.uniform(1, 5))
    elif kind == "flat":
        p1 = (x0 + py.choice([-1, 1]) * py.uniform(1, 5), y0 + sign * py.uniform(1e-4, 0.1))
    elif kind == "very steep":
        p1 = (x0 + py.choice([-1, 1]) * 10 ** py.uniform(-7, -3), y0 + sign * py.uniform(1, 9))
    else:
        p1 = (x0 + py.choice([-1, 1]) * py.uniform(1, 9), y0 + sign * 10 ** py.uniform(-7, -3))
    return kind, (x0, y0), p1


def far_away(py, p0, p1):
    """The same line far from the origin."""
    shift = [py.choice([-1, 1]) * py.choice([10 ** py.uniform(2, 4), py.randrange(100, 10000), 2.0 ** py.randrange(7, 14),
                                             0]) for _ in range(2)]
    moved0 = tuple(a + b for a, b in zip(p0, shift))
    moved1 = tuple(a + b for a, b in zip(p1, shift))
    for a, b in zip(range(2), zip(p0, p1)):
        if b[0] == b[1]:                        # still vertical or horizontal
            moved1 = tuple(moved0[a] if k == a else moved1[k] for k in range(2))
    return moved0, moved1


def container(py, p):
    kind = py.randrange(4)
    if kind == 0:
        return tuple(p)
    if kind == 1:
        return list(p)
    a = gen.storage(py, p)
    if kind == 2:
        a.setflags(write=False)
        return a
    big = np.zeros(4, dtype=a.dtype)
    big[::2] = a
    return big[::2]


def oracle(p0, p1, point, tol):
    """The expected location, None between the margins."""
    (x0, y0), (x1, y1), (x, y) = exact(p0), exact(p1), exact(point)
    dx, dy = x1 - x0, y1 - y0
    tol = Fraction(tol)
    if dx == 0:
        off, distance = x - x0, abs(x - x0)
        names = (Location.LEFT, Location.RIGHT)
    else:
        off = y - y0 - dy / dx * (x - x0)
        distance = Fraction(abs(float(off)) / (1 + float(dy / dx) ** 2) ** 0.5)
        names = (Location.BELOW, Location.ABOVE)
    if abs(off) <= tol / 2:
        return Location.ON
    if distance >= 2 * tol:
        return names[off > 0]
    return None


def locations(case):
    py = case.py
    kind, p0, p1 = line_points(case)
    far = py.random() < 0.25
    if far:
        p0, p1 = far_away(py, p0, p1)
    tol = TOL if py.random() < 0.7 else py.choice([1e-6, 1e-3, 1e-8])
    given0, given1 = container(py, p0), container(py, p1)
    case.note(kind=kind, p0=p0, p1=p1, tol=tol)
    # two points that a coarse tolerance considers equal in one coordinate
    for a, b in zip(p0, p1):
        if 0 < abs(a - b) < 20 * tol:
            raise Skip("nearly vertical or horizontal for the tolerance")
    kwargs = {} if tol == TOL else {"tol": tol}
    line = Line2D(given0, given1, **kwargs)
    back = Line2D(given1, given0, **kwargs)
    case.equal(bool(line.IsVertical), p0[0] == p1[0], "is-vertical")
    case.equal(bool(line.IsHorizontal), p0[1] == p1[1], "is-horizontal")
    dx, dy = p1[0] - p0[0], p1[1] - p0[1]
    length = (dx * dx + dy * dy) ** 0.5
    normal = (-dy / length, dx / length)
    seen = set()
    for _ in range(12):
        t = py.choice([0, 1, 0.5, py.uniform(-3, 4), py.uniform(0, 1), py.randrange(-4, 5)])
        base = (p0[0] + t * dx, p0[1] + t * dy)
        h = py.choice([0, 0, 1, -1, 0.01, -0.01, 1e-6, -1e-6, 3 * tol, -3 * tol, 0.4 * tol, -0.4 * tol, 1e-9, -1e-9,
                       py.uniform(-5, 5)])
        style = py.randrange(3)
        if style == 0:
            point = (base[0] + h * normal[0], base[1] + h * normal[1])
        elif style == 1:
            point = (base[0] + h, base[1]) if line.IsVertical else (base[0], base[1] + h)
        else:
            origin = p0 if far and py.random() < 0.7 else (0, 0)
            point = (origin[0] + py.uniform(-12, 12), origin[1] + py.uniform(-12, 12))
            if py.random() < 0.3:
                point = py.choice([p0, p1])
        want = oracle(p0, p1, point, tol)
        if point in (p0, p1):
            want = Location.ON      # the points that define the line, wherever they are
            case.obs("defining points")
        elif dx != 0:
            size = max(abs(float(v)) for v in (*p0, *p1, *point))
            if 4.5e-16 * size * (1 + abs(dy / dx)) > tol / 10 or (want is Location.ON and abs(dy / dx) > 200):
                want = None         # rounding of the coordinates exceeds the tolerance
        if want is None:
            continue
        given = container(py, point)
        for which, obj in (("line", line), ("reversed", back)):
            got = obj.LocationRelation(given, **kwargs)
            case.check(got is want, which, "{0}: got {1} want {2} h={3}".format(point, got, want, h))
        case.obs("locations")
        seen.add(want)
        if want is Location.ON:
            case.obs("on the line")
    case.obs(("vertical" if dx == 0 else "horizontal" if dy == 0 else "slanted") + " lines")
    if dx != 0 and dy != 0 and not 1e-3 < abs(dy / dx) < 1e3:
        case.obs("extreme slopes")
    if far:
        case.obs("lines far from the origin")
    if len(seen) >= 2:
        case.nontrivial(kind, case.index)
    # the line keeps its own copy of the points
    for g, p in ((given0, p0), (given1, p1)):
        case.check(tuple(g) == tuple(p), "modified-argument", g)


def completion(case):
    py = case.py
    kind, p0, p1 = line_points(case)
    line = Line2D(container(py, p0), container(py, p1))
    case.note(kind=kind, p0=p0, p1=p1)
    (x0, y0), (x1, y1) = exact(p0), exact(p1)
    dx, dy = x1 - x0, y1 - y0
    for _ in range(8):
        known = py.choice([py.randrange(-9, 10), py.uniform(-9, 9), np.float64(py.uniform(-1, 1)), p0[0], p1[1]])
        which = py.choice(["x", "y"])
        call = py.choice([line, line.Coordinate])
        ask = (lambda: call(known)) if which == "x" and py.random() < 0.3 else (lambda: call(known, which=which))
        if (dx == 0 and which == "x") or (dy == 0 and which == "y"):
            case.raises(RuntimeError, ask, "ambiguous", (kind, known, which))
            continue
        got = ask()
        case.equal(len(got), 2, "pair")
        case.equal(got[0 if which == "x" else 1], known, "known-changed")
        x, y = exact(got)
        slope_like = abs(dy / dx) if which == "x" and dx else (abs(dx / dy) if dy else 0)
        residual = (y - y0) * dx - (x - x0) * dy
        scale = (abs(dx) + abs(dy)) * (1 + slope_like) * 30
        case.check(abs(residual) <= scale * Fraction(1e-13), "not-on-line", lambda: "{0}: {1}".format(got, float(residual)))
        case.obs("coordinates completed")
    for bad in ("z", None, 0, "X"):
        case.raises((AssertionError, ValueError), lambda: line(1, which=bad), "which", bad)
    case.nontrivial(kind, case.index)


def factory(case):
    py, rng = case.py, case.rng
    kind, p0, p1 = line_points(case)
    given0, given1 = np.array(p0, dtype=float), np.array(p1, dtype=float)
    line = Line2D(given0, given1)
    case.note(kind=kind, p0=p0, p1=p1)
    a, d = np.array(p0, dtype=float), np.array(p1, dtype=float) - np.array(p0, dtype=float)
    given0 += 7
    given1 -= 5
    default = line.PointsFactory()
    case.close(default, a + np.linspace(0, 1, 101)[:, None] * d, "default", atol=1e-12)
    for _ in range(3):
        ratios = py.choice([rng.uniform(-3, 3, size=py.randrange(1, 30)), [0, 1], [0, 0.5, 2, -1], (1,),
                            np.arange(-2, 3), []])
        kept = np.array(ratios)
        got = line.PointsFactory(ratios)
        want = a + np.array(ratios, dtype=float).reshape(-1, 1) * d
        case.close(got, want, "ratios", ratios, atol=1e-12)
        case.check(np.array_equal(kept, np.array(ratios)), "modified-ratios")
        case.obs("generated points", len(want) + 30)
        for p in got[:3] if d[0] == 0 or abs(d[1] / d[0]) <= 200 else ():
            want_location = oracle(a, a + d, p, TOL)
            if want_location is Location.ON:
                case.check(line.LocationRelation(p) is Location.ON, "generated-off", p)
        if len(got):
            got += 1
        case.close(line.PointsFactory(ratios), want, "repeated", ratios, atol=1e-12)
    case.raises((AssertionError, ValueError), lambda: line.PointsFactory(np.ones((2, 2))), "ratios-shape")
    case.nontrivial(kind, case.index)


def refused(case):
    py, rng = case.py, case.rng
    p0 = rng.uniform(-5, 5, size=2)
    case.note(p0=p0)
    near = p0 + rng.uniform(-1, 1, size=2) * 5e-11
    for a, b in ((p0, p0), (p0, near), (near, p0), (tuple(p0), list(p0)), ((0, 0), (0.0, 0.0))):
        case.raises(ValueError, lambda: Line2D(a, b), "coincident", (a, b))
    coarse = p0 + rng.uniform(-1, 1, size=2) * 9e-4
    case.raises(ValueError, lambda: Line2D(p0, coarse, tol=1e-3), "coincident-tolerance", coarse)
    # distinct points close to each other are accepted
    apart = p0 + np.array([3e-3, 3e-3])
    line = Line2D(p0, apart, tol=1e-3)
    case.check(not line.IsVertical and not line.IsHorizontal, "close-points")
    for bad in ((1,), (1, 2, 3), np.zeros((2, 2)), 4):
        case.raises((AssertionError, ValueError), lambda: Line2D(p0, bad), "shape", bad)
        case.raises((AssertionError, ValueError), lambda: Line2D(bad, p0), "shape", bad)
    case.nontrivial("refused", case.index)


SECTIONS = [
    past.section(past.line, quick=14, thorough=280),
    Section("locations", locations, 1000, 30000),
    Section("completion", completion, 300, 10000),
    Section("factory", factory, 120, 4000),
    Section("refused", refused, 25, 400),
]
