"""P26: points relative to a convex polygon."""
from fractions import Fraction

import numpy as np

from HamiltonianPy import lattice as lattice_package
from HamiltonianPy.polygon import Location, Polygon

from vlib import gen
from vlib import history as past
from vlib.harness import Section, Skip

PID = "P26"
RULE = ("random convex polygons (hulls, regular, rectangles, Brillouin zones; vertical and horizontal edges, collinear extra "
        "vertices), in both orientations and all starting vertices; points at corners, on edges, on the extensions of "
        "edges, close to edges, inside and outside; location from exact rational arithmetic; non-trivial when at least "
        "three kinds of location were judged")
ASSUMPTIONS = ["edges are vertical within 1e-13 or have slopes of at most 2000, so that rounding stays below the tolerance",
               "points closer to the boundary than 1e-8 but not on it are not judged"]
MUST = {"locations": 8000, "corner": 1000, "boundary": 1000, "inside": 1000, "outside": 1000, "on an extension": 500,
        "vertical edges": 100, "horizontal edges": 100, "collinear vertices": 100, "polygons in small storage types": 30, "locations within a given tolerance": 2500, "refusals observed": 100, "polygons of many vertices": 20}


def hull(points):
    points = sorted(set(map(tuple, points)))

    def half(seq):
        res = []
        for p in seq:
            while len(res) >= 2 and (res[-1][0] - res[-2][0]) * (p[1] - res[-2][1]) - (res[-1][1] - res[-2][1]) * (p[0] - res[-2][0]) <= 0:
                res.pop()
            res.append(p)
        return res[:-1]
    return half(points) + half(points[::-1])


def polygon(case):
    """Vertices in counter-clockwise order."""
    py, rng = case.py, case.rng
    kind = py.choice(["hull", "grid", "large grid", "regular", "box", "zone", "triangle", "circle", "many"])
    if kind == "hull":
        v = hull(rng.uniform(-5, 5, size=(py.randrange(4, 12), 2)))
    elif kind == "grid":
        v = hull([(py.randrange(-4, 5), py.randrange(-4, 5)) for _ in range(py.randrange(4, 12))])
    elif kind == "large grid":                  # large whole numbers
        scale, x, y = 2 ** py.randrange(3, 13), py.choice([0, 4, 5]), py.choice([0, 4, 5])
        v = hull([(scale * (x + py.randrange(-4, 5)), scale * (y + py.randrange(-4, 5)))
                  for _ in range(py.randrange(4, 12))])
    elif kind == "many":                        # many vertices
        n = py.choice([py.randrange(13, 60), py.randrange(60, 160)])
        t = np.arange(n) * 2 * np.pi / n + py.uniform(0, 6)
        v = np.stack([py.uniform(20, 40) * np.cos(t), py.uniform(20, 40) * np.sin(t)], axis=1)
        case.obs("polygons of many vertices")
    elif kind == "regular":
        n = py.randrange(3, 9)
        t = np.arange(n) * 2 * np.pi / n + py.choice([0, np.pi / n, np.pi / 2, py.uniform(0, 6)])
        v = np.stack([np.cos(t), np.sin(t)], axis=1) * py.choice([1, 2.5, py.uniform(0.5, 4)])
        v = v + py.choice([0, 1]) * rng.uniform(-3, 3, size=2)
    elif kind == "box":
        x, y, a, b = py.uniform(-3, 3), py.uniform(-3, 3), py.uniform(0.5, 5), py.uniform(0.5, 5)
        if py.random() < 0.5:
            x, y, a, b = (float(round(z) or 1) for z in (x, y, a, b))
        v = [(x, y), (x + a, y), (x + a, y + b), (x, y + b)]
    elif kind == "zone":
        name = py.choice([n for n in lattice_package.__all__ if n.endswith("_KS") and "CUBIC" not in n or
                          n.endswith("_MS") and "SQUARE" in n])
        v = np.array(getattr(lattice_package, name))
        if len(v) not in (4, 6):
            raise Skip("not a polygon")
        v = v[np.argsort(np.arctan2(v[:, 1], v[:, 0]))]
    elif kind == "triangle":
        v = hull(rng.uniform(-5, 5, size=(3, 2)))
    else:
        t = np.sort(rng.uniform(0, 2 * np.pi, size=py.randrange(3, 10)))
        v = np.stack([3 * np.cos(t), 2 * np.sin(t)], axis=1)
    v = [tuple(float(x) for x in p) for p in v]
    if len(v) < 3:
        raise Skip("flat")
    return kind, v


def insert_collinear(case, v):
    """Extra vertices on axis-parallel or dyadic edges, where they are exactly
    collinear, or on any edge (collinear up to rounding)."""
    py = case.py
    res = []
    extra = 0
    for a, b in zip(v, v[1:] + v[:1]):
        res.append(a)
        if py.random() < 0.4:
            for t in sorted(py.sample([0.25, 0.5, 0.75], py.choice([1, 1, 2]))):
                res.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
                extra += 1
    return res, extra


def cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def segment_distance(a, b, p):
    a, b, p = np.array(a), np.array(b), np.array(p)
    d = b - a
    t = min(1.0, max(0.0, float(np.dot(p - a, d) / np.dot(d, d))))
    return float(np.linalg.norm(p - a - t * d))


def oracle(corners, vertices, p):
    """corners: strictly convex counter-clockwise; vertices: with the extra ones."""
    d = min(np.hypot(p[0] - v[0], p[1] - v[1]) for v in vertices)
    if d == 0:
        return Location.CORNER
    if d < 1e-8:
        return None
    edges = list(zip(corners, corners[1:] + corners[:1]))
    least = min(segment_distance(a, b, p) for a, b in edges)
    if least < 1e-14 * 20:
        return Location.BOUNDARY
    if least < 1e-8:
        return None
    f = lambda q: (Fraction(q[0]), Fraction(q[1]))
    inside = all(cross(f(a), f(b), f(p)) > 0 for a, b in edges)
    return Location.INSIDE if inside else Location.OUTSIDE


def locate(case):
    py, rng = case.py, case.rng
    kind, corners = polygon(case)
    edges = list(zip(corners, corners[1:] + corners[:1]))
    for a, b in edges:
        dx, dy = abs(a[0] - b[0]), abs(a[1] - b[1])
        if np.hypot(dx, dy) < 0.05:
            raise Skip("short edge")
        if (dx > 1e-13 and dy / dx > 2000) or (dx <= 1e-13 and dx > 0 and kind not in ("regular", "zone")):
            raise Skip("steep edge")
        if 1e-13 < dy < 1e-6:
            raise Skip("flat edge")
    area = sum(a[0] * b[1] - a[1] * b[0] for a, b in edges) / 2
    if area < 0.2:
        raise Skip("thin")
    for k in range(len(corners)):
        a, b, c = corners[k - 2], corners[k - 1], corners[k]
        turn = cross(a, b, c) / np.hypot(b[0] - a[0], b[1] - a[1]) / np.hypot(c[0] - b[0], c[1] - b[1])
        if turn < 1e-3:
            raise Skip("nearly straight corner")
    vertices, extra = (corners, 0) if py.random() < 0.5 else insert_collinear(case, corners)
    case.obs("collinear vertices", extra)
    case.obs("vertical edges", sum(abs(a[0] - b[0]) < 1e-12 for a, b in edges))
    case.obs("horizontal edges", sum(abs(a[1] - b[1]) < 1e-12 for a, b in edges))
    case.note(kind=kind, vertices=vertices)

    # interior reference points
    def interior():
        w = rng.dirichlet(np.ones(len(corners)))
        center = np.mean(corners, axis=0)
        p = 0.8 * w @ np.array(corners) + 0.2 * center
        return tuple(float(x) for x in p)
    refs = [interior() for _ in range(4)]
    refs = [r for r in refs if min(segment_distance(a, b, r) for a, b in edges) > 1e-3]
    if not refs:
        raise Skip("no interior reference point")

    points = []
    for v in py.sample(vertices, min(3, len(vertices))):
        points.append(v)
    for a, b in py.sample(edges, min(4 if kind != "many" else 25, len(edges))):
        for t in (py.uniform(0.01, 0.99), py.choice([0.5, 0.25, 0.125]), py.choice([-1, -0.5, 1.5, 2, -0.01, 1.01, 3])):
            p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            points.append(p)
            if not 0 <= t <= 1:
                case.obs("on an extension")
        n = np.array([-(b[1] - a[1]), b[0] - a[0]])
        n = n / np.linalg.norm(n)
        t = py.uniform(0.01, 0.99)
        h = py.choice([1, -1]) * py.choice([1e-7, 1e-5, 1e-3, 0.1])
        points.append((a[0] + t * (b[0] - a[0]) + h * n[0], a[1] + t * (b[1] - a[1]) + h * n[1]))
    points += [interior() for _ in range(3)]
    points += [tuple(float(x) for x in rng.uniform(-8, 8, size=2)) for _ in range(3)]
    if kind in ("grid", "large grid"):
        points += [tuple(float(x) for x in np.rint(interior())) for _ in range(3)]
    # the intersections of extended edges, on two lines at the same time
    for _ in range(2):
        (a, b), (c, d) = py.sample(edges, 2)
        m = np.array([[b[0] - a[0], c[0] - d[0]], [b[1] - a[1], c[1] - d[1]]])
        if abs(np.linalg.det(m)) > 0.1:
            t = np.linalg.solve(m, [c[0] - a[0], c[1] - a[1]])[0]
            if abs(t) < 20:
                points.append((float(a[0] + t * (b[0] - a[0])), float(a[1] + t * (b[1] - a[1]))))

    forms = []
    for _ in range(3):
        k = py.randrange(len(vertices))
        w = vertices[k:] + vertices[:k]
        if py.random() < 0.5:
            w = w[::-1]
        w = py.choice([list, tuple, np.array, lambda w: gen.storage(py, w)])(w)
        if isinstance(w, np.ndarray) and w.dtype.itemsize < 8:
            case.obs("polygons in small storage types")
        forms.append(Polygon(w))
    case.equal(forms[0].vertices_num, len(vertices), "vertices-num")
    seen = set()
    for p in points:
        want = oracle(corners, vertices, p)
        if want is None:
            continue
        for form in forms:
            given = py.choice([tuple, list, np.array, lambda p: gen.storage(py, p)])(p)
            r = py.choice([tuple, list, np.array])(py.choice(refs))
            got = form.LocationRelation(given, r)
            case.check(got is want, want.name.lower(), lambda: "{0}: got {1} want {2}, vertices {3}, ref {4}".format(
                p, got, want, form.vertices.tolist(), tuple(r)))
            case.obs("locations")
        case.obs(want.name.lower(), 3)
        seen.add(want)
    if len(seen) >= 3:
        case.nontrivial(kind, case.index)
    # the vertices stay as given
    for form in forms:
        case.check(sorted(map(tuple, form.vertices.tolist())) == sorted(vertices), "vertices-changed")


def tolerances(case):
    """Points within, or clearly beyond, a given tolerance."""
    py, rng = case.py, case.rng
    tol = 10.0 ** py.uniform(-8, -2)
    kind, corners = polygon(case)
    edges = list(zip(corners, corners[1:] + corners[:1]))
    for a, b in edges:
        dx, dy = abs(a[0] - b[0]), abs(a[1] - b[1])
        if np.hypot(dx, dy) < 50 * tol or 1e-13 < dx < 50 * tol or 1e-13 < dy < 50 * tol or (dx > 1e-13 and dy / dx > 100):
            raise Skip("short edge")
    center = tuple(float(x) for x in np.mean(corners, axis=0))
    if min(segment_distance(a, b, center) for a, b in edges) < 50 * tol:
        raise Skip("thin")
    case.note(kind=kind, vertices=corners, tol=tol)
    w = corners if py.random() < 0.5 else corners[::-1]
    form = Polygon(w, tol=tol) if py.random() < 0.5 else Polygon(w)

    def expect(p, want):
        got = form.LocationRelation(py.choice([tuple, list, np.array])(p), center, tol=tol)
        case.check(got is want, "tolerance-" + want.name.lower(), lambda: "{0}: got {1}, tol {2}, vertices {3}".format(
            p, got, tol, form.vertices.tolist()))
        case.obs("locations within a given tolerance")

    for v in corners:
        t = py.uniform(0, 2 * np.pi)
        h = py.uniform(0, 0.9) * tol
        expect((v[0] + h * np.cos(t), v[1] + h * np.sin(t)), Location.CORNER)
    for a, b in edges:
        d = np.hypot(b[0] - a[0], b[1] - a[1])
        n = (-(b[1] - a[1]) / d, (b[0] - a[0]) / d)         # inwards
        vertical = abs(b[0] - a[0]) <= 1e-13
        for _ in range(3):
            t = py.uniform(0.1, 0.9)
            x, y = a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])
            others = [e for e in edges if e != (a, b)]
            if min(segment_distance(c, e, (x, y)) for c, e in others) < 5 * tol:
                continue
            h = py.choice([1, -1]) * py.uniform(0, 0.5) * tol
            expect((x + h, y) if vertical else (x, y + h), Location.BOUNDARY)
            h = py.uniform(2.1, 4) * tol
            expect((x + h * n[0], y + h * n[1]), Location.INSIDE)
            expect((x - h * n[0], y - h * n[1]), Location.OUTSIDE)
    case.nontrivial("tolerance", kind, case.index)


def refused(case):
    py, rng = case.py, case.rng
    _, v = polygon(case)
    case.note(vertices=v)
    i = py.randrange(len(v))
    near = tuple(np.array(v[i]) + rng.uniform(-1, 1, size=2) * py.choice([0, 5e-11]))
    bad = (ValueError, AssertionError)
    k = py.randrange(len(v) + 1)
    case.raises(bad, lambda: Polygon(v[:k] + [near] + v[k:]), "duplicate", (v, near))
    case.raises(bad, lambda: Polygon(v + v[:1]), "closed-list", v)
    case.raises(bad, lambda: Polygon(v[:2]), "two-vertices")
    case.raises(bad, lambda: Polygon(v[:1]), "one-vertex")
    case.raises(bad, lambda: Polygon([p + (0.0,) for p in v]), "three-dimensional")
    case.raises(bad, lambda: Polygon(np.array(v).ravel()), "flat-array")
    case.raises(bad, lambda: Polygon([np.array(v), np.array(v)]), "nested-array")
    case.raises(bad, lambda: Polygon(v + [tuple(np.array(v[0]) + 5e-4)], tol=1e-3), "duplicate-tolerance")
    # the object owns its vertices
    given = np.array(v)
    p = Polygon(given)
    given += 1
    case.check(np.array_equal(p.vertices, np.array(v)), "aliased-argument")
    out = p.vertices
    out += 1
    case.check(np.array_equal(p.vertices, np.array(v)), "aliased-result")
    case.nontrivial("refused", case.index)


SECTIONS = [
    past.section(past.polygon, quick=14, thorough=280),
    Section("locate", locate, 500, 20000),
    Section("tolerances", tolerances, 200, 5000),
    Section("refused", refused, 25, 300),
]
