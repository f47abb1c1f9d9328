"""P23: k-paths."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import KPath
from HamiltonianPy import lattice as lattice_package

from vlib import gen
from vlib.harness import Section

PID = "P23"
RULE = ("random anchor sequences in two and three dimensions (lists and tuples of arrays, two-dimensional arrays, integer "
        "coordinates, read-only and strided arrays, revisited anchors, extreme length ratios) and the paths between the "
        "published high-symmetry points, loops and open paths; non-trivial when at least two segments were judged")
MUST = {"segments": 800, "paths": 250, "refusals observed": 150, "shortest segments": 250, "paths through whole numbers": 15, "paths of many points": 3}


def judge(case, points, min_num, loop, result, mechanism="path"):
    kpoints, indices = result
    anchors = [np.asarray(p, dtype=float) for p in points]
    if loop:
        anchors = anchors + [anchors[0]]
    lengths = np.array([np.linalg.norm(b - a) for a, b in zip(anchors, anchors[1:])])
    indices = [int(i) for i in indices]
    case.equal(len(indices), len(anchors), mechanism + "-indices", indices)
    case.equal(indices[0], 0, mechanism + "-first-index")
    case.equal(indices[-1], len(kpoints) - 1, mechanism + "-last-index")
    kpoints = np.asarray(kpoints, dtype=float)
    case.equal(kpoints.shape, (len(kpoints), len(anchors[0])), mechanism + "-shape")
    scale = max(1.0, np.abs(anchors).max())
    least = lengths.min()
    for k, (a, b) in enumerate(zip(anchors, anchors[1:])):
        start, stop = indices[k], indices[k + 1]
        num = stop - start
        case.check(num >= min_num, mechanism + "-too-few", "segment {0}: {1} < {2}".format(k, num, min_num))
        case.close(kpoints[start], a, mechanism + "-anchor", k, atol=1e-12 * scale, rtol=0)
        case.close(kpoints[stop], b, mechanism + "-anchor", k + 1, atol=1e-12 * scale, rtol=0)
        t = np.arange(num + 1)[:, None] / num
        case.close(kpoints[start:stop + 1], a + t * (b - a), mechanism + "-straight", k, atol=1e-11 * scale, rtol=0)
        if lengths[k] - least <= 1e-13 * least:
            case.equal(num, min_num, mechanism + "-shortest", (k, lengths[k]))
            case.obs("shortest segments")
        wanted = min_num * lengths[k] / least
        case.check(abs(num - wanted) <= 1 + 1e-9 * wanted, mechanism + "-proportional", (k, num, wanted))
        case.obs("segments")
    case.obs("paths")
    case.peak("anchors", len(anchors))
    case.peak("points", len(kpoints))
    case.peak("longest over shortest", float(lengths.max() / least))


def anchors_of(case):
    py, rng = case.py, case.rng
    dim = py.choice([2, 2, 3])
    number = py.randrange(2, 7)
    kind = py.randrange(5)
    if kind == 0:
        points = rng.uniform(-3, 3, size=(number, dim))
    elif kind == 1:
        low, high = py.choice([(-4, 5), (0, 5), (0, 120), (-100, 120)])
        points = gen.storage(py, [[py.randrange(low, high) for _ in range(dim)] for _ in range(number)])
        case.obs("paths through whole numbers")
    elif kind == 2:
        points = np.array([[py.randrange(-4, 5) * 0.1 for _ in range(dim)] for _ in range(number)])
    elif kind == 3:
        points = rng.uniform(-1, 1, size=(number, dim)) * 10.0 ** py.randrange(-2, 3)
    else:
        # regular polygons: all segments have equal lengths up to noise
        angle = np.arange(number) * 2 * np.pi / number + py.uniform(0, 1)
        points = np.stack([np.cos(angle), np.sin(angle)], axis=1) * py.uniform(0.1, 5)
    points = [p for p in points]
    if py.random() < 0.3 and len(points) > 2:
        points.append(points[py.randrange(len(points) - 1)].copy())
    res = [points[0]]
    for p in points[1:]:
        if np.linalg.norm(np.subtract(p, res[-1], dtype=float)) > 2e-3:
            res.append(p)
    return res


def container(case, points):
    py = case.py
    kind = py.randrange(6)
    points = [np.array(p) for p in points]
    if kind == 0:
        return points
    if kind == 1:
        return tuple(points)
    if kind == 2:
        return np.array(points)
    if kind == 3:
        big = np.zeros((2 * len(points), len(points[0])), dtype=points[0].dtype)
        big[::2] = points
        return big[::2]
    if kind == 4:
        res = np.array(points, order="F")
        res.setflags(write=False)
        return res
    for p in points:
        p.setflags(write=False)
    return points


def paths(case):
    py = case.py
    points = anchors_of(case)
    loop = py.random() < 0.5
    if len(points) < 2 or (loop and np.linalg.norm(np.subtract(points[0], points[-1], dtype=float)) < 2e-3):
        points = points[:-1] if len(points) > 2 else [np.array([0.0, 0.0]), np.array([1.0, py.uniform(-1, 1)])]
    lengths = [np.linalg.norm(np.subtract(b, a, dtype=float)) for a, b in zip(points, points[1:] + ([points[0]] if loop else []))]
    min_num = py.choice([1, 1, 2, 3, 7, 10, 47, 49, 50, 100, 101, py.randrange(1, 200)])
    if py.random() < 0.06:
        # as fine as for a thousand points per unit of a long path
        min_num = py.choice([1000, 4097, 20000, 33000, 70000])
    if sum(lengths) / min(lengths) * min_num > 4e5:
        min_num = 1
    if sum(lengths) / min(lengths) * min_num > 40000:
        case.obs("paths of many points")
    given = container(case, points)
    copies = [np.array(p, copy=True) for p in given]
    case.note(points=points, loop=loop, min_num=min_num)
    result = None
    for _ in range(2):
        style = py.randrange(3)
        if style == 0 and loop:
            result = KPath(given, min_num)
        elif style == 1:
            result = KPath(given, min_num=min_num, loop=loop, return_indices=True)
        else:
            result = lattice_package.KPath(given, min_num, loop)
        case.check(isinstance(result, tuple) and len(result) == 2, "result", type(result))
        judge(case, copies, min_num, loop, result)
        case.check(len(given) == len(copies) and all(np.array_equal(a, b) for a, b in zip(given, copies)), "modified-anchors")
        alone = KPath(given, min_num=min_num, loop=loop, return_indices=False)
        case.check(np.array_equal(alone, result[0]), "without-indices")
        kept = np.array(result[0])
        # the returned points are the caller's own
        result[0][...] = 3.5
        case.check(len(given) == len(copies) and all(np.array_equal(a, b) for a, b in zip(given, copies)), "aliased-anchors")
        again = KPath(given, min_num=min_num, loop=loop, return_indices=False)
        case.check(np.array_equal(again, kept), "repeated")
    if len(lengths) > 1:
        case.nontrivial(case.index)


def published(case):
    """Paths between the published points of the Brillouin zones."""
    py = case.py
    prefixes = {}
    for name in lattice_package.__all__:
        for suffix in ("_GAMMA", "_XS", "_MS", "_KS"):
            if name.endswith(suffix):
                prefixes.setdefault(name[:-len(suffix)], []).append(name)
    names = sorted(k for k, v in prefixes.items() if len(v) > 1)
    prefix = names[case.index % len(names)]
    tables = {n[len(prefix) + 1:]: np.array(getattr(HP, n, getattr(lattice_package, n))) for n in prefixes[prefix]}
    points = [tables["GAMMA"]]
    for key, value in tables.items():
        if key != "GAMMA":
            points.append(py.choice(list(value)))
    case.note(prefix=prefix)
    py.shuffle(points)
    for min_num in (1, 50, 100):
        for loop in (True, False):
            judge(case, points, min_num, loop, KPath(points, min_num=min_num, loop=loop))
    case.nontrivial(prefix, case.index)
    # the default values
    judge(case, points, 100, True, KPath(points))
    boundary = list(tables.get("KS", tables.get("MS")))
    judge(case, boundary, 20, True, KPath(boundary, min_num=20))


def refused(case):
    py, rng = case.py, case.rng
    dim = py.choice([2, 3])
    points = [rng.uniform(-2, 2, size=dim) for _ in range(py.randrange(2, 6))]
    bad = (ValueError, AssertionError)
    i = py.randrange(len(points))
    near = points[i] + py.choice([0, 1]) * rng.uniform(-1, 1, size=dim) * 4e-5
    twice = points[:i + 1] + [near] + points[i + 1:]
    case.note(points=points, i=i)
    for loop in (True, False):
        case.raises(bad, lambda: KPath(twice, loop=loop), "identical-neighbours", (twice, loop))
    closing = points + [points[0].copy()]
    case.raises(bad, lambda: KPath(closing, loop=True), "identical-closing", closing)
    if len(points) > 1:
        judge(case, closing, 5, False, KPath(closing, min_num=5, loop=False), "closed-open")
    case.raises(bad, lambda: KPath(points[:1], loop=False), "single-anchor")
    case.raises(bad, lambda: KPath([]), "no-anchor")
    for value in (0, -1, 2.5, None):
        case.raises(bad, lambda: KPath(points, min_num=value), "min-num", value)
    wrong = [rng.normal(size=py.choice([1, 4])) for _ in range(3)]
    wrong = [w[:min(len(x) for x in wrong)] for w in wrong]
    case.raises(bad, lambda: KPath(wrong), "dimension", wrong)
    case.nontrivial("refused", case.index)


SECTIONS = [
    Section("paths", paths, 150, 4000),
    Section("published", published, 24, 240),
    Section("refused", refused, 40, 600),
]
