"""P22: reciprocal vectors and published lattice constants."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import Lattice
from HamiltonianPy import lattice as lattice_package

from vlib import gen, lattices
from vlib.harness import Section

PID = "P22"
RULE = ("reciprocal vectors of random (partially periodic, skewed, scaled) and published lattices against the defining "
        "equations; every published high-symmetry table against an independent enumeration of the Wigner-Seitz cell of "
        "the reciprocal lattice; tilings counted on random parent sites; hostile constructor arguments; non-trivial when "
        "a lattice with at least two translation vectors, a table or a refusal was judged")
MUST = {"reciprocal bases": 250, "published lattices": 13, "zone tables": 20, "parent sites covered": 3000,
        "refusals observed": 300, "accepted neighbours": 100}

ROOT3 = 3 ** 0.5
HONEY = [[0, -0.5 / ROOT3], [0, 0.5 / ROOT3]]
# prefix: (parent, number of points, tables)
TABLES = {
    "CHAIN_CELL": ("chain", 1, {"ES": "corner"}),
    "SQUARE_CELL": ("square", 1, {"XS": "face", "MS": "corner"}),
    "TRIANGLE_CELL": ("triangle", 1, {"MS": "face", "KS": "corner"}),
    "HONEYCOMB_CELL": ("honeycomb", 2, {"MS": "face", "KS": "corner"}),
    "KAGOME_CELL": ("kagome", 3, {"MS": "face", "KS": "corner"}),
    "CUBIC_CELL": ("cubic", 1, {"XS": "face", "MS": "edge", "KS": "corner"}),
    "SQUARE_CROSS": ("square", 12, {}),
    "SQUARE_Z": ("square", 10, {"XS": "face", "MS": "corner"}),
    "SQUARE_S": ("square", 10, {"XS": "face", "MS": "corner"}),
    "TRIANGLE_STAR": ("triangle", 13, {"MS": "face", "KS": "corner"}),
    "HONEYCOMB_BENZENE": ("honeycomb", 6, {"MS": "face", "KS": "corner"}),
    "HONEYCOMB_DIPHENYL": ("honeycomb", 10, {}),
    "HONEYCOMB_GEAR": ("honeycomb", 24, {"MS": "face", "KS": "corner"}),
}


def parent_of(name):
    vectors, points = lattices.PARENTS[name]
    return np.array(vectors, dtype=float), np.array(HONEY if points is None else points, dtype=float)


def judge_reciprocal(case, vectors, bs, mechanism):
    vectors, bs = np.asarray(vectors, dtype=float), np.asarray(bs, dtype=float)
    case.check(bs.shape == vectors.shape, mechanism + "-shape", bs.shape)
    scale = np.abs(vectors).max() * np.abs(bs).max()
    case.close(vectors @ bs.T, 2 * np.pi * np.eye(len(vectors)), mechanism + "-duality", atol=1e-10 * max(1, scale))
    # in the span of the vectors
    q, _ = np.linalg.qr(vectors.T)
    case.close(bs - (bs @ q) @ q.T, np.zeros(bs.shape), mechanism + "-span", atol=1e-10 * max(1, np.abs(bs).max() * 10))
    case.obs("reciprocal bases")


def reciprocal(case):
    py, rng = case.py, case.rng
    kind = py.randrange(4)
    if kind == 0:
        lat, points, vectors, tag = lattices.published(case)
    else:
        points, vectors = gen.random_lattice_data(case)
        points, vectors = np.array(points, dtype=float), np.array(vectors, dtype=float)
        if kind == 2:
            scale = 10.0 ** py.randrange(-1, 4)
            points, vectors = points * scale, vectors * scale
        if kind == 3:
            vectors = np.array(rng.integers(-3, 4, size=vectors.shape), dtype=int)
            if np.linalg.matrix_rank(vectors) < len(vectors):
                vectors = np.eye(vectors.shape[1], dtype=int)[:len(vectors)] * py.randrange(1, 5)
        vectors = py.choice([np.ascontiguousarray, np.asfortranarray])(vectors)
        lat = Lattice(points, vectors)
        tag = "random"
    case.note(tag=tag, points=points, vectors=vectors)
    for _ in range(2):
        bs = lat.bs
        judge_reciprocal(case, vectors, bs, "bs")
        case.close(lat.points, points, "points", atol=0, rtol=0)
        case.close(lat.vectors, vectors, "vectors", atol=0, rtol=0)
        case.equal((lat.point_num, lat.space_dim, lat.trans_dim), (len(points), points.shape[1], len(vectors)), "counts")
        bs[...] = 7
    if len(vectors) > 1:
        case.nontrivial(tag, case.index)
    case.peak("trans_dim", len(vectors))


def nearest_count(k, grid):
    d = np.linalg.norm(grid - k, axis=1)
    least = d.min()
    return np.sum(np.abs(d - least) < 1e-8 * max(1, least)), abs(np.linalg.norm(k) - least) < 1e-8 * max(1, least)


def zone_points(bs):
    """face centres, edge midpoints and corners of the first Brillouin zone of
    the reciprocal lattice spanned by bs (independent of the library)."""
    n = len(bs)
    grid = np.array(list(itertools.product(range(-4, 5), repeat=n))) @ bs
    res = {"face": [], "edge": [], "corner": []}
    step = {1: 2, 2: 6, 3: 2}[n]
    top = {1: 4, 2: 12, 3: 4}[n]
    for coeff in itertools.product(range(-top, top + 1), repeat=n):
        if not any(coeff):
            continue
        k = np.array(coeff) @ bs / step
        count, belongs = nearest_count(k, grid)
        if not belongs or count == 1:
            continue
        # number of independent bisecting planes through k
        d = np.linalg.norm(grid - k, axis=1)
        near = grid[np.abs(d - d.min()) < 1e-8]
        rank = np.linalg.matrix_rank(near, tol=1e-6)
        if rank == n:
            res["corner"].append(k)
        elif rank == 1:
            if len(near) == 2 and np.allclose(k, near.sum(axis=0) / 2):
                res["face"].append(k)
        elif n == 3 and rank == 2:
            if np.allclose(k, near.mean(axis=0)):
                res["edge"].append(k)
    return {key: np.array(v) for key, v in res.items()}


def same_set(case, got, want, mechanism):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    case.check(got.shape == want.shape, mechanism + "-count", lambda: "{0} != {1}".format(got.shape, want.shape))
    free = list(range(len(want)))
    for p in got:
        hit = [k for k in free if np.linalg.norm(want[k] - p) < 1e-9]
        case.check(len(hit) == 1, mechanism, lambda: "{0} is not (or twice) listed: {1}".format(p, want))
        free.remove(hit[0])


def published(case):
    prefix = list(TABLES)[case.index % len(TABLES)]
    parent, number, tables = TABLES[prefix]
    case.note(prefix=prefix)
    module = (HP, lattice_package)[case.index // len(TABLES) % 2]
    module = module if hasattr(module, prefix + "_POINTS") else lattice_package
    get = lambda suffix: np.array(getattr(module, prefix + "_" + suffix), dtype=float)
    points, vectors, bs = get("POINTS"), get("AS"), get("BS")
    case.equal(len(points), number, "number-of-points", prefix)
    judge_reciprocal(case, vectors, bs, "constant")
    lat = Lattice(points, vectors)
    case.close(lat.bs, bs, "constant-bs", prefix, atol=1e-9)
    case.close(get("GAMMA"), np.zeros(points.shape[1]), "gamma", prefix)
    zone = zone_points(bs)
    for suffix, kind in tables.items():
        same_set(case, get(suffix), zone[kind], "zone-" + prefix + "_" + suffix)
        case.obs("zone tables")
        case.nontrivial(prefix, suffix)
    names = [n for n in dir(lattice_package) if n.startswith(prefix + "_") and n.isupper()]
    case.equal(sorted(names), sorted([prefix + "_" + s for s in ("POINTS", "AS", "BS", "GAMMA", *tables)]), "listed")
    # the generators use the same tables
    if prefix.endswith("_CELL"):
        other = [HP.lattice_generator(parent)]
    else:
        other = [HP.special_cluster(a) for a in gen.SPECIAL[prefix.lower()]]
    for o in other:
        case.close(o.points, points, "generator-points", prefix)
        case.close(o.vectors, vectors, "generator-vectors", prefix)
        case.close(o.bs, bs, "generator-bs", prefix)
    case.obs("published lattices")


def tiling(case):
    """Every parent site is equivalent to exactly one point of the cluster."""
    py = case.py
    prefix = list(TABLES)[case.index % len(TABLES)]
    parent, number, _ = TABLES[prefix]
    name = prefix.lower()
    lat = HP.lattice_generator(parent) if prefix.endswith("_CELL") else HP.special_cluster(py.choice(gen.SPECIAL[name]))
    pv, pp = parent_of(parent)
    points, vectors = lat.points, lat.vectors
    case.note(prefix=prefix)
    volume = abs(np.linalg.det(vectors)) / abs(np.linalg.det(pv)) * len(pp)
    case.close(volume, len(points), "volume", prefix, atol=1e-9)
    # the parent lattice in a frame where the cluster sits on it: some point of
    # the cluster is a parent site of some basis index
    inverse_parent = np.linalg.inv(pv)
    inverse = np.linalg.inv(vectors)
    whole = lambda x: np.all(np.abs(x - np.round(x)) < 1e-8)
    frames = []
    for b in range(len(pp)):
        shift = points[0] - pp[b]
        ok = all(any(whole((p - shift - q) @ inverse_parent) for q in pp) for p in points)
        ok = ok and all(whole(v @ inverse_parent) for v in vectors)
        if ok:
            frames.append(shift)
    case.check(len(frames) >= 1, "not-on-parent", prefix)
    shift = frames[0]
    for _ in range(12):
        b = py.randrange(len(pp))
        coeff = np.array([py.randrange(-9, 10) for _ in range(len(pv))])
        site = coeff @ pv + pp[b] + shift
        owners = [k for k, p in enumerate(points) if whole((site - p) @ inverse)]
        case.equal(len(owners), 1, "covered-once", (prefix, site))
        case.obs("parent sites covered")
        if py.random() < 0.3:
            p, dr = lat.decompose(site)
            case.close(p, points[owners[0]], "decompose", prefix, atol=1e-9)
            case.close(p + dr, site, "decompose-sum", prefix, atol=1e-9)
    case.nontrivial(prefix, case.index)


def refused(case):
    py, rng = case.py, case.rng
    points, vectors = gen.random_lattice_data(case, max_points=4)
    points, vectors = np.array(points, dtype=float), np.array(vectors, dtype=float)
    d = points.shape[1]
    case.note(points=points, vectors=vectors)
    bad = (ValueError, AssertionError)
    i = py.randrange(len(points))
    noise = lambda size: rng.uniform(-1, 1, size=d) * size / np.sqrt(d)
    dup = np.concatenate([points, points[i:i + 1] + py.choice([0, noise(0.9e-4)])])
    dup = dup[py.sample(range(len(dup)), len(dup))]
    case.raises(bad, lambda: Lattice(dup, vectors), "duplicate-points", dup)
    if len(vectors) < d:
        k = py.randrange(len(vectors))
        twice = np.concatenate([vectors, vectors[k:k + 1] + py.choice([0, noise(0.9e-4)])])
        case.raises(bad, lambda: Lattice(points, twice), "duplicate-vectors", twice)
    more = rng.normal(size=(d + py.randrange(1, 3), d))
    case.raises(bad, lambda: Lattice(points, more), "too-many-vectors", more)
    other = py.choice([e for e in (1, 2, 3) if e != d])
    wrong = rng.normal(size=(1, other))
    case.raises(bad, lambda: Lattice(points, wrong), "dimensions", wrong)
    case.raises(bad, lambda: Lattice(wrong, vectors if other < d else wrong[:, :d]), "dimensions", wrong)
    e = py.choice([4, 5])
    case.raises(bad, lambda: Lattice(rng.normal(size=(2, e)), np.eye(e)[:py.randrange(1, e)]), "four-dimensional", e)
    case.raises(bad, lambda: Lattice(points.tolist(), vectors), "not-array")
    case.raises(bad, lambda: Lattice(points, vectors.tolist()), "not-array")
    case.raises(bad, lambda: Lattice(points[0], vectors), "one-dimensional-array")
    case.raises(bad, lambda: Lattice(points, vectors[0]), "one-dimensional-array")
    # points at distances above the limit are accepted
    step = rng.normal(size=d)
    near = points[i] + step / np.linalg.norm(step) * 1.2e-4
    if all(np.linalg.norm(near - p) > 1.1e-4 for p in points):
        good = np.concatenate([points, [near]])
        case.close(Lattice(good, vectors).points, good, "near-points", atol=0, rtol=0)
        case.obs("accepted neighbours")
    case.nontrivial("refused", case.index)


SECTIONS = [
    Section("reciprocal", reciprocal, 150, 5000),
    Section("published", published, 26, 26, fixed=True),
    Section("tiling", tiling, 300, 3000),
    Section("refused", refused, 130, 1500),
]
