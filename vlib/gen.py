"""Workload generators shared by the checks."""
import numpy as np

COEFFS = ("int", "float", "complex", "np.float64", "np.int64", "np.complex128", "negative", "tiny", "huge",
          "narrow", "zero")
# Numbers in the narrow types of numpy, few enough bits for exact products
NARROW = (np.float32(0.5), np.float32(-1.5), np.float16(2.0), np.int32(-2),
          np.complex64(1 + 2j), np.complex64(-0.5 + 0.25j), np.complex64(-1j), np.complex64(2))


def coeff(case, allow_zero=False, kinds=None):
    py = case.py
    kinds = kinds or COEFFS[:10] + (("zero",) if allow_zero else ())
    kind = py.choice(kinds)
    value = py.choice([1, 2, 3, 0.5, 0.25, 1.5, 2.75, py.uniform(0.1, 3)])
    if kind == "int":
        return py.choice([1, 2, -1, -3, 7])
    if kind == "float":
        return float(value)
    if kind == "complex":
        return complex(py.uniform(-2, 2), py.uniform(0.1, 2))
    if kind == "np.float64":
        return np.float64(value)
    if kind == "np.int64":
        return np.int64(py.choice([2, -5, 3]))
    if kind == "np.complex128":
        return np.complex128(complex(value, -py.uniform(0.1, 2)))
    if kind == "negative":
        return -float(value)
    if kind == "tiny":
        return py.choice([1e-7, 1e-7, 1e-12, 1e-20]) * value * py.choice([1, 1, -1, 1j])
    if kind == "huge":
        return py.choice([1e7, 1e7, 1e14]) * value
    if kind == "narrow":
        return py.choice(NARROW)
    return py.choice([0, 0.0, 0j])


def size(c):
    """The scale of what has the coefficient c."""
    return abs(complex(c)) or 1.0


def coordinate(py):
    """One coordinate on a grid coarse enough to keep distinct values distinct."""
    kind = py.randrange(6)
    if kind == 0:
        if py.random() < 0.2:
            # far away: beyond 32 bits in units of the fourth decimal
            return py.choice([-1, 1]) * py.randrange(2 * 10 ** 7, 10 ** 9) / 100
        return py.randrange(-3, 4)
    if kind == 1:
        return py.randrange(-12, 13) / 4
    if kind == 2:
        return py.randrange(-20, 21) * 0.1
    if kind == 3:
        return py.randrange(-6, 7) * 0.8660254037844386
    if kind == 4:
        return py.randrange(-300, 301) / 3
    return float(py.randrange(-10 ** 5, 10 ** 5 + 1)) / 100


def site(py, dim):
    return tuple(coordinate(py) for _ in range(dim))


def key4(value):
    """Independent fixed point identity used to keep generated sites apart."""
    return round(float(value) * 10 ** 4)


def distinct_sites(py, n, dim=None):
    dim = dim or py.choice([1, 2, 3])
    res = []
    while len(res) < n:
        new = site(py, dim)
        if all(any(abs(key4(a) - key4(b)) > 50 for a, b in zip(new, old)) for old in res):
            res.append(new)
    return res


def storage(py, array):
    """The same whole numbers in another storage type of numpy."""
    array = np.asarray(array)
    if array.size == 0 or not np.all(array == np.rint(array)):
        return array
    low, high = int(array.min()), int(array.max())
    fits = [t for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64)
            if np.iinfo(t).min <= low and high <= np.iinfo(t).max]
    kind = np.dtype(py.choice(fits))
    return array.astype(kind.newbyteorder("S") if py.random() < 0.2 else kind)


def as_container(py, coords):
    kind = py.randrange(4)
    if kind == 0:
        return tuple(coords)
    if kind == 1:
        return list(coords)
    if kind == 2:
        return np.array(coords, dtype=float)
    return np.array(coords, dtype=float)[::1]


def noisy_container(py, coords):
    """The same site as it comes out of a computation: equal up to round-off."""
    if py.random() < 0.25:
        coords = tuple(float(c) + py.choice([-1, 0, 1]) * py.choice([1e-15, 4e-14, 1e-12]) for c in coords)
    return as_container(py, coords)


def state_labels(py, n, dim=None, max_spin=3, max_orbit=3):
    """n distinct (site, spin, orbit) labels of one dimension."""
    dim = dim or py.choice([1, 2, 3])
    number_of_sites = py.randrange(1, n + 1)
    sites = distinct_sites(py, number_of_sites, dim)
    pool = [(s, spin, orbit) for s in sites for spin in range(max_spin) for orbit in range(max_orbit)]
    while len(pool) < n:
        max_spin += 1
        pool = [(s, spin, orbit) for s in sites for spin in range(max_spin) for orbit in range(max_orbit)]
    return py.sample(pool, n)


def positions(py, k, top=64):
    """k distinct bit positions, boundary positions likely."""
    special = [p for p in (0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 47, 48, 52, 53, 54, 61, 62, 63) if p < top]
    pool = set()
    while len(pool) < k:
        pool.add(py.choice(special) if py.random() < 0.6 else py.randrange(top))
    return sorted(pool)


def random_hermitian(rng, n, complex_=True, degenerate=False):
    if complex_:
        a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    else:
        a = rng.normal(size=(n, n))
    a = (a + a.conj().T) / 2
    if degenerate:
        w, v = np.linalg.eigh(a)
        levels = rng.integers(1, max(2, n // 2) + 1)
        w = np.sort(rng.integers(0, levels, size=n)).astype(float)
        a = (v * w) @ v.conj().T
        a = (a + a.conj().T) / 2
    return a


LATTICE_NAMES = ["chain", "square", "triangle", "honeycomb", "kagome", "cubic"]
SPECIAL = {
    "square_cross": ("square_cross", "square_12", "cross"),
    "square_z": ("square_z", "z"),
    "square_s": ("square_s", "s"),
    "triangle_star": ("triangle_star", "triangle_13", "star", "SD"),
    "honeycomb_benzene": ("honeycomb_benzene", "honeycomb_6", "benzene"),
    "honeycomb_diphenyl": ("honeycomb_diphenyl", "honeycomb_10", "diphenyl"),
    "honeycomb_gear": ("honeycomb_gear", "honeycomb_24", "gear"),
}


def random_lattice_data(case, max_points=5, skew=True, space_dim=None, trans_dim=None):
    """points, vectors of a generic lattice whose points are well separated and
    inequivalent."""
    py, rng = case.py, case.rng
    for _ in range(1000):
        d = space_dim or py.choice([1, 2, 2, 2, 3])
        t = trans_dim or (d if py.random() < 0.7 else py.randrange(1, d + 1))
        vectors = rng.uniform(-2, 2, size=(t, d))
        if py.random() < 0.4:
            vectors = np.round(vectors * 2) / 2
        if skew and t >= 2 and py.random() < 0.4:
            vectors[1] += py.choice([-3, -2, 2, 3]) * vectors[0]
        sing = np.linalg.svd(vectors, compute_uv=False)
        if sing[-1] < 0.5 or sing[0] > 9:
            continue
        n = py.randrange(1, max_points + 1)
        spread = py.choice([0.5, 1.0, 2.0])
        points = rng.uniform(-spread, spread, size=(n, d))
        if py.random() < 0.5:
            points = np.round(points * 4) / 4
        # inequivalent and separated modulo the translations
        ok = True
        if n > 1:
            from vlib import ref
            i, j, mesh, disp, dist = ref.pair_displacements(points, vectors, 0.2)
            ok = len(dist) == n      # only the n zero displacements
        if ok:
            if py.random() < 0.3:
                points = points + rng.uniform(-5, 5, size=d)
            return points, vectors
    raise RuntimeError("no lattice found")
