"""
Independent reference models.  Nothing here uses HamiltonianPy's algorithms;
only plain integers, numpy and scipy.
"""
import itertools
import math

import numpy as np

CREATION = 1
ANNIHILATION = 0


# ------------------------------------------------------------------ fermions
def apply_term(term, ket):
    """Apply [(index, otype), ...] (leftmost last) on an integer ket.

    Returns (sign, new_ket) or (0, None)."""
    sign = 1
    for index, otype in reversed(list(term)):
        occupied = (ket >> index) & 1
        if otype == CREATION:
            if occupied:
                return 0, None
        else:
            if not occupied:
                return 0, None
        if bin(ket & ((1 << index) - 1)).count("1") % 2:
            sign = -sign
        ket ^= 1 << index
    return sign, ket


def images(term, kets):
    res = []
    for ket in kets:
        sign, new = apply_term(term, int(ket))
        if sign:
            res.append(new)
    return res


def term_matrix(term, right, left=None, coeff=1.0):
    right = [int(k) for k in right]
    left = right if left is None else [int(k) for k in left]
    where = {k: i for i, k in enumerate(left)}
    dtype = np.complex128
    res = np.zeros((len(left), len(right)), dtype=dtype)
    for col, ket in enumerate(right):
        sign, new = apply_term(term, ket)
        if sign:
            if new not in where:
                raise LookupError("image outside")
            res[where[new], col] += coeff * sign
    return res


def term_entries(term, right, left=None):
    """Vectorised: arrays (rows, cols, signs) for uint64 bases."""
    right = np.asarray(right, dtype=np.uint64)
    left = right if left is None else np.asarray(left, dtype=np.uint64)
    ket = right.copy()
    alive = np.ones(ket.shape, dtype=bool)
    sign = np.ones(ket.shape, dtype=np.int64)
    one = np.uint64(1)
    for index, otype in reversed(list(term)):
        pos = np.uint64(index)
        occ = (ket >> pos) & one
        alive &= (occ == (0 if otype == CREATION else 1))
        low = ket & np.uint64((1 << index) - 1)
        par = popcount(low) & 1
        sign = np.where(par == 1, -sign, sign)
        ket = ket ^ np.uint64(1 << index)
    cols = np.nonzero(alive)[0]
    new = ket[cols]
    order = np.argsort(left, kind="stable")
    pos = np.searchsorted(left[order], new)
    ok = (pos < len(left))
    ok[ok] &= left[order][pos[ok]] == new[ok]
    if not np.all(ok):
        raise LookupError("image outside")
    return order[pos], cols, sign[cols]


def popcount(arr):
    arr = np.asarray(arr, dtype=np.uint64)
    return np.unpackbits(arr.reshape(-1, 1).view(np.uint8), axis=1).sum(axis=1).reshape(arr.shape)


# --------------------------------------------------------------------- spins
SPIN = {
    "x": {(0, 1): 0.5, (1, 0): 0.5},
    "y": {(0, 1): -0.5j, (1, 0): 0.5j},
    "z": {(0, 0): 0.5, (1, 1): -0.5},
    "p": {(0, 1): 1.0},
    "m": {(1, 0): 1.0},
}


def spin_matrix(otype, site, n):
    """Single spin operator on `n` spins; bit value 0 is spin up."""
    dim = 1 << n
    res = np.zeros((dim, dim), dtype=np.complex128)
    for (row, col), value in SPIN[otype].items():
        for ket in range(dim):
            if (ket >> site) & 1 == col:
                new = (ket & ~(1 << site)) | (row << site)
                res[new, ket] += value
    return res


def spin_product(operators, n, coeff=1.0):
    """operators: [(site, otype), ...], leftmost acts last."""
    dim = 1 << n
    vec_rows = np.arange(dim)
    # every spin operator maps a basis state on at most one basis state
    amp = np.full(dim, complex(coeff))
    ket = vec_rows.copy()
    for site, otype in reversed(list(operators)):
        bit = (ket >> site) & 1
        out = np.zeros(dim, dtype=np.complex128)
        new = ket.copy()
        for (row, col), value in SPIN[otype].items():
            sel = bit == col
            out[sel] = value
            new[sel] = (ket[sel] & ~(1 << site)) | (row << site)
        amp = amp * out
        ket = new
    res = np.zeros((dim, dim), dtype=np.complex128)
    res[ket, vec_rows] += amp
    return res


# ----------------------------------------------------------------- occupation
def subset_patterns(states, number):
    states = list(states)
    res = []
    sizes = range(len(states) + 1) if number < 0 else [number]
    for size in sizes:
        for combo in itertools.combinations(states, size):
            v = 0
            for s in combo:
                v += 2 ** s
            res.append(v)
    return res


def occupation_patterns(specifiers):
    """Brute force: filter all integers over the union of the states."""
    spaces = [(set(states), number) for states, number in specifiers]
    union = sorted(set().union(*[s for s, _ in spaces]))
    res = []
    for bits in itertools.product((0, 1), repeat=len(union)):
        occ = {s for s, b in zip(union, bits) if b}
        if all(number < 0 or len(occ & s) == number for s, number in spaces):
            res.append(sum(1 << s for s in occ))
    return sorted(res)


# ------------------------------------------------------------------- lattices
def translations(vectors, radius):
    """All integer combinations with |sum n_i a_i| <= radius (brute force)."""
    vectors = np.asarray(vectors, dtype=float)
    gram = vectors @ vectors.T
    inv = np.linalg.inv(gram)
    # |n_i| <= radius * |dual_i|
    bounds = [int(math.floor(radius * math.sqrt(inv[i, i]) + 1e-6)) for i in range(len(vectors))]
    axes = [np.arange(-b, b + 1) for b in bounds]
    mesh = np.stack(np.meshgrid(*axes, indexing="ij"), axis=-1).reshape(-1, len(vectors))
    dR = mesh @ vectors
    sel = np.linalg.norm(dR, axis=1) <= radius + 1e-9
    return mesh[sel], dR[sel]


def pair_displacements(points, vectors, radius):
    """All (i, j, n, displacement p_j + R_n - p_i) with length <= radius."""
    points = np.asarray(points, dtype=float)
    if len(points) > 1:
        diam = max(np.linalg.norm(p - q) for p in points for q in points)
    else:
        diam = 0.0
    mesh, dR = translations(vectors, radius + diam)
    disp = points[None, :, None, :] - points[:, None, None, :] + dR[None, None, :, :]
    dist = np.linalg.norm(disp, axis=-1)
    i, j, r = np.nonzero(dist <= radius)
    return i, j, mesh[r], disp[i, j, r], dist[i, j, r]


def neighbor_distances(points, vectors, count, tol=1e-7):
    """The first `count` + 1 distances (including 0) of the infinite lattice."""
    vectors = np.asarray(vectors, dtype=float)
    radius = min(np.linalg.norm(v) for v in vectors) * 1.0
    while True:
        *_, dist = pair_displacements(points, vectors, radius)
        values = []
        for d in np.sort(dist):
            if not values or d - values[-1] > tol:
                values.append(float(d))
        # complete below the radius
        if len(values) > count:
            return values[:count + 1]
        radius *= 1.5


def reduced(vectors, displacement):
    """Integer coefficients of a lattice translation, or None."""
    vectors = np.asarray(vectors, dtype=float)
    coeff, res, *_ = np.linalg.lstsq(vectors.T, np.asarray(displacement, dtype=float), rcond=None)
    near = np.rint(coeff)
    if np.linalg.norm(near @ vectors - displacement) < 1e-6:
        return tuple(int(x) for x in near)
    return None


# ------------------------------------------------------------------ rotations
def rodrigues(axis, theta):
    axis = np.asarray(axis, dtype=float)
    axis = axis / np.linalg.norm(axis)
    x, y, z = axis
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(theta) * K + (1 - np.cos(theta)) * (K @ K)


# -------------------------------------------------------------------- counting
def falling(n, k):
    res = 1
    for i in range(k):
        res *= n - i
    return res


def pascal(n, k):
    row = [1]
    for _ in range(n):
        row = [1] + [a + b for a, b in zip(row, row[1:])] + [1]
    return row[k] if 0 <= k <= n else 0
