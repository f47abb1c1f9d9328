"""P14: Lanczos projections."""
import numpy as np
import scipy.sparse as sp

from HamiltonianPy import KrylovRepresentation, MultiKrylov, lanczos

from vlib import gen
from vlib.harness import Section, Skip
from vlib.krylov import reference

PID = "P14"
RULE = ("random Hermitian matrices (real, complex, integer; dense or sparse; generic, few-level and block spectra; any "
        "scale) and starting vectors of any norm; the projection is compared with a twice reorthogonalised Gram-Schmidt "
        "basis, with moments of the matrix and with exact extreme eigenvalues; non-trivial when the Krylov space has at "
        "least three dimensions")
ASSUMPTIONS = [
    "the three-term recursion keeps orthogonality only until Ritz values converge: entries are judged for Krylov spaces "
    "of at most 14 dimensions whose exact off-diagonal entries stay above 2% of the norm of the matrix (or vanish)",
    "starting vectors and residuals are zero when their norm is below the documented threshold 1e-4; cases in which a "
    "residual lies between 1e-9 and 1e-2 of the norm are judged for one such residual (at least 1.2e-4) in spaces of "
    "at most 7 dimensions",
]
MUST = {"projections": 300, "exhausted spaces": 60, "truncated spaces": 100, "moments": 1500, "vectors projected": 800,
        "multi-start keys": 150, "shifted matrices": 20, "zero vectors refused": 20, "nearly invariant spaces": 100, "long Krylov spaces": 4}


def matrix(case):
    py, rng = case.py, case.rng
    n = py.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 30])
    kind = py.choice(["generic", "generic", "levels", "block", "integer", "diagonal"])
    complex_ = py.random() < 0.5
    if kind == "integer":
        a = rng.integers(-4, 5, size=(n, n))
        a = a + a.T
    elif kind == "levels":
        a = gen.random_hermitian(rng, n, complex_, degenerate=True)
    elif kind == "diagonal":
        a = np.diag(rng.integers(-3, 4, size=n)).astype(float)
    elif kind == "block":
        k = py.randrange(1, n + 1)
        a = np.zeros((n, n), dtype=complex if complex_ else float)
        a[:k, :k] = gen.random_hermitian(rng, k, complex_)
        if n > k:
            a[k:, k:] = gen.random_hermitian(rng, n - k, complex_)
    else:
        a = gen.random_hermitian(rng, n, complex_)
    if kind != "integer":
        shift = py.choice([0, 0, 5.0, -3.0, 0.0])
        if n <= 8 and py.random() < 0.2:
            # an energy far away from the origin: the Krylov spaces stay the same
            shift = py.choice([-1, 1]) * py.choice([300.0, 2e3, 8e3])
            case.obs("shifted matrices")
        a = a * py.choice([1, 1, 1, 30.0, 0.3]) + shift * np.eye(n)
    shape = py.choice(["dense", "fortran", "csr", "csc", "readonly"])
    if shape == "dense":
        M = a.copy()
    elif shape == "fortran":
        M = np.asfortranarray(a)
    elif shape == "readonly":
        M = a.copy()
        M.flags.writeable = False
    else:
        M = sp.csr_matrix(a) if shape == "csr" else sp.csc_matrix(a)
    return kind, np.asarray(a), M, shape


def vector(case, n, kind=None):
    py, rng = case.py, case.rng
    kind = kind or py.choice(["real", "complex", "int", "unit", "sub"])
    if kind == "int":
        v = rng.integers(-3, 4, size=n)
        if not np.any(v):
            v[py.randrange(n)] = 2
        return v
    if kind == "unit":
        v = np.zeros(n)
        v[py.randrange(n)] = py.choice([1.0, -2.5])
        return v
    v = rng.normal(size=n)
    if kind == "complex":
        v = v + 1j * rng.normal(size=n)
    if kind == "sub":
        v[rng.random(size=n) < 0.5] = 0.0
        if not np.any(v):
            v[0] = 1.0
    v = v * py.choice([1, 1, 1e-2, 1e3, -1])
    norm = np.linalg.norm(v)
    return v if norm > 1e-3 else v * (1e-3 / norm)      # well above the threshold for zero


def dense(M):
    return np.asarray(M.toarray() if sp.issparse(M) else M)


def judge(case, a, T, projected, v0, vectors, request, tag):
    # the Krylov spaces do not depend on the origin of the energy
    centered = np.asarray(a, dtype=complex) - np.trace(a) / a.shape[0] * np.eye(a.shape[0])
    basis, exhausted, rest = reference(centered, np.asarray(v0, dtype=complex), min(request, 14),
                                       np.asarray(a, dtype=complex))
    if not exhausted and request > 14:
        raise Skip("too large")
    m = basis.shape[1]
    scale = 1 + np.linalg.norm(a, 2)
    # digits lost to a far origin
    loss = max(1.0, scale / (1 + np.linalg.norm(centered, 2)))
    tight = 1e-7 * loss
    T = np.asarray(T)
    case.check(T.ndim == 2 and T.shape[0] == T.shape[1], tag + "shape", T.shape)
    case.equal(T.shape[0], m, tag + "dimension", "requested {0}, residuals {1}".format(request, rest[-2:]))
    case.check(all(isinstance(v, np.ndarray) for v in projected.values()), tag + "kind-of-vectors")
    case.check(not np.iscomplexobj(T), tag + "real", T.dtype)
    case.check(np.array_equal(T, T.T), tag + "symmetric")
    case.check(np.count_nonzero(np.triu(T, 2)) == 0, tag + "tridiagonal")
    if m > 1:
        case.check(np.all(np.diag(T, 1) >= 0), tag + "off-diagonal sign", np.diag(T, 1))
    want = basis.conj().T @ a @ basis
    case.close(T, want, tag + "matrix", "dimension {0}".format(m), atol=1e-7 * scale, rtol=0)
    # moments up to order 2 m - 1, straight from the matrix
    v = np.asarray(v0, dtype=complex)
    norm2 = np.vdot(v, v).real
    left = v.copy()
    e = np.zeros(m)
    e[0] = 1.0
    right = e.copy()
    for k in range(2 * m):
        case.close(right[0], np.vdot(v, left) / norm2, tag + "moment", k, atol=1e-7 * scale ** k, rtol=1e-7)
        left = a @ left
        right = T @ right
        case.obs("moments")
    # vectors
    case.equal(set(projected), set(vectors), tag + "keys")
    for key, vec in vectors.items():
        got = np.asarray(projected[key])
        case.equal(got.shape, (m,), tag + "vector-shape", key)
        vec = np.asarray(vec)
        size = np.linalg.norm(vec)
        case.close(got, basis.conj().T @ vec, tag + "vector", key, atol=tight * (1 + size), rtol=0)
        case.check(np.linalg.norm(got) <= size * (1 + tight) + 1e-12, tag + "bessel", key)
        case.obs("vectors projected")
    # spectrum
    w = np.linalg.eigvalsh(a)
    ritz = np.linalg.eigvalsh(T)
    case.check(ritz[0] >= w[0] - 1e-8 * scale and ritz[-1] <= w[-1] + 1e-8 * scale, tag + "range", (ritz, w))
    if exhausted:
        # the Krylov space is invariant: its Ritz values are eigenvalues seen by v0
        ew, ev = np.linalg.eigh(a)
        weight = np.abs(ev.conj().T @ v) ** 2 / norm2
        seen = ew[weight > 1e-6]
        if len(seen):
            case.check(ritz[0] <= seen[0] + 1e-6 * scale and ritz[-1] >= seen[-1] - 1e-6 * scale, tag + "extreme",
                       (ritz, seen))
        for r in ritz:
            case.check(np.min(np.abs(ew - r)) < 1e-6 * scale, tag + "eigenvalue", (r, ew))
        case.obs("exhausted spaces")
    else:
        case.obs("truncated spaces")
    case.obs("projections")
    case.peak("largest Krylov dimension", m)
    case.peak("largest matrix", a.shape[0])
    return m


def freeze(obj):
    if sp.issparse(obj):
        return obj.copy()
    return np.array(obj, copy=True)


def same(a, b):
    if sp.issparse(a):
        return (a != b).nnz == 0 and a.dtype == b.dtype
    return a.dtype == b.dtype and np.array_equal(a, b)


def single(case):
    py = case.py
    kind, a, M, shape = matrix(case)
    n = a.shape[0]
    v0 = vector(case, n)
    vectors = {k: vector(case, n) for k in py.sample(["a", "b", 3, ("x", 1), None], py.randrange(0, 4))}
    if py.random() < 0.4:
        vectors["start"] = v0
    request = py.choice([1, 2, 3, min(n, 6), min(n, 10), n, n + 5, 200])
    request = max(1, request)
    case.note(kind=kind, shape=shape, n=n, request=request, v0=v0, M=a if n < 6 else "")
    before = freeze(M), freeze(v0), {k: freeze(v) for k, v in vectors.items()}
    if request == 200 and py.random() < 0.5:
        T, P = KrylovRepresentation(M, vectors, v0)
    else:
        T, P = KrylovRepresentation(M, vectors, v0, krylov_space_dim=request)
    m = judge(case, a, T, P, v0, vectors, request, "")
    if m >= 3:
        case.nontrivial(kind, shape, n, request, case.index)
    case.check(same(M, before[0]) and same(v0, before[1]) and all(same(vectors[k], before[2][k]) for k in vectors)
               and list(vectors) == list(before[2]), "inputs-changed")
    # other requests on the same objects in between, results belong to the caller
    T *= 0
    for v in P.values():
        v *= 0
    other = max(1, m - 1)
    T2, P2 = KrylovRepresentation(M, vectors, v0, krylov_space_dim=other)
    judge(case, a, T2, P2, v0, vectors, other, "shorter-")
    T3, P3 = KrylovRepresentation(M, {}, v0, krylov_space_dim=request)
    case.equal(dict(P3), {}, "no-vectors")
    judge(case, a, T3, P3, v0, {}, request, "again-")
    # scaling and phase of the starting vector do not matter for the matrix
    T4, P4 = KrylovRepresentation(M, vectors, v0 * (-3.0), krylov_space_dim=request)
    case.close(T4, T3, "scaling", atol=1e-5 * (1 + np.linalg.norm(a, 2)), rtol=0)


def multi(case):
    py = case.py
    kind, a, M, shape = matrix(case)
    n = a.shape[0]
    keys = py.sample(["a", "b", 3, ("x", 1), None, 2.5], py.randrange(1, 5))
    vectors = {k: vector(case, n) for k in keys}
    if len(keys) > 1 and py.random() < 0.4:
        vectors[keys[1]] = vectors[keys[0]] * 2         # parallel starting vectors
    request = max(1, py.choice([1, 2, 3, min(n, 8), n, 200]))
    case.note(kind=kind, shape=shape, n=n, request=request, keys=keys)
    before = freeze(M), {k: freeze(v) for k, v in vectors.items()}
    if request == 200 and py.random() < 0.5:
        matrices, projected = MultiKrylov(M, vectors)
    else:
        matrices, projected = MultiKrylov(M, vectors, krylov_space_dim=request)
    case.equal(set(matrices), set(keys), "keys")
    case.equal(set(projected), set(keys), "keys")
    case.check(same(M, before[0]) and all(same(vectors[k], before[1][k]) for k in vectors), "inputs-changed")
    for k in keys:
        T, P = KrylovRepresentation(M, vectors, vectors[k], krylov_space_dim=request)
        case.close(matrices[k], T, "single-multi", k, atol=1e-9 * (1 + np.linalg.norm(a, 2)), rtol=0)
        case.equal(set(projected[k]), set(P), "single-multi-keys", k)
        for key in P:
            case.close(projected[k][key], P[key], "single-multi-vectors", (k, key),
                       atol=1e-9 * (1 + np.linalg.norm(vectors[key])), rtol=0)
        case.obs("multi-start keys")
    done = 0
    for k in keys:
        try:
            judge(case, a, matrices[k], projected[k], vectors[k], vectors, request, "multi-")
            done += 1
        except Skip:
            pass
        # the norm of the starting vector is the only component of its projection
        first = projected[k][k]
        case.close(first[0], np.linalg.norm(vectors[k]), "start-component", k, rtol=1e-9)
    if done and n >= 3:
        case.nontrivial(kind, shape, n, request, case.index)


def zero(case):
    py = case.py
    n = py.randrange(1, 8)
    a = gen.random_hermitian(case.rng, n)
    tiny = vector(case, n, "real")
    tiny = tiny / np.linalg.norm(tiny) * py.choice([1e-5, 9e-5, 1e-12])
    for v in (np.zeros(n), np.zeros(n, dtype=complex), np.zeros(n, dtype=int), tiny):
        case.raises(ValueError, lambda: KrylovRepresentation(a, {"v": np.ones(n)}, v, krylov_space_dim=3), "zero", v)
        case.obs("zero vectors refused")
    case.raises(ValueError, lambda: MultiKrylov(a, {"v": np.ones(n), "z": np.zeros(n)}, krylov_space_dim=3), "zero-multi")
    # just above the threshold
    v = vector(case, n, "real")
    v = v / np.linalg.norm(v)
    T, P = KrylovRepresentation(a, {"v": v}, v * 1.1e-4, krylov_space_dim=1)
    case.close(T, [[np.vdot(v, a @ v).real]], "small", atol=1e-9)
    case.close(P["v"], [1.0], "small", atol=1e-9)
    # a lower threshold makes tiny vectors legal, a higher one cuts residuals
    lanczos.set_threshold(*[1e-14][case.index % 2:], **{"threshold": 1e-14 for _ in range(case.index % 2)})
    try:
        T, P = KrylovRepresentation(a, {}, v * 1e-9, krylov_space_dim=min(2, n))
        judge(case, a, T, P, v, {}, min(2, n), "threshold-")
        case.raises(ValueError, lambda: KrylovRepresentation(a, {}, v * 0), "zero", v)
    except Skip:
        pass
    finally:
        lanczos.set_threshold(1e-4)
    lanczos.set_threshold(1e6)
    try:
        case.raises(ValueError, lambda: KrylovRepresentation(a, {}, v), "high-threshold")
        T, P = KrylovRepresentation(a, {}, v * 1e7)
        case.equal(T.shape, (1, 1), "high-threshold-residual")
    finally:
        lanczos.set_threshold(1e-4)
    for bad in (-1.0, None, "x"):
        case.raises((AssertionError, TypeError, ValueError), lambda: lanczos.set_threshold(bad), "threshold", bad)
    case.raises(ValueError, lambda: KrylovRepresentation(a, {}, np.full(n, 1e-9)), "threshold-after-refusal")
    case.nontrivial(n, case.index)


def large(case):
    """Ground states of larger sparse matrices: extreme Ritz values converge."""
    py, rng = case.py, case.rng
    n = 300 if case.index % 4 == 0 else py.choice([60, 150, 300])
    a = sp.random(n, n, density=0.05, random_state=int(rng.integers(1 << 30)))
    a = (a + a.T) * 0.5 + sp.diags(rng.normal(size=n))
    if py.random() < 0.5:
        b = sp.random(n, n, density=0.05, random_state=int(rng.integers(1 << 30)))
        a = a + 1j * (b - b.T) * 0.5
    a = sp.csr_matrix(a)
    w = np.linalg.eigvalsh(a.toarray())
    v0 = rng.normal(size=n)
    T, _ = KrylovRepresentation(a, {}, v0, krylov_space_dim=120)
    r = np.linalg.eigvalsh(T)
    case.note(n=n)
    case.close([r[0], r[-1]], [w[0], w[-1]], "extreme", n, atol=1e-6, rtol=0)
    case.check(T.shape[0] <= 120, "dimension", T.shape)
    if n > 200 and case.index % 4 == 0:
        # the documented default
        T0, P0 = KrylovRepresentation(a, {"v": v0}, v0)
        case.equal((T0.shape, P0["v"].shape), ((200, 200), (200,)), "default-dimension")
        T1, P1 = MultiKrylov(a, {"v": v0})
        case.equal((T1["v"].shape, P1["v"]["v"].shape), ((200, 200), (200,)), "default-dimension")
    T12, _ = KrylovRepresentation(a, {}, v0, krylov_space_dim=10)
    try:
        judge(case, a.toarray(), T12, {}, v0, {}, 10, "large-")
    except Skip:
        pass
    case.nontrivial(n, case.index)
    case.obs("large matrices")


def chain(case):
    """Long Krylov spaces that are known exactly: the sites of a chain, in any
    order and up to phases, seen from its end."""
    py, rng = case.py, case.rng
    n = py.choice([py.randrange(20, 200), py.randrange(201, 520), py.randrange(201, 520)])
    # short binary fractions, for which there are no rounding errors (these grow
    # as soon as an eigenstate is found)
    diagonal = rng.integers(-4, 5, size=n) * 0.25
    links = rng.choice([0.5, 1.0, 1.0, 2.0], size=n - 1) * py.choice([0.5, 1.0, 2.0])
    order = rng.permutation(n)
    phases = rng.choice([1, -1, 1j, -1j], size=n) if py.random() < 0.5 else rng.choice([-1.0, 1.0], size=n)
    U = sp.csr_matrix((phases, (order, np.arange(n))), shape=(n, n))
    want = sp.diags([diagonal, links, links], [0, 1, -1], format="csr")
    M = sp.csr_matrix(U @ want @ U.conj().T)
    size = py.choice([1.0, 4.0, 0.125])
    v0 = size * np.asarray(U[:, [0]].todense()).reshape(-1)
    # phases accumulate along the chain: those of the basis vectors are the
    # ones of the sites as the links are positive
    vectors = {"start": v0, 7: rng.normal(size=n), ("x", 1): rng.normal(size=n) + 1j * rng.normal(size=n)}
    request = py.choice([n, n + 5, py.randrange(1, n + 1), max(1, n - 1), 200, 201, 256])
    dim = min(request, n)
    case.note(n=n, request=request)
    results = [KrylovRepresentation(M, vectors, v0, krylov_space_dim=request)]
    if n < 300:
        T, P = MultiKrylov(M, {"start": v0}, krylov_space_dim=request)
        results.append((T["start"], P["start"]))
    for T, P in results:
        case.equal(T.shape, (dim, dim), "chain-shape", (n, request))
        case.close(T, want[:dim, :dim].toarray(), "chain", (n, request), atol=1e-9, rtol=0)
        for key in P:
            x = U.conj().T @ vectors[key]
            case.equal(np.shape(P[key]), (dim,), "chain-vector-shape", key)
            case.close(P[key], x[:dim], "chain-vector", key, atol=1e-9 * (1 + np.linalg.norm(x)), rtol=0)
    case.obs("long Krylov spaces", dim > 200)
    case.nontrivial(n, request)


def weak(case):
    """A starting vector, or a Krylov space, that is nearly invariant."""
    py, rng = case.py, case.rng
    n = py.randrange(2, 8)
    diagonal = rng.uniform(-3, 3, size=n)
    links = rng.uniform(0.4, 1.5, size=n - 1)
    at = py.choice([0, 0, py.randrange(n - 1)])
    links[at] = 10 ** py.uniform(-3.9, -1.7)
    want = np.diag(diagonal) + np.diag(links, 1) + np.diag(links, -1)
    complex_ = py.random() < 0.5
    U = np.eye(n)
    if py.random() < 0.7:
        U, _ = np.linalg.qr(rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if complex_ else 0))
    a = U @ want @ U.conj().T
    a = (a + a.conj().T) / 2
    v0 = U[:, 0] * py.choice([1, 1, 1e-3, 1e4, -2])
    x = rng.normal(size=n) + (1j * rng.normal(size=n) if complex_ else 0)
    request = py.choice([at + 1, at + 2, n, n, n + 3, 200])
    m = min(request, n)
    case.note(n=n, at=at, link=links[at], request=request)
    M = py.choice([np.asarray, np.asfortranarray, sp.csr_matrix])(a)
    T, P = KrylovRepresentation(M, {"x": x, "v": v0}, v0, krylov_space_dim=request)
    case.equal(T.shape, (m, m), "weak-dimension", (n, at, request))
    case.close(T, want[:m, :m], "weak-matrix", atol=1e-8, rtol=0)
    case.close(np.diag(T, 1)[at:at + 1], links[at:at + 1] if m > at + 1 else [], "weak-link", atol=1e-12 / links[at], rtol=1e-7)
    # the basis is known up to the signs chosen by the positive links
    case.close(P["x"], (U.conj().T @ x)[:m] * np.sign(np.vdot(U[:, 0], v0).real), "weak-vector",
               atol=1e-7 * (1 + np.linalg.norm(x)), rtol=0)
    e = np.zeros(m)
    e[0] = np.linalg.norm(v0)
    case.close(P["v"], e, "weak-start", atol=1e-7 * e[0], rtol=0)
    case.obs("nearly invariant spaces")
    case.nontrivial("weak", n, at, case.index)


SECTIONS = [
    Section("weak", weak, 150, 4000),
    Section("single", single, 500, 12000),
    Section("multi", multi, 150, 4000),
    Section("zero", zero, 12, 300),
    Section("large", large, 8, 200),
    Section("chain", chain, 16, 300),
]
