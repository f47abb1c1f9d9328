"""P16: Lanczos Green's functions."""
import numpy as np

from HamiltonianPy import (GFSolverExactMultiple, GFSolverLanczosMultiple, GFSolverLanczosSingle, KrylovRepresentation,
                           MultiKrylov)

from vlib import green
from vlib.harness import Section, Skip

PID = "P16"
RULE = ("random Hermitian matrices, lattice fermions and spins; the real projections of the real Lanczos code feed the "
        "real solvers, which are compared with spectral sums (complete spaces) and with resolvents in a reorthogonalised "
        "Krylov basis (truncated spaces); non-trivial when the term is not zero")
ASSUMPTIONS = [
    "Krylov spaces of at most 14 dimensions whose exact residuals are not between 1e-9 and 2% of the norm of the matrix",
]
MUST = {"terms": 2000, "complete spaces": 400, "truncated spaces": 200, "single terms": 400, "dictionaries": 60,
        "non-zero terms": 1000, "states of unusual norms": 60, "long frequency lists": 4}
ETAS = (0.05, 0.1, 0.5, 2.0, -0.3)


def project(case, setup, Bs, dim):
    """Projections with the real code for all starting vectors in Bs."""
    if all(np.linalg.norm(setup.states[o]) > 2e-4 for o in setup.ops) and case.py.random() < 0.5:
        return MultiKrylov(setup.HM, setup.states, krylov_space_dim=dim)
    matrices, vectors = {}, {}
    for B in Bs:
        if B not in matrices:
            matrices[B], vectors[B] = KrylovRepresentation(setup.HM, setup.states, setup.states[B], krylov_space_dim=dim)
    return matrices, vectors


def usable(setup):
    return [o for o in setup.ops if np.linalg.norm(setup.states[o]) > 2e-4]


def tolerance(setup, eta, A, B, omega=0.0):
    """Relative to the largest possible value."""
    scale = np.linalg.norm(setup.HM) + abs(setup.GE) + abs(omega) + abs(eta)
    return 1e-8 * green.size(setup, A.dagger(), B) / abs(eta) * (1 + scale / abs(eta)) + 1e-300


def run(case):
    py = case.py
    setup = green.rescale(case, green.setup(case), -2.5, 4)
    starts = usable(setup)
    if not starts:
        raise Skip("every operator annihilates the state")
    As = [py.choice(setup.ops) for _ in range(py.randrange(1, 4))]
    Bs = [py.choice(starts) for _ in range(py.randrange(1, 4))]
    dim = py.choice([1, 2, 3, 5, 8, 200, 200])
    eta, sign = py.choice(ETAS), py.choice("+-")
    omegas = green.frequencies(case, py.randrange(1, 5))
    if py.random() < 0.03:
        As, Bs, omegas = As[:1], Bs[:1], green.frequencies(case, green.many(case))
    case.note(kind=setup.kind, n=len(setup.gs), As=As, Bs=Bs, dim=dim, eta=eta, sign=sign, omegas=omegas)
    # the reference first: it decides whether the case can be judged
    want = np.zeros((len(As), len(Bs), len(omegas)), dtype=complex)
    complete = {}
    for i, A in enumerate(As):
        for j, B in enumerate(Bs):
            for k, w in enumerate(omegas):
                want[i, j, k], complete[j] = setup.projected(A, B, w + 1j * eta, sign == "+", dim)
                if complete[j]:
                    full = setup.part(A, B, w + 1j * eta, sign == "+")
                    case.close(want[i, j, k], full, "reference", atol=tolerance(setup, eta, A, B, w), rtol=1e-6)
                    want[i, j, k] = full
    matrices, vectors = project(case, setup, Bs, dim)
    before = [green.snapshot(x) for x in (matrices, vectors, As, Bs, omegas)]
    far = np.max(np.abs(omegas))
    tols = [[tolerance(setup, eta, A, B, far) for B in Bs] for A in As]
    arr = GFSolverLanczosMultiple(omegas, As, Bs, setup.GE, matrices, vectors, eta=eta, sign=sign)
    dic = GFSolverLanczosMultiple(omegas, As, Bs, setup.GE, matrices, vectors, eta=eta, sign=sign, structure="dict")
    arr2 = GFSolverLanczosMultiple(omegas, tuple(As), tuple(Bs), setup.GE, matrices, vectors, eta=eta, sign=sign,
                                   structure="array")
    case.equal(arr.shape, want.shape, "shape")
    case.equal(set(dic), {(A, B) for A in As for B in Bs}, "keys")
    for i, A in enumerate(As):
        for j, B in enumerate(Bs):
            tol = tols[i][j]
            case.close(arr[i, j], want[i, j], "array", (A, B), atol=tol, rtol=2e-9)
            case.close(arr2[i, j], arr[i, j], "structures", (A, B), atol=1e-6 * tol, rtol=1e-9)
            case.close(dic[A, B], want[i, j], "dictionary", (A, B), atol=tol, rtol=2e-9)
            case.obs("complete spaces" if complete[j] else "truncated spaces")
            for k, w in enumerate(omegas):
                got = GFSolverLanczosSingle(w, A, B, setup.GE, matrices, vectors, eta=eta, sign=sign)
                case.close(got, want[i, j, k], "single", (i, j, k), atol=tol, rtol=2e-9)
                case.obs("single terms")
                case.obs("terms", 3)
                if abs(want[i, j, k]) > 1e-9 * green.size(setup, A.dagger(), B) / abs(eta):
                    case.obs("non-zero terms")
                    case.nontrivial(setup.kind, len(setup.gs), dim, sign, i, j, k, case.index)
    case.obs("dictionaries")
    # exactly the documented projections
    A, B = As[-1], Bs[-1]
    tol = 5 * tols[-1][-1]
    # the same arrays and dictionaries, filled with other values
    own_m = {k: np.array(v) for k, v in matrices.items()}
    own_v = {k: {x: np.array(y) for x, y in v.items()} for k, v in vectors.items()}

    def ask():
        return [GFSolverLanczosSingle(omegas[-1], A, B, setup.GE, own_m, own_v, eta=eta, sign=sign),
                GFSolverLanczosMultiple(omegas[-1:], [A], [B], setup.GE, own_m, own_v, eta=eta, sign=sign)[0, 0, 0]]

    case.close(ask(), [want[-1, -1, -1]] * 2, "refilled-before", atol=tol, rtol=2e-9)
    shift = py.choice([0.5, -1.25, 3])
    own_m[B] += shift * np.identity(len(own_m[B]))
    moved, _ = setup.projected(A, B, omegas[-1] + 1j * eta + (shift if sign == "+" else -shift), sign == "+", dim)
    case.close(ask(), [moved] * 2, "refilled-matrix", shift, atol=tol, rtol=2e-9)
    own_v[B][A.dagger()] *= 2
    moved *= 4 if A.dagger() == B else 2
    case.close(ask(), [moved] * 2, "refilled-vectors", atol=4 * tol, rtol=2e-9)
    case.obs("refilled arguments")
    small_m = {B: matrices[B]}
    small_v = {B: {B: vectors[B][B], A.dagger(): vectors[B][A.dagger()]}}
    got = GFSolverLanczosSingle(omegas[-1], A, B, setup.GE, small_m, small_v, eta=eta, sign=sign)
    case.close(got, want[-1, -1, -1], "documented-projections", atol=tol, rtol=2e-9)
    if dim == 200 and all(complete.values()):
        exact = GFSolverExactMultiple(omegas, As, Bs, setup.GE, setup.HM, setup.states, eta=eta, sign=sign)
        for i in range(len(As)):
            for j in range(len(Bs)):
                case.close(arr[i, j], exact[i, j], "direct", atol=tols[i][j], rtol=1e-6)
    got = GFSolverLanczosMultiple(omegas, As, Bs, setup.GE, matrices, vectors)
    one = GFSolverLanczosSingle(omegas[0], As[0], Bs[0], setup.GE, matrices, vectors)
    ref, _ = setup.projected(As[0], Bs[0], omegas[0] + 0.01j, True, dim)
    case.close([got[0, 0, 0], one], [ref, ref], "defaults", atol=tolerance(setup, 0.01, As[0], Bs[0], omegas[0]), rtol=1e-5)
    case.check(all(green.unchanged(a, b) for a, b in zip((matrices, vectors, As, Bs, omegas), before)), "inputs-changed")
    arr *= 0
    again = GFSolverLanczosMultiple(omegas, As, Bs, setup.GE, matrices, vectors, eta=eta, sign=sign)
    for i in range(len(As)):
        for j in range(len(Bs)):
            case.close(again[i, j], arr2[i, j], "again", atol=1e-6 * tols[i][j], rtol=1e-9)


SECTIONS = [
    Section("run", run, 500, 15000),
]
