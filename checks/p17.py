"""P17: retarded Green's functions."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import (KrylovRepresentation, RGFSolverExactMultiple, RGFSolverExactSingle, RGFSolverLanczosMultiple,
                           RGFSolverLanczosSingle, GFSolverLanczosSingle)

from vlib import green
from vlib.harness import Section, Skip

PID = "P17"
RULE = ("random Hermitian matrices, lattice fermions and spins; direct and Lanczos retarded functions of random operator "
        "lists compared with the two spectral sums; causality, sum rule and the resolvent of the hopping matrix checked "
        "on fermion models; non-trivial when both parts are not zero")
ASSUMPTIONS = [
    "Lanczos part: Krylov spaces of at most 14 dimensions whose exact residuals are not between 1e-9 and 2% of the norm",
]
MUST = {"direct terms": 3000, "lanczos terms": 1000, "causality": 800, "sum rules": 300, "free resolvents": 400,
        "two-part terms": 1000, "states of unusual norms": 60,
        "unusual units of energy": 15, "long frequency lists": 4}
ETAS = (0.02, 0.1, 0.5, 2.0)
ANY_ETAS = ETAS[1:] + (-0.4, 1)


def expected(setup, A, B, z, sign):
    first = setup.part(A, B, z, False)
    second = setup.part(B, A, z, True)
    return (first + second if sign == "+" else first - second), first, second


def tolerance(setup, eta, A, B, omega=0.0, base=1e-13):
    """Relative to the largest possible value of either part."""
    scale = np.linalg.norm(setup.HM) + abs(setup.GE) + abs(omega) + abs(eta)
    size = green.size(setup, A.dagger(), B) + green.size(setup, B.dagger(), A)
    return base * size / abs(eta) * (1 + scale / abs(eta)) + 1e-300


def compare(case, setup, As, Bs, omegas, eta, sign, arr, dic, single, base, name):
    case.equal(arr.shape, (len(As), len(Bs), len(omegas)), name + "-shape")
    case.equal(set(dic), {(A, B) for A in As for B in Bs}, name + "-keys")
    for i, A in enumerate(As):
        for j, B in enumerate(Bs):
            case.equal(np.shape(dic[A, B]), (len(omegas),), name + "-dict-shape")
            for k, w in enumerate(omegas):
                tol = tolerance(setup, eta, A, B, w, base)
                want, first, second = expected(setup, A, B, w + 1j * eta, sign)
                case.close(arr[i, j, k], want, name + "-array", (A, B, w), atol=tol, rtol=2e-9 if base < 1e-12 else 1e-6)
                case.close(dic[A, B][k], want, name + "-dictionary", (A, B, w), atol=tol, rtol=2e-9 if base < 1e-12 else 1e-6)
                case.close(single(w, A, B), want, name + "-single", (A, B, w), atol=tol, rtol=2e-9 if base < 1e-12 else 1e-6)
                case.obs(name + " terms", 3)
                size = green.size(setup, A.dagger(), B, B.dagger(), A) ** 0.5 / abs(eta)
                if min(abs(first), abs(second)) > 1e-6 * size > 0:
                    case.obs("two-part terms")
                    case.nontrivial(setup.kind, len(setup.gs), sign, i, j, k, case.index)


def direct(case):
    py = case.py
    unit = 10 ** py.uniform(-9, 6) if py.random() < 0.2 else 1
    setup = green.change_unit(case, green.rescale(case, green.setup(case)), unit)
    As, Bs = green.operator_lists(case, setup.ops)
    omegas = green.frequencies(case, py.randrange(1, 5)) * unit
    if py.random() < 0.06:
        As, Bs, omegas = As[:2], Bs[:2], green.frequencies(case, green.many(case)) * unit
    eta, sign = py.choice(ETAS[:1] + ANY_ETAS) * unit, py.choice("+-")
    case.note(kind=setup.kind, n=len(setup.gs), As=As, Bs=Bs, omegas=omegas, eta=eta, sign=sign)
    args = (As, Bs, setup.GE, setup.HM, setup.states)
    before = [green.snapshot(x) for x in (*args, omegas)]
    arr = RGFSolverExactMultiple(omegas, *args, eta=eta, sign=sign)
    dic = RGFSolverExactMultiple(omegas, *args, eta=eta, sign=sign, structure="dict")

    def single(w, A, B):
        return RGFSolverExactSingle(w, A, B, setup.GE, setup.HM, setup.states, eta=eta, sign=sign)
    compare(case, setup, As, Bs, omegas, eta, sign, arr, dic, single, 1e-13, "direct")
    tol = tolerance(setup, 0.01, As[0], Bs[0], omegas[0])
    want, *_ = expected(setup, As[0], Bs[0], omegas[0] + 0.01j, "+")
    case.close(RGFSolverExactMultiple(omegas, *args)[0, 0, 0], want, "defaults", atol=tol, rtol=2e-9)
    case.close(RGFSolverExactSingle(omegas[0], As[0], Bs[0], *args[2:]), want, "defaults", atol=tol, rtol=2e-9)
    case.check(all(green.unchanged(a, b) for a, b in zip((*args, omegas), before)), "inputs-changed")


def lanczos(case):
    py = case.py
    setup = green.rescale(case, green.setup(case), -2.5, 4)
    usable = [o for o in setup.ops if np.linalg.norm(setup.states[o]) > 2e-4]
    if not usable:
        raise Skip("every operator annihilates the state")
    As, Bs = green.operator_lists(case, usable, py.choice([3, 3, 5]))
    omegas = green.frequencies(case, py.randrange(1, 4))
    if py.random() < 0.04:
        As, Bs, omegas = As[:1], Bs[:1], green.frequencies(case, green.many(case))
    eta, sign = py.choice(ANY_ETAS), py.choice("+-")
    case.note(kind=setup.kind, n=len(setup.gs), As=As, Bs=Bs, omegas=omegas, eta=eta, sign=sign)
    matrices, vectors = {}, {}
    for o in dict.fromkeys(As + Bs):
        _, exhausted = setup.projected(o, o, 1j, True, 14)
        if not exhausted:
            raise Skip("too large")
        matrices[o], vectors[o] = KrylovRepresentation(setup.HM, setup.states, setup.states[o])
    args = (As, Bs, setup.GE, matrices, vectors)
    before = [green.snapshot(x) for x in (*args, omegas)]
    arr = RGFSolverLanczosMultiple(omegas, *args, eta=eta, sign=sign)
    dic = RGFSolverLanczosMultiple(omegas, *args, eta=eta, sign=sign, structure="dict")

    def single(w, A, B):
        return RGFSolverLanczosSingle(w, A, B, setup.GE, matrices, vectors, eta=eta, sign=sign)
    compare(case, setup, As, Bs, omegas, eta, sign, arr, dic, single, 1e-8, "lanczos")
    # the combination itself is exact, whatever the projection is like
    for _ in range(6):
        i, j, k = py.randrange(len(As)), py.randrange(len(Bs)), py.randrange(len(omegas))
        A, B, w = As[i], Bs[j], omegas[k]
        parts = [GFSolverLanczosSingle(w, A, B, setup.GE, matrices, vectors, eta=eta, sign="-"),
                 GFSolverLanczosSingle(w, B, A, setup.GE, matrices, vectors, eta=eta, sign="+")]
        want = parts[0] + parts[1] if sign == "+" else parts[0] - parts[1]
        case.close([arr[i, j, k], dic[A, B][k], single(w, A, B)], [want] * 3, "lanczos-combination", (A, B, w),
                   atol=tolerance(setup, eta, A, B, w), rtol=2e-9)
    want, *_ = expected(setup, As[0], Bs[0], omegas[0] + 0.01j, "+")
    tol = tolerance(setup, 0.01, As[0], Bs[0], omegas[0], 1e-8)
    case.close(RGFSolverLanczosMultiple(omegas, *args)[0, 0, 0], want, "defaults", atol=tol, rtol=1e-5)
    case.close(RGFSolverLanczosSingle(omegas[0], As[0], Bs[0], *args[2:]), want, "defaults", atol=tol, rtol=1e-5)
    case.check(all(green.unchanged(a, b) for a, b in zip((*args, omegas), before)), "inputs-changed")


def causal(case):
    """Fermionic models: positivity, sum rule, free resolvent."""
    py, rng = case.py, case.rng
    setup = green.fermion_setup(case)
    n = setup.n
    if setup.GE > setup.E[0] + 1e-9 and setup.interacting:
        pass                    # positivity needs only that GS is an eigenstate
    As = [setup.aoc(k, HP.ANNIHILATION) for k in range(n)]
    Bs = [a.dagger() for a in As]
    omegas = np.array([py.uniform(-4, 4) for _ in range(5)])
    eta = py.choice(ETAS)
    case.note(n=n, interacting=setup.interacting, eta=eta)
    G = RGFSolverExactMultiple(omegas, As, Bs, setup.GE, setup.HM, setup.states, eta=eta, sign="+")
    case.equal(G.shape, (n, n, 5), "shape")
    for k, w in enumerate(omegas):
        spectral = -(G[:, :, k] - G[:, :, k].conj().T) / 2j / np.pi
        low = np.linalg.eigvalsh((spectral + spectral.conj().T) / 2)
        case.check(low[0] >= -1e-9 * (1 + 1 / eta), "causality", (low, w, eta))
        case.check(np.all(np.imag(np.diag(G[:, :, k])) <= 1e-12), "causality-diagonal", (k, w))
        case.obs("causality")
        if not setup.interacting:
            want = np.linalg.inv((w + 1j * eta) * np.eye(n) - setup.hopping)
            case.close(G[:, :, k], want, "free-resolvent", (w, eta), atol=1e-8 * (1 + 1 / eta ** 2), rtol=1e-8)
            case.obs("free resolvents")
            x = py.randrange(n)
            y = py.randrange(n)
            one = RGFSolverExactSingle(w, As[x], Bs[y], setup.GE, setup.HM, setup.states, eta=eta)
            case.close(one, want[x, y], "free-resolvent-single", (x, y), atol=1e-8 * (1 + 1 / eta ** 2), rtol=1e-8)
    # sum rule: z G -> <{A, B}> far away from the spectrum
    big = 1e7
    far = RGFSolverExactMultiple(np.array([0.0, 3.0]), As, Bs, setup.GE, setup.HM, setup.states, eta=big)
    bound = 1e-6 * (1 + np.linalg.norm(setup.HM, 2))
    case.close(1j * big * far[:, :, 0], np.eye(n), "sum-rule", atol=bound, rtol=0)
    case.close((3.0 + 1j * big) * far[:, :, 1], np.eye(n), "sum-rule", atol=bound, rtol=0)
    bos = RGFSolverExactMultiple(np.array([0.0]), As, Bs, setup.GE, setup.HM, setup.states, eta=big, sign="-")
    dens = np.array([[np.vdot(setup.states[As[i]], setup.states[As[j]]) for j in range(n)] for i in range(n)])
    # <[c_i, c_j^+]> = delta_ij - 2 <c_j^+ c_i>
    case.close(1j * big * bos[:, :, 0], np.eye(n) - 2 * dens.T, "commutator-rule", atol=bound, rtol=0)
    case.obs("sum rules", 3)
    case.nontrivial(n, setup.interacting, eta, case.index)


SECTIONS = [
    Section("direct", direct, 150, 5000),
    Section("lanczos", lanczos, 200, 6000),
    Section("causal", causal, 200, 6000),
]
