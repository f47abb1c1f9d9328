"""P15: direct Green's functions."""
import numpy as np

from HamiltonianPy import GFSolverExactMultiple, GFSolverExactSingle

from vlib import green
from vlib.harness import Section

PID = "P15"
RULE = ("random Hermitian matrices, lattice fermions and spins with random operators, reference states and energies; "
        "every solved term compared with the sum over eigenstates; non-trivial when the term is not zero")
MUST = {"single terms": 800, "multiple terms": 3000, "dictionaries": 100, "model setups": 60, "non-zero terms": 1000,
        "sharp peaks": 30, "states of unusual norms": 50, "unusual units of energy": 30, "long frequency lists": 4}
ETAS = (0.01, 0.1, 0.5, 2.0, 1e-3, -0.2, 1)


def tolerance(setup, eta, A, B, omega=0.0):
    """Relative to the largest possible value, with the condition of the linear equations."""
    scale = np.linalg.norm(setup.HM) + abs(setup.GE) + abs(omega) + abs(eta)
    return 1e-13 * green.size(setup, A.dagger(), B) / abs(eta) * (1 + scale / abs(eta)) + 1e-300


def any_setup(case):
    """A problem in some unit of energy: (setup, unit)."""
    py = case.py
    setup = green.rescale(case, green.setup(case))
    unit = 10 ** py.uniform(-9, 6) if py.random() < 0.2 else 1
    return green.change_unit(case, setup, unit), unit


def sharp_peak(case, setup, unit, sign):
    """A fine grid around a pole: (frequencies, broadening)."""
    py = case.py
    pole = py.choice(list(setup.E)) - setup.GE
    eta = 10.0 ** -py.randrange(4, 10)
    grid = py.choice([0.1, 0.3, 1]) * eta * np.array([py.randrange(-3, 4) for _ in range(py.randrange(2, 7))])
    case.obs("sharp peaks")
    return (-pole if sign == "+" else pole) + grid * unit, eta * unit


def refilled(case, setup, A, B, omega, eta, sign, want, tol, unit):
    """The same arrays and dictionary again, filled with other values."""
    HM = np.array(setup.HM, dtype=np.result_type(setup.HM, float))
    states = {k: np.array(v) for k, v in setup.states.items()}
    omegas = np.array([omega])

    def ask():
        return [GFSolverExactSingle(omega, A, B, setup.GE, HM, states, eta=eta, sign=sign),
                GFSolverExactMultiple(omegas, [A], [B], setup.GE, HM, states, eta=eta, sign=sign)[0, 0, 0]]

    case.close(ask(), [want] * 2, "refilled-before", atol=tol, rtol=1e-9)
    shift = case.py.choice([0.5, -1.25, 3]) * unit
    tol *= 5
    HM += shift * np.identity(len(HM))
    want = setup.part(A, B, omega + 1j * eta + (shift if sign == "+" else -shift), sign == "+")
    case.close(ask(), [want] * 2, "refilled-hamiltonian", shift, atol=tol, rtol=1e-9)
    states[B] *= 2
    want *= 4 if B == A.dagger() else 2
    case.close(ask(), [want] * 2, "refilled-states", atol=4 * tol, rtol=1e-9)
    states[A.dagger()] = -states[A.dagger()]
    want *= 1 if B == A.dagger() else -1
    case.close(ask(), [want] * 2, "replaced-states", atol=4 * tol, rtol=1e-9)
    case.obs("refilled arguments")


def single(case):
    py = case.py
    setup, unit = any_setup(case)
    if setup.kind != "random":
        case.obs("model setups")
    before = [green.snapshot(x) for x in (setup.HM, setup.states)]
    for _ in range(8):
        A, B = py.choice(setup.ops), py.choice(setup.ops)
        omega = float(green.frequencies(case, 1)[0]) * unit
        eta = py.choice(ETAS) * unit
        sign = py.choice("+-")
        case.note(kind=setup.kind, dim=len(setup.gs), A=A, B=B, omega=omega, eta=eta, sign=sign, GE=setup.GE)
        z = omega + 1j * eta
        want = setup.part(A, B, z, sign == "+")
        got = GFSolverExactSingle(omega, A, B, setup.GE, setup.HM, setup.states, eta=eta, sign=sign)
        tol = tolerance(setup, eta, A, B, omega)
        case.close(got, want, "spectral-sum", atol=tol, rtol=1e-9)
        if py.random() < 0.2:
            got = GFSolverExactSingle(omega, A, B, setup.GE, setup.HM, setup.states)
            case.close(got, setup.part(A, B, omega + 0.01j, True), "defaults",
                       atol=tolerance(setup, 0.01, A, B, omega), rtol=1e-9)
        # a smaller dictionary with exactly the documented states
        small = {B: setup.states[B], A.dagger(): setup.states[A.dagger()]}
        got = GFSolverExactSingle(omega, A, B, setup.GE, setup.HM, small, eta=eta, sign=sign)
        case.close(got, want, "documented-states", atol=tol, rtol=1e-9)
        if py.random() < 0.5:
            refilled(case, setup, A, B, omega, eta, sign, want, tol, unit)
        case.obs("single terms")
        if abs(want) > 1e-9 * green.size(setup, A.dagger(), B) / abs(eta):
            case.nontrivial(setup.kind, len(setup.gs), sign, omega, eta, case.index)
            case.obs("non-zero terms")
    case.check(all(green.unchanged(a, b) for a, b in zip((setup.HM, setup.states), before)), "inputs-changed")


def multiple(case):
    py = case.py
    setup, unit = any_setup(case)
    if setup.kind != "random":
        case.obs("model setups")
    for v in setup.states.values():
        v.flags.writeable = False
    for _ in range(2):
        As, Bs = green.operator_lists(case, setup.ops)
        eta, sign = py.choice(ETAS) * unit, py.choice("+-")
        omegas = green.frequencies(case, py.randrange(1, 6)) * unit
        if py.random() < 0.06:
            As, Bs, omegas = As[:2], Bs[:2], green.frequencies(case, green.many(case)) * unit
        if py.random() < 0.2:
            omegas, eta = sharp_peak(case, setup, unit, sign)
        omegas.flags.writeable = False
        case.note(kind=setup.kind, dim=len(setup.gs), As=As, Bs=Bs, omegas=omegas, eta=eta, sign=sign)
        before = [green.snapshot(x) for x in (setup.HM, setup.states, As, Bs, omegas)]
        arr = GFSolverExactMultiple(omegas, As, Bs, setup.GE, setup.HM, setup.states, eta=eta, sign=sign)
        dic = GFSolverExactMultiple(omegas, tuple(As), tuple(Bs), setup.GE, setup.HM, setup.states,
                                    eta=eta, sign=sign, structure="dict")
        arr2 = GFSolverExactMultiple(omegas, As, Bs, setup.GE, setup.HM, setup.states, eta=eta, sign=sign,
                                     structure="array")
        case.check(isinstance(arr, np.ndarray) and isinstance(dic, dict), "structure", (type(arr), type(dic)))
        case.equal(arr.shape, (len(As), len(Bs), len(omegas)), "shape")
        case.equal(set(dic), {(A, B) for A in As for B in Bs}, "keys")
        tols = [[tolerance(setup, eta, A, B, np.max(np.abs(omegas))) for B in Bs] for A in As]
        for i in range(len(As)):
            for j in range(len(Bs)):
                case.close(arr2[i, j], arr[i, j], "structures", atol=tols[i][j], rtol=1e-9)
        for i, A in enumerate(As):
            for j, B in enumerate(Bs):
                case.equal(np.shape(dic[A, B]), (len(omegas),), "dict-shape")
                tol = tols[i][j]
                size = green.size(setup, A.dagger(), B)
                for k, omega in enumerate(omegas):
                    want = setup.part(A, B, omega + 1j * eta, sign == "+")
                    case.close(arr[i, j, k], want, "spectral-sum", (i, j, k), atol=tol, rtol=1e-9)
                    case.close(dic[A, B][k], want, "spectral-sum-dict", (A, B, k), atol=tol, rtol=1e-9)
                    case.obs("multiple terms")
                    if abs(want) > 1e-9 * size / abs(eta):
                        case.obs("non-zero terms")
                        case.nontrivial(setup.kind, len(setup.gs), sign, i, j, k, case.index)
        one = GFSolverExactSingle(omegas[0], As[0], Bs[0], setup.GE, setup.HM, setup.states, eta=eta, sign=sign)
        case.close(arr[0, 0, 0], one, "single-multiple", atol=tols[0][0], rtol=1e-9)
        case.obs("dictionaries")
        case.check(all(green.unchanged(a, b) for a, b in
                       zip((setup.HM, setup.states, As, Bs, omegas), before)), "inputs-changed")
        if py.random() < 0.3:
            got = GFSolverExactMultiple(omegas, As, Bs, setup.GE, setup.HM, setup.states)
            want = setup.part(As[-1], Bs[-1], omegas[-1] + 0.01j, True)
            case.close(got[-1, -1, -1], want, "defaults",
                       atol=tolerance(setup, 0.01, As[-1], Bs[-1], omegas[-1]), rtol=1e-9)
        # results belong to the caller
        arr *= 0
        for v in dic.values():
            v *= 0
        again = GFSolverExactMultiple(omegas, As, Bs, setup.GE, setup.HM, setup.states, eta=eta, sign=sign)
        for i in range(len(As)):
            for j in range(len(Bs)):
                case.close(again[i, j], arr2[i, j], "again", atol=tols[i][j], rtol=1e-9)


SECTIONS = [
    Section("single", single, 150, 6000),
    Section("multiple", multiple, 150, 6000),
]
