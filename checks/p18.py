"""P18: quantum averages and total spin."""
import functools

import numpy as np
import scipy.sparse as sp

from HamiltonianPy.averages import QuantumAverages, TotalSpinAverages, TotalSpinMatrices
from HamiltonianPy.tools import TotalSpin as tools_total_spin
from HamiltonianPy import IndexTable, SiteID, SpinOperator

from vlib import gen, ref
from vlib import history as past
from vlib.harness import Section

PID = "P18"
RULE = ("systems of 1..9 spins; random, product, singlet, ferromagnetic, basis and eigen-states of any norm, real and "
        "complex; averages compared with dense quadratic forms built from a bit-level definition; non-trivial when the "
        "state is not a basis state")
MUST = {"operator averages": 600, "total spin averages": 500, "total spin matrices": 40, "bounds": 500, "systems of many spins": 6}


def total_spin_function():
    return getattr(tools_total_spin, "TotalSpin", tools_total_spin)


@functools.lru_cache(None)
def total(n):
    """Dense total Sx, Sy, Sz."""
    return tuple(sum(ref.spin_matrix(a, k, n) for k in range(n)) for a in "xyz")


def state(case, dim, spins=None):
    py, rng = case.py, case.rng
    kind = py.choice(["real", "complex", "basis", "int", "product", "ferro", "column"] + (["singlet"] if spins else []))
    if spins is None and kind in ("product", "ferro"):
        kind = "complex"
    if kind == "int":
        dtype = np.dtype(py.choice([np.int64, np.int64, np.int8, np.uint8, np.int16, np.uint16, np.int32, bool]))
        top = {1: 3, 2: 120, 4: 30000, 8: 3}[dtype.itemsize] if py.random() < 0.5 or dtype == bool else 100
        v = rng.integers(-top if dtype.kind == "i" else 0, 2 if dtype == bool else top + 1, size=dim).astype(dtype)
        if dtype.itemsize < 8:
            case.obs("states of short integers")
        if not np.any(v):
            v[0] = 1
        return kind, v
    if kind == "basis":
        v = np.zeros(dim)
        v[py.randrange(dim)] = 1.0
    elif kind in ("product", "ferro"):
        v = np.ones(1)
        one = rng.normal(size=2) + 1j * rng.normal(size=2)
        for _ in range(spins):
            v = np.kron(one, v)
            if kind == "product":
                one = rng.normal(size=2) + 1j * rng.normal(size=2)
    elif kind == "singlet":
        v = np.ones(1)
        pair = np.array([0.0, 1.0, -1.0, 0.0])
        for _ in range(spins // 2):
            v = np.kron(pair, v)
        if spins % 2:
            v = np.kron(np.array([1.0, 0.0]), v)
    else:
        v = rng.normal(size=dim)
        if kind in ("complex", "column"):
            v = v + 1j * rng.normal(size=dim)
        if kind == "column":
            v = v.reshape(-1, 1)
    if py.random() < 0.25:
        # normalised up to a small error
        v = v / np.linalg.norm(v) * (1 + py.choice([-1, 1]) * py.choice([0, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8]))
    else:
        v = v * py.choice([1, 1, 3.0, 1e-3, 1e4, -1.0, 1e-6, 1e-9, 1e-12, 1e-30, 1e9, 1e30])
    if py.random() < 0.3:
        v = v * np.exp(1j * py.uniform(0, 6))
    if py.random() < 0.3:
        v.flags.writeable = False
    return kind, v


def quadratic(O, v):
    v = np.asarray(v, dtype=complex).reshape(-1)
    return np.vdot(v, O @ v) / np.vdot(v, v).real


def averages(case):
    py, rng = case.py, case.rng
    dim = py.choice([1, 2, 3, 5, 8, 16, 40])
    kind, v = state(case, dim)
    hermitian = py.random() < 0.6
    O = gen.random_hermitian(rng, dim, py.random() < 0.5)
    if not hermitian:
        O = O + rng.normal(size=(dim, dim)) * (1 + 1j)
    if py.random() < 0.2:
        O = np.rint(O.real)
    form = py.choice(["csr", "csc", "dense"])
    if py.random() < 0.3 and np.array_equal(O, np.rint(O.real)) and np.abs(O).max() < 100:
        O = O.real.astype(py.choice([np.int8, np.int16, np.int64, float]))
    M = {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "dense": np.array}[form](O)
    case.note(dim=dim, state=kind, form=form, hermitian=hermitian)
    keep = v.copy(), O.copy()
    want = quadratic(O, v)
    for _ in range(2):
        got = QuantumAverages(v, M)
        case.equal(np.shape(got), (), "scalar")
        case.close(got, want, "average", atol=1e-10 * (1 + np.linalg.norm(O)), rtol=1e-10)
        case.close(QuantumAverages(v * 2.5, M), want, "norm", atol=1e-10 * (1 + np.linalg.norm(O)))
        case.close(QuantumAverages(v * 1j, M), want, "phase", atol=1e-10 * (1 + np.linalg.norm(O)))
        case.obs("operator averages")
    case.check(np.array_equal(v, keep[0]) and v.dtype == keep[0].dtype, "input-changed")
    dense = M if isinstance(M, np.ndarray) else M.toarray()
    case.check(np.array_equal(dense, keep[1]), "operator-changed")
    if hermitian:
        w = np.linalg.eigvalsh((O + O.conj().T) / 2)
        slack = 1e-9 * (1 + np.linalg.norm(O))
        if np.allclose(O, O.conj().T):
            case.check(abs(np.imag(got)) <= slack, "real", got)
            case.check(w[0] - slack <= np.real(got) <= w[-1] + slack, "bounds", (got, w))
        case.obs("bounds")
    if kind != "basis":
        case.nontrivial(dim, form, case.index)


def matrices(case):
    n = 1 + case.index % 9
    want = total(n)
    results = []
    for func in (TotalSpinMatrices, total_spin_function()):
        for _ in range(2):
            x, yi, z = func(n)
            mats = [np.asarray(m.toarray()) for m in (x, yi, z)]
            for m in mats:
                case.equal(m.shape, (1 << n, 1 << n), "shape", n)
                case.check(not np.iscomplexobj(m), "real", n)
            case.close(mats[0], want[0], "sx", n, atol=1e-13)
            case.close(1j * mats[1], want[1], "sy", n, atol=1e-13)
            case.close(mats[2], want[2], "sz", n, atol=1e-13)
            results.append(mats)
            # results belong to the caller
            for m in (x, yi, z):
                m.data *= 7
            case.obs("total spin matrices")
    X, Y, Z = mats[0], 1j * mats[1], mats[2]
    if n <= 7:
        case.close(X @ Y - Y @ X, 1j * Z, "algebra", n, atol=1e-11)
        case.close(Y @ Z - Z @ Y, 1j * X, "algebra", n, atol=1e-11)
        case.close(Z @ X - X @ Z, 1j * Y, "algebra", n, atol=1e-11)
        s2 = X @ X + Y @ Y + Z @ Z
        for m in (X, Y, Z):
            case.close(s2 @ m, m @ s2, "casimir", n, atol=1e-10)
        if n <= 6:
            levels = np.linalg.eigvalsh(s2)
            s = (-1 + np.sqrt(1 + 4 * np.maximum(levels, 0))) / 2
            case.close(2 * s, np.rint(2 * s), "spin-values", n, atol=1e-6)
            case.close(s.max(), n / 2, "largest-spin", n, atol=1e-8)
    # the same matrices from the operators of the library
    if n <= 6:
        sites = gen.distinct_sites(case.py, n)
        table = IndexTable([SiteID(s) for s in sites])
        for a, m in zip("xyz", (X, Y, Z)):
            tot = sum(SpinOperator(a, s).matrix_repr(table).toarray() for s in sites)
            case.close(tot, m, "operators", a, atol=1e-13)
    case.nontrivial(n)
    for bad in (0, -1, 1.5, None, "2"):
        for func in (TotalSpinMatrices, total_spin_function(), TotalSpinAverages):
            case.raises((AssertionError, TypeError, ValueError), lambda: func(bad), "refused", bad)


def spin_averages(case):
    py = case.py
    n = 1 + case.index % 9
    calc = TotalSpinAverages(n)
    other = TotalSpinAverages(max(1, n - 1))
    X, Y, Z = total(n)
    for _ in range(6):
        kind, v = state(case, 1 << n, n)
        keep = v.copy()
        case.note(n=n, state=kind)
        flat = np.asarray(v, dtype=complex).reshape(-1)
        flat = flat / np.linalg.norm(flat)
        xv, yv, zv = X @ flat, Y @ flat, Z @ flat
        want = [np.linalg.norm(xv) ** 2 + np.linalg.norm(yv) ** 2 + np.linalg.norm(zv) ** 2,
                np.vdot(flat, xv).real, np.vdot(flat, yv).real, np.vdot(flat, zv).real]
        for use in range(2):
            got = calc(v)
            case.equal(len(got), 4, "length")
            case.close(np.array(got), want, "averages", kind, atol=1e-9)
            other(np.ones(1 << max(1, n - 1)))
            case.obs("total spin averages")
        case.check(np.array_equal(v, keep) and v.dtype == keep.dtype, "input-changed")
        s2, sx, sy, sz = (complex(g).real for g in got)
        top = n / 2
        case.check(-1e-9 <= s2 <= top * (top + 1) + 1e-9, "bounds", (s2, n))
        case.check(sx ** 2 + sy ** 2 + sz ** 2 <= s2 + 1e-9, "bounds", (sx, sy, sz, s2))
        case.check(sx ** 2 + sy ** 2 + sz ** 2 <= top ** 2 + 1e-9, "bounds", (sx, sy, sz))
        case.obs("bounds")
        if kind == "ferro":
            case.close(s2, top * (top + 1), "ferromagnet", n, atol=1e-8)
            case.close(np.sqrt(sx ** 2 + sy ** 2 + sz ** 2), top, "ferromagnet-vector", n, atol=1e-8)
        if kind == "singlet":
            case.close(s2, 0.75 * (n % 2), "singlet", n, atol=1e-9)
        case.close(np.array(calc(v * (0.3 - 2j))), want, "norm-phase", kind, atol=1e-9)
        x, yi, z = TotalSpinMatrices(n)
        case.close([QuantumAverages(flat, x), 1j * QuantumAverages(flat, yi), QuantumAverages(flat, z)], want[1:],
                   "matrices", kind, atol=1e-9)
        if kind != "basis":
            case.nontrivial(n, kind, case.index)


def many_spins(case):
    """More spins than dense matrices allow for: matrix elements by the bits."""
    py, rng = case.py, case.rng
    n = py.randrange(10, 15) if case.tier == "quick" else py.randrange(10, 18)
    v = rng.normal(size=1 << n) + 1j * rng.normal(size=1 << n)
    if py.random() < 0.3:
        # a few basis states
        v[rng.random(1 << n) < 0.99] = 0
    v = v * py.choice([1, 0.1, 30.0])
    case.note(n=n)
    kets = np.arange(1 << n)
    got = TotalSpinMatrices(n) if py.random() < 0.5 else total_spin_function()(n)
    want = [np.zeros(1 << n, dtype=complex) for _ in range(3)]
    for k in range(n):
        up = 1 - 2 * ((kets >> k) & 1)            # a cleared bit is spin up
        flipped = v[kets ^ (1 << k)]
        want[0] += 0.5 * flipped
        want[1] += -0.5j * up * flipped
        want[2] += 0.5 * up * v
    acted = [got[0].dot(v), 1j * got[1].dot(v), got[2].dot(v)]
    for a in range(3):
        case.close(acted[a], want[a], "many-" + "xyz"[a], n, atol=1e-12 * np.linalg.norm(v), rtol=0)
    norm = np.vdot(v, v).real
    averages = [np.vdot(v, w) / norm for w in want]
    res = TotalSpinAverages(n)(v)
    case.close(res[1:], averages, "many-averages", n, atol=1e-10)
    case.close(res[0], sum(np.vdot(w, w).real for w in want) / norm, "many-square", n, atol=1e-9)
    case.close([QuantumAverages(v, got[0]), 1j * QuantumAverages(v, got[1]), QuantumAverages(v, got[2])], averages,
               "many-matrices", n, atol=1e-10)
    case.obs("systems of many spins")
    case.nontrivial(n, case.index)


SECTIONS = [
    past.section(past.averages, quick=14, thorough=280),
    Section("many_spins", many_spins, 6, 60),
    Section("averages", averages, 400, 20000),
    Section("matrices", matrices, 18, 54),
    Section("spin_averages", spin_averages, 63, 1800),
]
