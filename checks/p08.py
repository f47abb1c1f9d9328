"""P08: spin operator matrices."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import IndexTable, SiteID, SpinOperator
from HamiltonianPy.quantumoperator import constant

from vlib import gen, ref
from vlib import history as past
from vlib.harness import Section

PID = "P08"
RULE = ("every (type, site) operator of random spin systems of 1..7 spins in random numberings compared entry by "
        "entry with a bit-level reference, all commutators of all pairs, adjoints, copies; non-trivial when the "
        "system has at least two spins")
MUST = {"operator matrices": 400, "commutators": 1500, "copies changed": 100}
TYPES = ("x", "y", "z", "p", "m")


def make(case, n):
    sites = gen.distinct_sites(case.py, n)
    table = IndexTable([SiteID(gen.as_container(case.py, s)) for s in sites])
    return sites, table


def operators(case):
    py = case.py
    n = py.randrange(1, 6) if case.tier == "quick" else py.randrange(1, 7)
    sites, table = make(case, n)
    case.note(n=n, sites=sites)
    mats = {}
    for k, s in enumerate(sites):
        for a in TYPES:
            op = SpinOperator(a, gen.noisy_container(py, s))
            m = op.matrix_repr(table)
            case.equal(m.shape, (1 << n, 1 << n), "shape")
            got = np.asarray(m.toarray())
            case.close(got, ref.spin_matrix(a, k, n), "matrix", "S{0} on {1} of {2}".format(a, k, n), atol=1e-15)
            static = SpinOperator.matrix_function((k, a), n)
            case.close(static.toarray(), got, "matrix-function", (k, a, n), atol=0, rtol=0)
            case.close(op.dagger().matrix_repr(table).toarray(), got.conj().T, "adjoint", a, atol=1e-15)
            case.equal(op.getSiteIndex(table), k, "site-index")
            case.close(op.matrix(), ref.spin_matrix(a, 0, 1), "single", a, atol=1e-15)
            mats[k, a] = got
            case.obs("operator matrices")
    # algebra observed on the matrices
    cyc = [("x", "y", "z"), ("y", "z", "x"), ("z", "x", "y")]
    for k in range(n):
        for a, b, c in cyc:
            comm = mats[k, a] @ mats[k, b] - mats[k, b] @ mats[k, a]
            case.close(comm, 1j * mats[k, c], "commutator", (a, b, k), atol=1e-14)
            case.obs("commutators")
        case.close(mats[k, "p"], mats[k, "x"] + 1j * mats[k, "y"], "ladder", k, atol=1e-14)
        case.close(mats[k, "m"], mats[k, "x"] - 1j * mats[k, "y"], "ladder", k, atol=1e-14)
        case.close(sum(mats[k, a] @ mats[k, a] for a in "xyz"), 0.75 * np.eye(1 << n), "casimir", k, atol=1e-14)
    for k, l in itertools.combinations(range(n), 2):
        for a, b in itertools.product(TYPES, repeat=2):
            case.close(mats[k, a] @ mats[l, b], mats[l, b] @ mats[k, a], "locality", (k, a, l, b), atol=1e-14)
            case.obs("commutators")
    if n > 1:
        case.nontrivial(sites)


def large(case):
    n = case.py.choice([10, 11, 13, 17] if case.tier == "quick" else [14, 16, 17, 18])
    if case.index % 4 == 1:
        n = 17
    sites, table = make(case, n)
    k = n - 1 if case.index % 2 else case.index % n
    case.note(n=n, site=k)
    for a in TYPES:
        m = SpinOperator(a, sites[k]).matrix_repr(table)
        ket = np.arange(1 << n)
        bit = (ket >> k) & 1
        want_rows, want_vals = ket.copy(), np.zeros(1 << n, dtype=complex)
        for (row, col), value in ref.SPIN[a].items():
            sel = bit == col
            want_vals[sel] = value
            want_rows[sel] = (ket[sel] & ~(1 << k)) | (row << k)
        rng = case.rng
        for _ in range(2):
            v = rng.normal(size=1 << n) + 1j * rng.normal(size=1 << n)
            want = np.zeros(1 << n, dtype=complex)
            np.add.at(want, want_rows, want_vals * v)
            case.close(m.dot(v), want, "action", (a, k, n), atol=1e-13)
        case.obs("operator matrices")
    case.nontrivial(sites, k)


def copies(case):
    """Everything handed out is a copy: changing it changes nothing else."""
    py = case.py
    n = py.randrange(1, 5)
    sites, table = make(case, n)
    a = py.choice(TYPES)
    k = py.randrange(n)
    case.note(type=a, site=k, n=n)
    op = SpinOperator(a, sites[k])
    twin = SpinOperator(a, sites[k])
    want = ref.spin_matrix(a, k, n)
    single = ref.spin_matrix(a, 0, 1)
    for _ in range(3):
        m = op.matrix()
        case.close(m, single, "copy", a, atol=0)
        m[:] = py.uniform(1, 9)
        big = op.matrix_repr(table)
        case.close(big.toarray(), want, "copy", a, atol=0)
        big.data[:] = 5
        big2 = SpinOperator.matrix_function((k, a), n)
        case.close(big2.toarray(), want, "copy", a, atol=0)
        big2.data[:] = -3
        case.obs("copies changed", 3)
    case.close(twin.matrix(), single, "copy", a, atol=0)
    case.close(twin.matrix_repr(table).toarray(), want, "copy", a, atol=0)
    s = op.site
    s[...] = 77
    case.close(op.matrix_repr(table).toarray(), want, "copy", a, atol=0)
    # the same operator in another numbering
    order = py.sample(sites, n)
    other = IndexTable([SiteID(x) for x in order])
    case.close(op.matrix_repr(other).toarray(), ref.spin_matrix(a, order.index(sites[k]), n), "renumbered", a, atol=1e-15)
    case.close(op.matrix_repr(table).toarray(), want, "renumbered", a, atol=1e-15)
    case.nontrivial(a, k, n, sites)
    published(case)


def published(case):
    """The published constants."""
    for a in TYPES:
        S = constant.SPIN_MATRICES[a]
        P = constant.SIGMA_MATRICES[a]
        case.close(S, ref.spin_matrix(a, 0, 1), "published", a, atol=0)
        case.close(2 * np.asarray(S), P, "published", a, atol=0)
        case.close(HP.SPIN_MATRICES[a], S, "published", a, atol=0)
        case.close(HP.SIGMA_MATRICES[a], P, "published", a, atol=0)
        case.close(getattr(HP, "SPIN_" + a.upper()), S, "published", a, atol=0)
        case.close(getattr(HP, "SIGMA_" + a.upper()), P, "published", a, atol=0)
        case.obs("operator matrices")


def refused(case):
    py = case.py
    E = (AssertionError, ValueError, TypeError, KeyError)
    bad = py.choice(["X", "", "pm", "+", None, 0, "s"])
    case.note(bad=bad)
    case.raises(E, lambda: SpinOperator(bad, (0, 0)), "otype", bad)
    sites, table = make(case, 3)
    outside = tuple(x + 1000.0 for x in sites[0])
    case.raises(E, lambda: SpinOperator("x", outside).matrix_repr(table), "foreign-site")
    case.nontrivial(bad, sites)


SECTIONS = [
    past.section(past.spin_operator, quick=14, thorough=280),
    Section("operators", operators, 50, 600),
    Section("large", large, 10, 14),
    Section("copies", copies, 80, 1500),
    Section("refused", refused, 20, 100),
]
