"""Workloads and reference formulas for Green's functions."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, IndexTable, SiteID, SpinOperator, StateID

from vlib import gen
from vlib.harness import Skip
from vlib.krylov import reference


class Op:
    """A stand-in for an operator: hashable and with an adjoint."""

    def __init__(self, name, conj=False):
        self.name, self.conj = name, conj

    def dagger(self):
        return Op(self.name, not self.conj)

    def __hash__(self):
        return hash((self.name, self.conj))

    def __eq__(self, other):
        return isinstance(other, Op) and (self.name, self.conj) == (other.name, other.conj)

    def __repr__(self):
        return self.name + ("+" if self.conj else "")


class Setup:
    """HM, GE, the ground state, operators and their matrices."""

    kind = None

    def __init__(self, HM, GE, gs, ops, matrices):
        self.HM = HM
        self.GE = GE
        self.gs = gs
        self.ops = ops                  # closed under the adjoint
        self.matrices = matrices        # op -> dense matrix, from an independent definition
        self.states = {op: matrices[op] @ gs for op in ops}
        self.E, self.V = np.linalg.eigh(HM)

    def part(self, A, B, z, plus):
        """<GS| A (z +/- (H - GE))^-1 B |GS> by its spectral sum."""
        left = self.V.conj().T @ self.states[A.dagger()]
        right = self.V.conj().T @ self.states[B]
        x = self.E - self.GE
        return np.sum(left.conj() * right / (z + x if plus else z - x))

    def projected(self, A, B, z, plus, dim):
        """The same in the Krylov space of B |GS> with `dim` dimensions at most."""
        start = self.states[B].astype(complex)
        Q, exhausted, _ = reference(self.HM.astype(complex), start, min(dim, 14))
        if not exhausted and dim > 14:
            raise Skip("too large")
        T = Q.conj().T @ self.HM @ Q
        w, U = np.linalg.eigh(T)
        left = U.conj().T @ (Q.conj().T @ self.states[A.dagger()])
        right = U.conj().T @ (Q.conj().T @ start)
        x = w - self.GE
        return np.sum(left.conj() * right / (z + x if plus else z - x)), exhausted


def dagger_closed(ops):
    res = []
    for o in ops:
        for p in (o, o.dagger()):
            if p not in res:
                res.append(p)
    return res


def random_setup(case, sizes=(1, 2, 3, 4, 6, 9, 12)):
    py, rng = case.py, case.rng
    n = py.choice(sizes)
    complex_ = py.random() < 0.6
    HM = gen.random_hermitian(rng, n, complex_, degenerate=py.random() < 0.3)
    if py.random() < 0.2:
        HM = np.diag(rng.integers(-3, 4, size=n)).astype(float)
    if py.random() < 0.3:
        gs = np.linalg.eigh(HM)[1][:, 0]
        GE = float(np.linalg.eigvalsh(HM)[0])
    else:
        # the solvers do not care what the reference state is
        gs = rng.normal(size=n) + (1j * rng.normal(size=n) if complex_ else 0)
        gs = gs / np.linalg.norm(gs)
        GE = py.uniform(-3, 3)
    mats = {}
    ops = [Op("O{0}".format(k)) for k in range(py.randrange(1, 4))]
    for o in ops:
        m = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if complex_ else 0)
        if py.random() < 0.2:
            m = np.round(m)
        mats[o] = m
        mats[o.dagger()] = m.conj().T
    res = Setup(HM, GE, gs, dagger_closed(ops), mats)
    res.kind = "random"
    return res


def fermion_setup(case, interacting=None):
    """Lattice fermions on the full Fock space, assembled by the real code; the
    operator matrices come from an independent Jordan-Wigner construction."""
    from vlib import ref
    py, rng = case.py, case.rng
    n = py.choice([1, 2, 3, 4])
    labels = gen.state_labels(py, n)
    table = IndexTable([StateID(s, spin=p, orbit=o) for s, p, o in labels])
    bases = HP.base_vectors(n)
    t = gen.random_hermitian(rng, n, py.random() < 0.6)
    H = np.zeros((1 << n, 1 << n), dtype=complex)

    def aoc(k, otype):
        s, p, o = labels[k]
        return AoC(otype, s, spin=p, orbit=o)
    for i in range(n):
        for j in range(n):
            term = t[i, j] * (aoc(i, HP.CREATION) * aoc(j, HP.ANNIHILATION))
            H = H + term.matrix_repr(table, bases).toarray()
    if interacting is None:
        interacting = py.random() < 0.5
    if interacting and n > 1:
        for i in range(n):
            for j in range(i + 1, n):
                s, p, o = labels[i]
                ni = HP.NumberOperator(s, spin=p, orbit=o)
                s, p, o = labels[j]
                nj = HP.NumberOperator(s, spin=p, orbit=o)
                H = H + (py.uniform(0, 3) * (ni * nj)).matrix_repr(table, bases).toarray()
    w, v = np.linalg.eigh(H)
    level = 0 if py.random() < 0.7 else py.randrange(len(w))
    ops = [aoc(k, py.choice([HP.CREATION, HP.ANNIHILATION])) for k in range(n)]
    ops = dagger_closed(ops)
    kets = [int(b) for b in bases]
    mats = {}
    for k in range(n):
        mats[aoc(k, HP.CREATION)] = ref.term_matrix([(k, 1)], kets)
        mats[aoc(k, HP.ANNIHILATION)] = ref.term_matrix([(k, 0)], kets)
    res = Setup(H, float(w[level]), v[:, level], ops, mats)
    res.kind = "fermion"
    res.hopping = t
    res.aoc = aoc
    res.n = n
    res.interacting = interacting and n > 1
    return res


def spin_setup(case):
    from vlib import ref
    py, rng = case.py, case.rng
    n = py.choice([1, 2, 3])
    sites = gen.distinct_sites(py, n)
    table = IndexTable([SiteID(s) for s in sites])
    H = np.zeros((1 << n, 1 << n), dtype=complex)
    for i in range(n):
        for a in "xyz":
            H = H + py.uniform(-1, 1) * SpinOperator(a, sites[i]).matrix_repr(table).toarray()
        for j in range(i):
            for term in HP.HeisenbergFactory(sites[i], sites[j], coeff=py.uniform(-2, 2)):
                H = H + term.matrix_repr(table).toarray()
    w, v = np.linalg.eigh(H)
    ops = [SpinOperator(py.choice("xyzpm"), py.choice(sites)) for _ in range(3)]
    mats = {SpinOperator(a, sites[k]): ref.spin_matrix(a, k, n) for k in range(n) for a in "xyzpm"}
    res = Setup(H, float(w[0]), v[:, 0], dagger_closed(ops), mats)
    res.kind = "spin"
    return res


def setup(case):
    return case.py.choice([random_setup, random_setup, fermion_setup, spin_setup])(case)


def rescale(case, setup, low=-12.0, high=6.0):
    """States of any norm, a matrix in any unit of energy: (setup, the unit)."""
    py = case.py
    if py.random() < 0.3:
        factor = 10 ** py.uniform(low, high)
        for op in setup.states:
            own = factor if py.random() < 0.7 else 10 ** py.uniform(low, high)
            setup.states[op] = own * setup.states[op]
        case.obs("states of unusual norms")
    return setup


def size(setup, *ops):
    """The product of the norms of the states of `ops`."""
    return float(np.prod([np.linalg.norm(setup.states[op]) for op in ops]))


def change_unit(case, setup, unit):
    """The same problem with all energies multiplied by `unit`."""
    setup.HM = setup.HM * unit
    setup.GE = setup.GE * unit
    setup.E, setup.V = np.linalg.eigh(setup.HM)
    if unit != 1:
        case.obs("unusual units of energy")
    return setup


def frequencies(case, k):
    py = case.py
    if k > 1 and py.random() < 0.1:
        # very close to each other
        return py.choice([0.0, 1.0, py.uniform(-5, 5)]) + 10 ** py.uniform(-12, -6) * np.arange(k)
    if py.random() < 0.1:
        return np.array([py.randrange(-6, 7) for _ in range(k)])
    return np.array([py.choice([0.0, 1.0, py.uniform(-5, 5), py.uniform(-5, 5), 37.5]) for _ in range(k)])


def many(case):
    """A number of frequencies as in a smooth curve."""
    case.obs("long frequency lists")
    return case.py.choice([case.py.randrange(65, 300), 256, 257, case.py.randrange(300, 1100)])


def operator_lists(case, ops, limit=4):
    py = case.py
    As = [py.choice(ops) for _ in range(py.randrange(1, limit))]
    Bs = [py.choice(ops) for _ in range(py.randrange(1, limit))]
    if py.random() < 0.5:
        As = list(dict.fromkeys(As))
    return As, Bs


def snapshot(value):
    if isinstance(value, dict):
        return {k: snapshot(v) for k, v in value.items()}
    if isinstance(value, np.ndarray):
        return value.copy()
    if isinstance(value, list):
        return list(value)
    return value


def unchanged(value, old):
    if isinstance(value, dict):
        return list(value) == list(old) and all(unchanged(value[k], old[k]) for k in value)
    if isinstance(value, np.ndarray):
        return value.dtype == old.dtype and np.array_equal(value, old)
    return value == old
