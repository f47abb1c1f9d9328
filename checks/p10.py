"""P10: the fermion representation of spins."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import HeisenbergFactory, IndexTable, SiteID, SpinInteraction, SpinOperator, StateID

from vlib import gen, ref
from vlib import history as past
from vlib.harness import Section

PID = "P10"
RULE = ("spin operators and interactions of 1..5 operators on 1..4 sites with random numbering of the orbitals; the "
        "fermion terms are summed, restricted to one fermion per site and compared with the spin matrix; on the full "
        "space they have to commute with the number operator of every site; non-trivial when the matrix is not zero")
MUST = {"operators compared": 100, "interactions compared": 150, "conservation checks": 150, "entries compared": 1000}
TYPES = ("x", "y", "z", "p", "m")


class Spins:
    def __init__(self, case, n):
        py = case.py
        self.n = n
        self.sites = gen.distinct_sites(py, n)
        labels = [(k, s) for k in range(n) for s in (0, 1)]
        py.shuffle(labels)
        self.pos = {l: i for i, l in enumerate(labels)}
        self.states = IndexTable([StateID(gen.as_container(py, self.sites[k]), spin=s) for k, s in labels])
        self.table = IndexTable([SiteID(s) for s in self.sites])
        self.sector = HP.base_vectors(*[[[self.pos[k, 0], self.pos[k, 1]], 1] for k in range(n)])
        # spin configuration -> occupation pattern -> row of the sector basis
        rows = {int(x): i for i, x in enumerate(self.sector)}
        self.row = []
        self.sign = []
        for conf in range(1 << n):
            # the configuration is c^+_{0,s0} c^+_{1,s1} ... |vacuum>: in the
            # basis of occupation patterns this is a pattern and a sign
            creators = []
            for k in range(n):
                spin = HP.SPIN_DOWN if (conf >> k) & 1 else HP.SPIN_UP
                creators.append((self.pos[k, spin], HP.CREATION))
            sign, ket = ref.apply_term(creators, 0)
            self.sign.append(sign)
            self.row.append(rows[ket])
        self.sign = np.array(self.sign)

    def restrict(self, terms):
        dim = len(self.sector)
        total = np.zeros((dim, dim), dtype=np.complex128)
        for t in terms:
            total = total + t.matrix_repr(self.states, self.sector).toarray()
        return self.sign[:, None] * total[np.ix_(self.row, self.row)] * self.sign[None, :]

    def full(self, terms):
        bases = HP.base_vectors(2 * self.n)
        total = np.zeros((len(bases),) * 2, dtype=np.complex128)
        for t in terms:
            total = total + t.matrix_repr(self.states, bases).toarray()
        return total, bases


def conserve(case, spins, terms):
    if spins.n > 3:
        return
    total, bases = spins.full(terms)
    for k in range(spins.n):
        num = np.array([((int(b) >> spins.pos[k, 0]) & 1) + ((int(b) >> spins.pos[k, 1]) & 1) for b in bases])
        leak = np.abs(total) * (num[:, None] != num[None, :])
        case.close(leak, 0 * leak, "conservation", "site {0}".format(k))
        case.obs("conservation checks")


def single(case):
    py = case.py
    n = py.randrange(1, 4)
    spins = Spins(case, n)
    case.note(n=n, sites=spins.sites)
    for k, a in itertools.product(range(n), TYPES):
        op = SpinOperator(a, gen.noisy_container(py, spins.sites[k]))
        terms = op.Schwinger()
        want = ref.spin_matrix(a, k, n)
        case.close(spins.restrict(terms), want, "operator", (a, k, n))
        case.close(op.matrix_repr(spins.table).toarray(), want, "spin-matrix", (a, k, n))
        conserve(case, spins, terms)
        case.close(spins.restrict(op.Schwinger()), want, "operator-again", (a, k, n))
        case.close(spins.restrict([t.dagger() for t in terms]), want.conj().T, "operator-adjoint", (a, k, n))
        # terms belong to the caller
        for t in terms:
            t.coeff = 99.0
        case.close(spins.restrict(op.Schwinger()), want, "operator-again", (a, k, n))
        case.obs("operators compared")
        case.obs("entries compared", np.count_nonzero(want))
        case.nontrivial(n, k, a, tuple(sorted(spins.pos.items())))


def interactions(case):
    py = case.py
    n = py.randrange(1, 5)
    spins = Spins(case, n)
    m = py.choice([1, 2, 2, 3, 3, 4])
    string = [(py.randrange(n), py.choice(TYPES)) for _ in range(m)]
    coeff = gen.coeff(case)
    case.note(n=n, string=string, coeff=coeff)
    obj = SpinInteraction([SpinOperator(a, spins.sites[k]) for k, a in string], coeff=coeff)
    want = ref.spin_product(string, n, complex(coeff))
    tol = dict(atol=1e-12 * gen.size(coeff), rtol=1e-12)
    terms = obj.Schwinger()
    case.close(spins.restrict(terms), want, "interaction", string, **tol)
    case.close(obj.matrix_repr(spins.table).toarray(), want, "spin-matrix", string, **tol)
    case.close(spins.restrict(obj.dagger().Schwinger()), want.conj().T, "interaction-adjoint", string, **tol)
    conserve(case, spins, terms)
    obj.coeff = 2 * complex(coeff)
    case.close(spins.restrict(obj.Schwinger()), 2 * want, "interaction-coefficient", string, **tol)
    case.obs("interactions compared")
    case.obs("entries compared", np.count_nonzero(want))
    if np.any(want):
        case.nontrivial(n, string, coeff)


def models(case):
    """A whole Heisenberg model, as spins and as fermions."""
    py = case.py
    n = py.randrange(2, 5)
    spins = Spins(case, n)
    total = np.zeros((1 << n,) * 2, dtype=complex)
    terms = []
    want = np.zeros((1 << n,) * 2, dtype=complex)
    for i, j in itertools.combinations(range(n), 2):
        J = py.uniform(-2, 2)
        for t in HeisenbergFactory(spins.sites[i], spins.sites[j], coeff=J):
            total = total + t.matrix_repr(spins.table).toarray()
            terms += t.Schwinger()
        want += J * sum(ref.spin_product([(i, a), (j, a)], n) for a in "xyz")
    case.note(n=n)
    got = spins.restrict(terms)
    case.close(got, want, "model", atol=1e-11)
    case.close(total, want, "model-spins", atol=1e-11)
    case.close(got, got.conj().T, "hermitian", atol=1e-11)
    case.obs("interactions compared")
    case.obs("entries compared", np.count_nonzero(want))
    case.nontrivial(n, spins.sites)


SECTIONS = [
    past.section(past.interaction, past.spin_operator, quick=28, thorough=560),
    Section("single", single, 25, 800),
    Section("interactions", interactions, 200, 6000),
    Section("models", models, 25, 800),
]
