"""P06: the Hamiltonian-term generators."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import (Annihilator, CoulombFactory, CPFactory, Creator, HeisenbergFactory, HoppingFactory,
                           HubbardFactory, IndexTable, IsingFactory, PairingFactory, SiteID, StateID, TwoSpinTermFactory)

from vlib import gen, ref
from vlib.fermi import ANNIHILATION as A
from vlib.fermi import CREATION as C
from vlib.fermi import dense
from vlib import history as past
from vlib.harness import Section

PID = "P06"
RULE = ("every generator with random sites (equal or different, 1D-3D, all containers), spins, orbits, omitted and "
        "given keyword combinations and coefficient types; the matrix is compared with the formula evaluated by an "
        "independent reference; non-trivial when the matrix is not zero, counted by generator and arguments")
MUST = {"fermion generators": 400, "spin generators": 300, "defaults used": 200, "refusals observed": 60}


class Space:
    """Two sites x spins x orbits in a random numbering."""

    def __init__(self, case):
        py = case.py
        self.case = case
        self.sites = gen.distinct_sites(py, 2)
        self.spins = (0, 1) if py.random() < 0.7 else (0, 1, py.randrange(2, 7))
        self.orbits = (0,) if len(self.spins) == 3 else py.choice([(0, 1), (0, 1), (0, py.randrange(2, 7)), (1, 2), (0,), (3, 5)])
        labels = list(itertools.product(self.sites, self.spins, self.orbits))
        py.shuffle(labels)
        self.labels = labels
        self.index = {l: k for k, l in enumerate(labels)}
        self.table = IndexTable([StateID(s, p, o) for s, p, o in labels])
        self.bases = HP.base_vectors(len(labels))

    def pick(self):
        py = self.case.py
        return py.choice(self.sites), py.choice(self.spins), py.choice(self.orbits)

    def site(self, s):
        return gen.noisy_container(self.case.py, s)

    def judge(self, term, string, coeff, mech, left=None):
        case = self.case
        want = ref.term_matrix(string, self.bases, None, coeff)
        got = dense(term.matrix_repr(self.table, self.bases))
        case.close(got, want, mech, "{0} {1}".format(string, coeff), atol=1e-13 * gen.size(coeff), rtol=1e-13)
        # the operators themselves
        case.equal([(x.otype, self.index.get((self.unsite(x.coordinate), x.spin, x.orbit))) for x in term.components],
                   [(o, p) for p, o in string], mech, "operators")
        case.equal(complex(term.coeff), complex(coeff), mech, "coefficient")
        case.check(term.check_compatibility(), mech, "label")
        case.obs("fermion generators")
        if np.any(want):
            case.nontrivial(mech, string, coeff)

    def unsite(self, coordinate):
        for s in self.sites:
            if len(s) == len(coordinate) and all(abs(a - b) < 1e-6 for a, b in zip(s, coordinate)):
                return s
        return tuple(coordinate)


def optional(case, kwargs, name, value, default):
    """Pass an argument, or omit it when the default applies."""
    if value == default and type(value) is type(default) and case.py.random() < 0.6:
        case.obs("defaults used")
        return
    kwargs[name] = value


def fermion(case):
    py = case.py
    sp = Space(case)
    (s0, p0, o0), (s1, p1, o1) = sp.pick(), sp.pick()
    if py.random() < 0.4:
        p0 = 0
    if py.random() < 0.4 and 0 in sp.orbits:
        o0 = 0
    coeff = 1.0 if py.random() < 0.3 else gen.coeff(case)
    kw = {}
    optional(case, kw, "coeff", coeff, 1.0)
    kind = case.index % 8
    i = lambda s, p, o: sp.index[(s, p, o)]
    case.note(kind=kind, s0=s0, p0=p0, o0=o0, s1=s1, p1=p1, o1=o1, coeff=coeff)
    if kind == 0:
        optional(case, kw, "spin", p0, 0)
        optional(case, kw, "orbit", o0, 0)
        sp.judge(CPFactory(sp.site(s0), **kw), [(i(s0, p0, o0), C), (i(s0, p0, o0), A)], coeff, "CPFactory")
    elif kind in (1, 2):
        optional(case, kw, "spin0", p0, 0)
        optional(case, kw, "orbit0", o0, 0)
        q1, r1 = p1, o1
        if py.random() < 0.5:
            q1 = p0          # omitted: takes the value of the first
            case.obs("defaults used")
            if py.random() < 0.3:
                kw["spin1"] = None
        else:
            kw["spin1"] = p1
        if py.random() < 0.5:
            r1 = o0
            case.obs("defaults used")
            if py.random() < 0.3:
                kw["orbit1"] = None
        else:
            kw["orbit1"] = o1
        sp.judge(HoppingFactory(sp.site(s0), sp.site(s1), **kw), [(i(s0, p0, o0), C), (i(s1, q1, r1), A)], coeff, "HoppingFactory")
    elif kind in (3, 4):
        optional(case, kw, "spin0", p0, 0)
        optional(case, kw, "orbit0", o0, 0)
        optional(case, kw, "spin1", p1, 0)
        optional(case, kw, "orbit1", o1, 0)
        which = py.choice(["h", "hole", "p", "particle"])
        optional(case, kw, "which", which, "h")
        o = A if which in ("h", "hole") else C
        sp.judge(PairingFactory(sp.site(s0), sp.site(s1), **kw), [(i(s0, p0, o0), o), (i(s1, p1, o1), o)], coeff, "PairingFactory")
    elif kind == 5:
        optional(case, kw, "orbit", o0, 0)
        up, down = i(s0, 1, o0), i(s0, 0, o0)
        sp.judge(HubbardFactory(sp.site(s0), **kw), [(up, C), (up, A), (down, C), (down, A)], coeff, "HubbardFactory")
    elif kind == 6:
        optional(case, kw, "spin0", p0, 0)
        optional(case, kw, "orbit0", o0, 0)
        optional(case, kw, "spin1", p1, 0)
        optional(case, kw, "orbit1", o1, 0)
        a, b = i(s0, p0, o0), i(s1, p1, o1)
        sp.judge(CoulombFactory(sp.site(s0), sp.site(s1), **kw), [(a, C), (a, A), (b, C), (b, A)], coeff, "CoulombFactory")
    else:
        kw.pop("coeff", None)
        optional(case, kw, "spin", p0, 0)
        optional(case, kw, "orbit", o0, 0)
        for maker, o in ((Creator, C), (Annihilator, A)):
            x = maker(sp.site(s0), **kw)
            case.equal((x.otype, x.spin, x.orbit, sp.unsite(x.coordinate)), (o, p0, o0, s0), "Creator")
            case.close(dense(x.matrix_repr(sp.table, sp.bases)), ref.term_matrix([(i(s0, p0, o0), o)], sp.bases), "Creator")
        case.obs("fermion generators")
        case.nontrivial("Creator", s0, p0, o0)


def spin(case):
    py = case.py
    n = py.randrange(2, 6)
    sites = gen.distinct_sites(py, n)
    table = IndexTable([SiteID(gen.as_container(py, s)) for s in sites])
    i = py.randrange(n)
    j = i if py.random() < 0.1 else py.randrange(n)
    s0, s1 = gen.noisy_container(py, sites[i]), gen.noisy_container(py, sites[j])
    coeff = 1.0 if py.random() < 0.3 else gen.coeff(case)
    kw = {}
    optional(case, kw, "coeff", coeff, 1.0)
    tol = dict(atol=1e-12 * gen.size(coeff), rtol=1e-12)
    kind = case.index % 3
    case.note(kind=kind, i=i, j=j, n=n, coeff=coeff)
    S = lambda k, a: ref.spin_matrix(a, k, n)
    if kind == 0:
        terms = HeisenbergFactory(s0, s1, **kw)
        case.equal(len(terms), 3, "HeisenbergFactory", "number of pieces")
        mats = [t.matrix_repr(table).toarray() for t in terms]
        total = sum(mats)
        want = complex(coeff) * sum(S(i, a) @ S(j, a) for a in "xyz")
        case.close(total, want, "HeisenbergFactory", "J S.S", **tol)
        case.close(mats[0], complex(coeff) * S(i, "z") @ S(j, "z"), "HeisenbergFactory", "zz piece", **tol)
        case.close(mats[1], complex(coeff) / 2 * S(i, "p") @ S(j, "m"), "HeisenbergFactory", "pm piece", **tol)
        case.close(mats[2], complex(coeff) / 2 * S(i, "m") @ S(j, "p"), "HeisenbergFactory", "mp piece", **tol)
    elif kind == 1:
        a = py.choice("xyz")
        t = IsingFactory(s0, s1, a, **kw)
        case.close(t.matrix_repr(table).toarray(), complex(coeff) * S(i, a) @ S(j, a), "IsingFactory", a, **tol)
        case.equal(complex(t.coeff), complex(coeff), "IsingFactory")
    else:
        a, b = py.choice("xyz"), py.choice("xyz")
        t = TwoSpinTermFactory(s0, s1, a, b, **kw)
        case.close(t.matrix_repr(table).toarray(), complex(coeff) * S(i, a) @ S(j, b), "TwoSpinTermFactory", a + b, **tol)
        case.equal(complex(t.coeff), complex(coeff), "TwoSpinTermFactory")
    case.obs("spin generators")
    case.nontrivial(kind, n, i, j, coeff)


def spin_all(case):
    """Every site pair and component pair of a small system (enumerated)."""
    n = 2 + case.index
    sites = gen.distinct_sites(case.py, n)
    case.py.shuffle(sites)
    table = IndexTable([SiteID(s) for s in sites])
    case.note(n=n, sites=sites)
    for i, j in itertools.product(range(n), repeat=2):
        for a, b in itertools.product("xyz", repeat=2):
            t = TwoSpinTermFactory(sites[i], sites[j], a, b, coeff=1.5)
            case.close(t.matrix_repr(table).toarray(), ref.spin_product([(i, a), (j, b)], n, 1.5), "TwoSpinTermFactory", (n, i, j, a, b))
            case.obs("spin generators")
            case.nontrivial("all", n, i, j, a, b)
        total = sum(t.matrix_repr(table) for t in HeisenbergFactory(sites[i], sites[j], coeff=-2)).toarray()
        case.close(total, sum(ref.spin_product([(i, a), (j, a)], n, -2) for a in "xyz"), "HeisenbergFactory", (n, i, j))


def refusals(case):
    py = case.py
    s0, s1 = gen.distinct_sites(py, 2, 2)
    E = (AssertionError, ValueError, TypeError)
    bad_pair = py.choice(["x", "holes", "", "P", "H", "pp", "particles", None, 1])
    case.raises(E, lambda: PairingFactory(s0, s1, which=bad_pair), "pairing-selector", bad_pair)
    bad_alpha = py.choice(["p", "m", "w", "X", "", "xy", None, 0])
    case.raises(E, lambda: IsingFactory(s0, s1, bad_alpha), "ising-selector", bad_alpha)
    case.raises(E, lambda: TwoSpinTermFactory(s0, s1, bad_alpha, "x"), "two-spin-selector", bad_alpha)
    case.raises(E, lambda: TwoSpinTermFactory(s0, s1, "z", bad_alpha), "two-spin-selector", bad_alpha)
    bad_coeff = py.choice(["1", None, [1.0], (1,)])
    case.raises(E, lambda: CPFactory(s0, coeff=bad_coeff), "coefficient", bad_coeff)
    case.raises(E, lambda: HoppingFactory(s0, s1, coeff=bad_coeff), "coefficient", bad_coeff)
    case.raises(E, lambda: IsingFactory(s0, s1, "x", coeff=bad_coeff), "coefficient", bad_coeff)
    case.raises(E, lambda: Creator(s0, spin=-1), "spin")
    case.raises(E, lambda: HoppingFactory(s0, s1, orbit1=-1), "orbit")
    case.nontrivial(bad_pair, bad_alpha, bad_coeff)
    case.note(bad=(bad_pair, bad_alpha, bad_coeff))


SECTIONS = [
    Section("independent", past.independent, 8, 150),
    Section("fermion", fermion, 1000, 30000),
    Section("spin", spin, 600, 20000),
    Section("spin-all", spin_all, 4, 5, fixed=True),
    Section("refusals", refusals, 60, 500),
]
