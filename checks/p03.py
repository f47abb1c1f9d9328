"""P03: hopping, number and Coulomb fast paths against the general evaluation."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import (CoulombFactory, CPFactory, HoppingFactory, HubbardFactory, IndexTable, ParticleTerm, StateID)
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function

from vlib import fermi, gen, ref
from vlib.fermi import ANNIHILATION, CREATION, System, dense
from vlib.harness import Section

PID = "P03"
RULE = ("every ordered pair of bit positions 0..63 (enumerated) and random pairs on sector, partial and rectangular "
        "bases, each evaluated with and without its label and compared with the integer reference; products, adjoints "
        "and multiples of labelled terms compared with unlabelled ones; non-trivial when the matrix is not zero")
ASSUMPTIONS = ["labels are attached to terms that pass check_compatibility, as the constructor documents"]
MUST = {"rearranged products": 30, "fast path compared": 3000, "label decisions": 300, "algebra compared": 100, "missing image refused": 6}

STRINGS = {
    "hopping": lambda i, j: [(i, CREATION), (j, ANNIHILATION)],
    "number": lambda i, j: [(i, CREATION), (i, ANNIHILATION)],
    "Coulomb": lambda i, j: [(i, CREATION), (i, ANNIHILATION), (j, CREATION), (j, ANNIHILATION)],
}

_CHAIN = None


def chain():
    global _CHAIN
    if _CHAIN is None:
        _CHAIN = IndexTable([StateID((k,)) for k in range(64)])
    return _CHAIN


def compare(case, label, string, table, make, right, left, coeff, mech):
    tag = ParticleTerm(make(), coeff=coeff, classification=label)
    plain = ParticleTerm(make(), coeff=coeff)
    case.check(tag.check_compatibility(), "compatibility", "{0} {1}".format(label, string))
    case.equal(tag.classification, label, "classification")
    kwargs = {} if left is None else {"left_bases": left}
    shape = (len(right if left is None else left), len(right))
    want = ref.term_matrix(string, right, left, coeff)
    tol = dict(atol=1e-13 * gen.size(coeff), rtol=1e-13)
    for to_csr in (True, False):
        fast = dense(tag.matrix_repr(table, right, to_csr=to_csr, **kwargs), shape)
        slow = dense(plain.matrix_repr(table, right, to_csr=to_csr, **kwargs), shape)
        case.close(fast, slow, mech, "{0} {1} differs from the unlabelled term".format(label, string), **tol)
        case.close(fast, want, mech, "{0} {1} differs from the reference".format(label, string), **tol)
    case.obs("fast path compared")
    return want


def position_pairs(case):
    """All ordered pairs of the 64 positions with random backgrounds."""
    py = case.py
    i = case.index
    case.note(position=i)
    table = chain()
    for j in range(64):
        background = py.getrandbits(64)
        active = sorted({i, j})
        for p in active:
            background &= ~(1 << p)
        bases = fermi.bases_of(active, background)
        for label in STRINGS:
            if label == "hopping" and i == j:
                continue
            string = STRINGS[label](i, j)
            tag = matrix_function(string, bases, special_tag=label)
            want = ref.term_matrix(string, bases)
            case.close(dense(tag), want, "positions", "{0} {1},{2} background {3:#x}".format(label, i, j, background))
            case.obs("fast path compared")
            case.nontrivial(label, i, j, background)


def pairs(case):
    py = case.py
    k = py.randrange(2, 7)
    if py.random() < 0.5:
        system = System(case, k)
        active, background = list(range(k)), 0
    else:
        system = System(case, 64, dim=2)
        active, background = gen.positions(py, k), py.getrandbits(64)
        for p in active:
            background &= ~(1 << p)
    by_pos = {pos: label for label, pos in system.index.items()}
    full = fermi.bases_of(active, background)
    if py.random() < 0.5:     # one particle-number sector
        N = py.randrange(len(active) + 1)
        weight = np.array([bin(int(x) & ~background).count("1") for x in full])
        full = full[weight == N]
    label = py.choice(list(STRINGS))
    i, j = py.sample(active, 2)
    if label == "Coulomb" and py.random() < 0.2:
        j = i
    string = STRINGS[label](i, j)
    make = lambda: [system.aoc(by_pos[p], o) for p, o in string]
    right = full
    mode = py.randrange(4)
    left = None
    if mode:
        right = full[np.array([py.random() < 0.7 for _ in full])]
        if len(right) == 0:
            right = full[:1]
        images = set(ref.images(string, right))
        if mode == 1:
            left = full
        elif mode == 2:
            left = np.array(sorted(images | {int(x) for x in full if py.random() < 0.4} | {py.getrandbits(64)}), dtype=np.uint64)
        elif not images <= set(map(int, right)):
            case.note(label=label, string=string)
            term = ParticleTerm(make(), classification=label)
            case.raises(Exception, lambda: term.matrix_repr(system.table, right), "missing-image-accepted", "{0} {1}".format(label, string))
            case.obs("missing image refused")
            return
    coeff = gen.coeff(case)
    case.note(label=label, string=string, coeff=coeff, right=[hex(int(x)) for x in right[:6]], left=None if left is None else [hex(int(x)) for x in left[:6]])
    want = compare(case, label, string, system.table, make, right, left, coeff, "pair")
    if np.any(want):
        case.nontrivial(label, string, right.tobytes())


def factories(case):
    """The labels chosen by the generators."""
    py = case.py
    sites = gen.distinct_sites(py, 2)
    table = IndexTable([StateID(s, spin, orbit) for s, spin, orbit in
                        py.sample(list(itertools.product(sites, (0, 1), (0, 1))), 8)])
    bases = HP.base_vectors([8, py.randrange(1, 8)]) if py.random() < 0.7 else HP.base_vectors(8)
    coeff = gen.coeff(case)
    s0, s1 = py.choice(sites), py.choice(sites)
    o0, o1, p0, p1 = (py.randrange(2) for _ in range(4))
    idx = lambda s, p, o: table(StateID(s, p, o))
    kind = py.randrange(4)
    if kind == 0:
        term = CPFactory(s0, spin=p0, orbit=o0, coeff=coeff)
        string = STRINGS["number"](idx(s0, p0, o0), None)
    elif kind == 1:
        term = HoppingFactory(s0, s1, spin0=p0, spin1=p1, orbit0=o0, orbit1=o1, coeff=coeff)
        string = STRINGS["hopping"](idx(s0, p0, o0), idx(s1, p1, o1))
    elif kind == 2:
        term = HubbardFactory(s0, orbit=o0, coeff=coeff)
        string = STRINGS["Coulomb"](idx(s0, 1, o0), idx(s0, 0, o0))
    else:
        term = CoulombFactory(s0, s1, spin0=p0, spin1=p1, orbit0=o0, orbit1=o1, coeff=coeff)
        string = STRINGS["Coulomb"](idx(s0, p0, o0), idx(s1, p1, o1))
    case.note(kind=kind, string=string, coeff=coeff, label=term.classification)
    case.check(term.check_compatibility(), "factory-label", "label {0} for {1}".format(term.classification, string))
    want = ref.term_matrix(string, bases, None, coeff)
    got = dense(term.matrix_repr(table, bases))
    case.close(got, want, "factory-matrix", atol=1e-13 * gen.size(coeff), rtol=1e-13)
    adj = dense(term.dagger().matrix_repr(table, bases))
    case.close(adj, want.conj().T, "factory-adjoint", atol=1e-13 * gen.size(coeff), rtol=1e-13)
    case.obs("fast path compared")
    case.nontrivial(kind, string, coeff)


def labels(case):
    """check_compatibility accepts exactly the products of that kind."""
    py = case.py
    system = System(case, py.randrange(1, 4))
    length = py.choice([1, 2, 2, 2, 3, 4, 4, 4, 5, 6])
    if py.random() < 0.6 and length in (2, 4):
        # near misses: one attribute changed with respect to a correct product
        a, b = py.choice(system.labels), py.choice(system.labels)
        base = [(a, CREATION), (a if py.random() < 0.5 else b, ANNIHILATION)]
        if length == 4:
            base = [(a, CREATION), (a, ANNIHILATION), (b, CREATION), (b, ANNIHILATION)]
        if py.random() < 0.6:
            k = py.randrange(length)
            l, o = base[k]
            base[k] = (l, 1 - o) if py.random() < 0.5 else (py.choice(system.labels), o)
        elif length == 4 and py.random() < 0.3 and len(system.labels) > 1:
            # an exchange: both particles change their states
            a, b = py.sample(system.labels, 2)
            base = [(a, CREATION), (b, ANNIHILATION), (b, CREATION), (a, ANNIHILATION)]
            case.obs("rearranged products")
        elif py.random() < 0.6:
            # the same operators in another order, or the same states with exchanged partners
            if py.random() < 0.5:
                py.shuffle(base)
            else:
                states = [l for l, _ in base]
                py.shuffle(states)
                base = [(l, o) for l, (_, o) in zip(states, base)]
            case.obs("rearranged products")
        string = base
    else:
        string = [(py.choice(system.labels), py.choice([CREATION, ANNIHILATION])) for _ in range(length)]
    aocs = [system.aoc(l, o) for l, o in string]
    types = [o for _, o in string]
    ls = [l for l, _ in string]
    truth = {
        "general": True,
        "hopping": types == [CREATION, ANNIHILATION] and ls[0] != ls[1] if length == 2 else False,
        "number": types == [CREATION, ANNIHILATION] and ls[0] == ls[1] if length == 2 else False,
        "Coulomb": (types == [CREATION, ANNIHILATION] * 2 and ls[0] == ls[1] and ls[2] == ls[3]) if length == 4 else False,
    }
    case.note(string=string)
    for label, want in truth.items():
        got = ParticleTerm(aocs, classification=label).check_compatibility()
        case.equal(bool(got), bool(want), "label-decision", "{0} for {1}".format(label, string))
        case.obs("label decisions")
    case.raises((AssertionError, ValueError, TypeError), lambda: ParticleTerm(aocs, classification=py.choice(["coulomb", "Hopping", "", "N"])), "unknown-label")
    case.nontrivial(string)


def algebra(case):
    """A label must not survive where it no longer holds."""
    py = case.py
    n = py.randrange(2, 5)
    system = System(case, n)
    by_pos = {pos: label for label, pos in system.index.items()}
    bases = HP.base_vectors(n)

    def labelled():
        label = py.choice(list(STRINGS))
        i, j = py.sample(range(n), 2)
        string = STRINGS[label](i, j)
        coeff = gen.coeff(case, kinds=("float", "complex", "int", "negative"))
        term = ParticleTerm([system.aoc(by_pos[p], o) for p, o in string], coeff=coeff, classification=label)
        return term, string, coeff

    term, string, coeff = labelled()
    for _ in range(py.randrange(1, 5)):
        kind = py.randrange(7)
        if kind == 0:
            other, s2, c2 = labelled()
            term, string, coeff = term * other, string + s2, coeff * c2
        elif kind == 1:
            other, s2, c2 = labelled()
            term, string, coeff = other * term, s2 + string, c2 * coeff
        elif kind == 2:
            p, o = py.randrange(n), py.choice([CREATION, ANNIHILATION])
            term, string = term * system.aoc(by_pos[p], o), string + [(p, o)]
        elif kind == 3:
            p, o = py.randrange(n), py.choice([CREATION, ANNIHILATION])
            term, string = system.aoc(by_pos[p], o) * term, [(p, o)] + string
        elif kind == 4:
            c2 = gen.coeff(case, kinds=("float", "complex", "int"))
            term, coeff = (term * c2, coeff * c2) if py.random() < 0.5 else (c2 * term, c2 * coeff)
        elif kind == 5:
            term, coeff = term.dagger(), complex(coeff).conjugate()
            string = [(p, 1 - o) for p, o in reversed(string)]
        else:
            p = py.randrange(n)
            term = term * system.number(by_pos[p]).toterm()
            string = string + [(p, CREATION), (p, ANNIHILATION)]
        case.check(term.check_compatibility(), "stale-label", "label {0} on {1}".format(term.classification, string))
        want = ref.term_matrix(string, bases, None, coeff)
        case.close(dense(term.matrix_repr(system.table, bases)), want, "algebra",
                   "label {0} on {1}".format(term.classification, string), atol=1e-12 * gen.size(coeff))
        case.obs("algebra compared")
        if len(string) > 10:
            break
    case.note(string=string, coeff=coeff)
    case.nontrivial(string, coeff)


def large(case):
    n = 13
    N = 6
    bases = HP.base_vectors([n, N])
    table = IndexTable([StateID((k,)) for k in range(n)])
    i, j = case.py.sample(range(n), 2)
    for label in STRINGS:
        string = STRINGS[label](i, j)
        term = ParticleTerm([HP.AoC(o, (p,)) for p, o in string], coeff=1.5, classification=label)
        res = term.matrix_repr(table, bases).tocoo()
        rows, cols, signs = ref.term_entries(string, bases)
        order = np.argsort(res.col)
        case.check(np.array_equal(res.col[order], cols) and np.array_equal(res.row[order], rows)
                   and np.array_equal(res.data[order], 1.5 * signs), "large", "{0} {1} {2}".format(label, i, j))
        case.obs("fast path compared")
    case.nontrivial(i, j)


def huge(case):
    """Spaces of more states than the numbers of 16 bits can count."""
    py = case.py
    n = 17
    full = np.arange(1 << n, dtype=np.uint64)
    table = IndexTable([StateID((k,)) for k in range(n)])
    i, j = py.choice([(16, py.randrange(15)), (py.randrange(15), 16), tuple(py.sample(range(n), 2))])
    # every state, or those that the terms map onto themselves
    bases = full if py.random() < 0.5 else HP.base_vectors([n, 8])
    case.note(i=i, j=j, dim=len(bases))
    for label in STRINGS:
        string = STRINGS[label](i, j)
        aocs = [HP.AoC(o, (p,)) for p, o in string]
        left = py.choice([None, full])
        fast = ParticleTerm(aocs, coeff=1.5, classification=label).matrix_repr(table, bases, left_bases=left)
        slow = ParticleTerm(aocs, coeff=1.5).matrix_repr(table, bases, left_bases=left)
        case.equal(fast.shape, slow.shape, "huge-shape", label)
        case.check(abs(fast - slow).nnz == 0, "huge", "{0} {1} {2}".format(label, i, j))
        # the images, by the definition
        coo = fast.tocoo()
        order = np.argsort(coo.col)
        ket = bases.astype(np.int64)
        occupied = lambda p: (ket >> p) & 1 == 1
        if label == "hopping":
            alive, image = occupied(j) & ~occupied(i), ket ^ (1 << i) ^ (1 << j)
        else:
            alive = occupied(i) if label == "number" else occupied(i) & occupied(j)
            image = ket
        rows = np.searchsorted((bases if left is None else left).astype(np.int64), image[alive])
        case.check(np.array_equal(coo.col[order], np.nonzero(alive)[0]), "huge-columns", label)
        case.check(np.array_equal(coo.row[order], rows), "huge-rows", label)
        case.obs("fast path compared")
    case.nontrivial(i, j, len(bases))


SECTIONS = [
    Section("position-pairs", position_pairs, 64, 64, fixed=True),
    Section("pairs", pairs, 700, 30000),
    Section("factories", factories, 200, 6000),
    Section("labels", labels, 700, 15000),
    Section("algebra", algebra, 250, 8000),
    Section("large", large, 10, 60),
    Section("huge", huge, 4, 40),
]
