"""P01: canonical anticommutation relations, adjoints, numbers and signs."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, IndexTable, NumberOperator, StateID

from vlib import fermi, gen, ref
from vlib.fermi import ANNIHILATION, CREATION, System, dense
from vlib.harness import Section

PID = "P01"
RULE = ("random sets of single-particle states with random index tables (complete bases of up to 2^8 kets), "
        "every ordered pair of operators per case, and active bit positions up to 63 over random occupied "
        "backgrounds; a case is non-trivial when at least two states take part and is counted by its "
        "numbering and occupation pattern")
ASSUMPTIONS = ["states of one system share the dimension of their sites",
               "bases are ascending uint64 arrays as documented"]
MUST = {"operator matrices": 500, "pairs": 500, "signs compared": 5000, "bit 63 used": 3}


def _matrices(case, system, bases):
    dim = len(bases)
    c, a, num = [], [], []
    for label in system.labels:
        kwargs = {}
        if case.py.random() < 0.3:
            kwargs["left_bases"] = bases if case.py.random() < 0.5 else bases.copy()
        if case.py.random() < 0.3:
            kwargs["to_csr"] = False
        creator = system.aoc(label, CREATION)
        annihilator = creator.dagger() if case.py.random() < 0.5 else system.aoc(label, ANNIHILATION)
        c.append(dense(creator.matrix_repr(system.table, bases, **kwargs), (dim, dim)))
        a.append(dense(annihilator.matrix_repr(system.table, bases, **kwargs), (dim, dim)))
        kwargs.pop("left_bases", None)
        num.append(dense(system.number(label).matrix_repr(system.table, bases, **kwargs), (dim, dim)))
        case.obs("operator matrices", 3)
    return c, a, num


def _oracles(case, system, bases, c, a, num):
    n = len(c)
    dim = len(bases)
    eye = np.eye(dim)
    zero = np.zeros((dim, dim))
    for i in range(n):
        pos = system.index[system.labels[i]]
        case.close(c[i], a[i].conj().T, "adjoint", "creation is not the adjoint of annihilation at bit {0}".format(pos))
        case.close(num[i], c[i] @ a[i], "number", "n != c+ c at bit {0}".format(pos))
        bits = np.array([(int(k) >> pos) & 1 for k in bases], dtype=float)
        case.close(num[i], np.diag(bits), "occupation", "n does not read bit {0}".format(pos))
        want = ref.term_matrix([(pos, CREATION)], bases)
        case.close(c[i], want, "sign", "wrong sign of the creation operator at bit {0}".format(pos))
        case.obs("signs compared", int(np.count_nonzero(want)))
        case.peak("highest bit", pos)
        if pos == 63:
            case.obs("bit 63 used")
    for i in range(n):
        for j in range(i, n):
            case.close(a[i] @ c[j] + c[j] @ a[i], eye if i == j else zero, "anticommutator-ac", "{{c_{0}, c+_{1}}}".format(i, j))
            case.close(a[j] @ c[i] + c[i] @ a[j], eye if i == j else zero, "anticommutator-ac", "{{c_{0}, c+_{1}}}".format(j, i))
            case.close(a[i] @ a[j] + a[j] @ a[i], zero, "anticommutator-aa", "{{c_{0}, c_{1}}}".format(i, j))
            case.close(c[i] @ c[j] + c[j] @ c[i], zero, "anticommutator-cc", "{{c+_{0}, c+_{1}}}".format(i, j))
            case.obs("pairs")


def algebra(case):
    n = case.py.choice([1, 2, 3, 4, 5, 5, 6, 6] if case.tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8])
    system = System(case, n)
    if case.py.random() < 0.5:
        bases = HP.base_vectors(n)
    else:
        bases = HP.base_vectors([case.py.sample(range(n), n), -1])
    case.note(states=system.labels)
    case.equal(len(bases), 1 << n, "basis", "complete basis")
    _oracles(case, system, bases, *_matrices(case, system, bases))
    if n > 1:
        case.nontrivial(system.labels)


def high_positions(case):
    """Active states anywhere in 0..63 over an arbitrary occupied background."""
    py = case.py
    k = py.randrange(2, 6)
    active = gen.positions(py, k)
    if case.index % 3 == 0 and 63 not in active:
        active = sorted(active[:-1] + [63])
    background = 0
    density = py.choice([0.0, 0.3, 0.7, 1.0])
    for pos in range(64):
        if pos not in active and py.random() < density:
            background |= 1 << pos
    bases = fermi.bases_of(active, background)
    # a table whose objects sit at the active positions
    system = System(case, 64, dim=1)
    system.labels = [system.labels[p] for p in active]
    case.note(active=active, background=hex(background))
    _oracles(case, system, bases, *_matrices(case, system, bases))
    case.nontrivial(active, background)


_CHAIN = None


def position_pairs(case):
    """Every ordered pair of positions 0..63 (enumerated): c_i c_j^+ relations."""
    global _CHAIN
    if _CHAIN is None:
        states = [StateID((k,)) for k in range(64)]
        _CHAIN = (IndexTable(states), [AoC(CREATION, (k,)) for k in range(64)])
    table, creators = _CHAIN
    i = case.index
    case.note(position=i)
    for j in range(64):
        background = case.py.getrandbits(64)
        for pos in (i, j):
            background &= ~(1 << pos)
        active = [i] if i == j else sorted((i, j))
        bases = fermi.bases_of(active, background)
        mats = {}
        for pos in active:
            mats[pos] = dense(creators[pos].matrix_repr(table, bases))
            want = ref.term_matrix([(pos, CREATION)], bases)
            case.close(mats[pos], want, "sign", "sign at bit {0}, background {1:#x}".format(pos, background))
            case.obs("signs compared", len(bases) // 2)
            case.obs("operator matrices")
        A, B = mats[i], mats[j]
        eye = np.eye(len(bases))
        case.close(A.T @ B + B @ A.T, eye * (i == j), "anticommutator-ac", "{0} {1}".format(i, j))
        case.close(A @ B + B @ A, 0 * eye, "anticommutator-cc", "{0} {1}".format(i, j))
        case.obs("pairs")
        case.nontrivial(i, j, background)
    if i == 63:
        case.obs("bit 63 used")


def renumbered(case):
    """The same operator objects under several numberings and bases of equal
    length: every answer must belong to the table and basis of its own call."""
    py = case.py
    n = py.randrange(2, 6)
    system = System(case, n)
    systems = [system, system.retable(), system.retable(py.randrange(1, 5)), system.retable(64 - n)]
    ops = {}
    for label in system.labels:
        ops[label] = (system.aoc(label, CREATION), system.aoc(label, ANNIHILATION), system.number(label))
    for step in range(12):
        sy = py.choice(systems)
        bases = fermi.all_bases(n, sy.start)
        label = py.choice(system.labels)
        pos = sy.index[label]
        which = py.randrange(3)
        res = ops[label][which].matrix_repr(sy.table, bases)
        term = [[(pos, CREATION)], [(pos, ANNIHILATION)], [(pos, CREATION), (pos, ANNIHILATION)]][which]
        case.close(dense(res), ref.term_matrix(term, bases), "history", "step {0} bit {1} kind {2}".format(step, pos, which))
        if res.nnz and py.random() < 0.5:
            res.data[:] = 17.0          # results belong to the caller
        case.obs("operator matrices")
        case.obs("signs compared", res.nnz)
        case.obs("index queries", 1)
        case.equal(ops[label][which].getStateIndex(sy.table), pos, "state-index")
        if pos == 63:
            case.obs("bit 63 used")
    case.nontrivial(system.labels)


def large(case):
    """Larger complete bases against the vectorised reference."""
    n = 12 if case.tier == "quick" else case.py.choice([12, 13, 14])
    system = System(case, n)
    bases = HP.base_vectors(n)
    for label in case.py.sample(system.labels, 4):
        pos = system.index[label]
        for otype in (CREATION, ANNIHILATION):
            values, (rows, cols) = system.aoc(label, otype).matrix_repr(system.table, bases, to_csr=False)
            r, c, s = ref.term_entries([(pos, otype)], bases)
            order = np.argsort(cols)
            case.check(np.array_equal(np.asarray(cols)[order], c) and np.array_equal(np.asarray(rows)[order], r),
                       "large-structure", "bit {0}".format(pos))
            case.check(np.array_equal(np.asarray(values)[order], s), "large-sign", "bit {0}".format(pos))
            case.obs("signs compared", len(s))
            case.obs("operator matrices")
    case.nontrivial(system.labels)


SECTIONS = [
    Section("algebra", algebra, 60, 900),
    Section("high-positions", high_positions, 60, 1500),
    Section("position-pairs", position_pairs, 64, 64, fixed=True),
    Section("renumbered", renumbered, 60, 1500),
    Section("large", large, 3, 20),
]
