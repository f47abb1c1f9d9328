"""P05: normal ordering."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, IndexTable, ParticleTerm, StateID
from HamiltonianPy.quantumoperator.particlesystem import SwapFermionError

from vlib import fermi, gen, ref
from vlib.fermi import ANNIHILATION, CREATION, System, dense
from vlib.harness import Section

PID = "P05"
RULE = ("all operator strings of length <= 4 over two states and <= 3 over three states (enumerated), all "
        "permutations of mixed strings of distinct states, random strings up to length 9; the returned order, the "
        "swap parity (independently by counting inversions and by matrices) and the raise decision are compared; "
        "non-trivial when at least one swap or a refusal is needed")
MUST = {"ordered": 1500, "refused": 200, "matrices compared": 1000}


def order_key(state_rank, item):
    """Target position: creators ascending, then annihilators descending."""
    label, otype = item
    return (0, state_rank[label]) if otype == CREATION else (1, -state_rank[label])


def expected(string, rank):
    """(sorted string, parity) or None when an identity operator would arise.

    A creator and an annihilator of the same state have to be exchanged
    exactly when some annihilator stands left of a creator of its state."""
    for i, (l0, o0) in enumerate(string):
        for l1, o1 in string[i + 1:]:
            if l0 == l1 and o0 == ANNIHILATION and o1 == CREATION:
                return None
    keys = [order_key(rank, x) for x in string]
    inversions = sum(1 for i in range(len(keys)) for j in range(i + 1, len(keys)) if keys[i] > keys[j])
    return sorted(string, key=lambda x: order_key(rank, x)), inversions % 2


def judge(case, system, string, container=tuple):
    # rank of the labels: their documented order is site, then spin, then orbit
    rank = {l: r for r, l in enumerate(sorted(system.labels, key=lambda l: (tuple(gen.key4(x) for x in l[0]), l[1], l[2])))}
    aocs = container(system.aoc(l, o) for l, o in string)
    before = list(aocs)
    want = expected(string, rank)
    if want is None:
        try:
            res = ParticleTerm.normalize(aocs)
        except SwapFermionError as exc:
            case.obs("refused")
            case.check(exc.aoc0.same_state(exc.aoc1) and exc.aoc0.otype != exc.aoc1.otype, "error-operators", str(exc))
            case.check(repr(exc.aoc0) in str(exc) and repr(exc.aoc1) in str(exc), "error-operators", str(exc))
        else:
            case.fail("not-refused", "{0} -> {1}".format(string, res))
    else:
        try:
            new, swaps = ParticleTerm.normalize(aocs)
        except SwapFermionError as exc:
            case.fail("refused", "{0}: {1}".format(string, exc))
        target, parity = want
        case.equal(sorted(map(repr, new)), sorted(map(repr, before)), "permutation", string)
        got = [(a.otype, a.state) for a in new]
        expect = [(o, system.aoc(l, o).state) for l, o in target]
        case.equal(got, expect, "order", string)
        case.equal(int(swaps) % 2, parity, "parity", string)
        case.check(int(swaps) >= 0 and int(swaps) == swaps, "parity", "swaps {0}".format(swaps))
        case.obs("ordered")
        # the operator itself
        n = system.n
        if n <= 5:
            bases = HP.base_vectors(n)
            m0 = dense(ParticleTerm(before).matrix_repr(system.table, bases))
            m1 = dense(ParticleTerm(new, coeff=(-1) ** int(swaps)).matrix_repr(system.table, bases))
            case.close(m1, m0, "operator", string)
            case.close(m0, ref.term_matrix([(system.index[l], o) for l, o in string], bases), "operator", string)
            case.obs("matrices compared")
        # already ordered strings are left alone
        again, zero = ParticleTerm.normalize(new)
        case.equal((list(again), int(zero)), (list(new), 0), "idempotent", string)
    case.equal(list(aocs), before, "argument-changed", string)
    return want


_FIXED = None


def enumerated(case):
    """All strings up to length 4 over two states, 3 over three states."""
    global _FIXED
    if _FIXED is None:
        _FIXED = []
        for n, top in ((2, 4), (3, 3)):
            for length in range(0, top + 1):
                for letters in itertools.product(itertools.product(range(n), (0, 1)), repeat=length):
                    _FIXED.append((n, letters))
    step = 10
    systems = {2: System(case, 2), 3: System(case, 3)}
    for k in range(step * case.index, min(step * (case.index + 1), len(_FIXED))):
        n, letters = _FIXED[k]
        if not letters:
            continue
        system = systems[n]
        string = [(system.labels[i], o) for i, o in letters]
        want = judge(case, system, string)
        if want is None or want[1]:
            case.nontrivial(n, letters)
    case.note(string=letters)


def random_strings(case):
    py = case.py
    n = py.randrange(1, 6)
    system = System(case, n)
    length = py.randrange(1, 10)
    string = [(py.choice(system.labels), py.choice([CREATION, ANNIHILATION])) for _ in range(length)]
    if py.random() < 0.5:
        # avoid refusals: every state keeps its creators on the left
        for label in system.labels:
            at = [k for k, (l, _) in enumerate(string) if l == label]
            types = sorted((string[k][1] for k in at), reverse=True)
            for k, o in zip(at, types):
                string[k] = (label, o)
    case.note(string=[(system.index[l], o) for l, o in string])
    want = judge(case, system, string, py.choice([tuple, list]))
    case.peak("longest string", length)
    if want is None or len(string) > 1:
        case.nontrivial(string)


def permutations(case):
    """Permuting an ordered product of distinct states."""
    py = case.py
    n = py.randrange(2, 6)
    system = System(case, n)
    string = [(l, py.choice([CREATION, ANNIHILATION])) for l in system.labels]
    perms = list(itertools.permutations(string))
    for perm in (perms if len(perms) <= 24 else py.sample(perms, 24)):
        judge(case, system, list(perm))
    case.note(string=[(system.index[l], o) for l, o in string])
    case.nontrivial(string)


def many_states(case):
    """Strings over many states, whose order needs coordinates, spins, orbits."""
    py = case.py
    n = py.randrange(6, 15)
    system = System(case, n)
    string = []
    for label in py.sample(system.labels, n):
        types = py.choice([[1], [0], [1, 0]])
        string += [(label, o) for o in types]
    # shuffle but keep the creator of a state left of its annihilator
    order = list(range(len(string)))
    py.shuffle(order)
    shuffled = [string[k] for k in order]
    if py.random() < 0.8:
        for label in system.labels:
            at = [k for k, (l, _) in enumerate(shuffled) if l == label]
            for k, o in zip(at, sorted((shuffled[k][1] for k in at), reverse=True)):
                shuffled[k] = (label, o)
    case.note(n=n, string=[(system.index[l], o) for l, o in shuffled])
    judge(case, system, shuffled)
    case.nontrivial(shuffled)


SECTIONS = [
    Section("enumerated", enumerated, 60, 60, fixed=True),
    Section("random", random_strings, 800, 30000),
    Section("permutations", permutations, 60, 2000),
    Section("many-states", many_states, 150, 5000),
]
