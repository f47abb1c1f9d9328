"""P29: permutations and combinations."""
import itertools
import math

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.tools.PandC import Combination, Permutation

from vlib.harness import Section

PID = "P29"
RULE = ("all 0 <= k <= n of a range against Pascal's recursion and products of integers, random pairs up to several "
        "thousand against recursions in n and k, small cases against enumeration, and the dimensions of real "
        "particle-number sectors; non-trivial when 0 < k")
MUST = {"pairs": 8000, "beyond 64 bits": 1000, "sectors": 150, "refusals observed": 100, "enumerated": 100}


def table(case):
    """All k <= n for a block of n, against a table built by additions."""
    block = 8
    top = (case.index + 1) * block
    # Pascal: C(n, k) and multisets M(n, k) = M(n - 1, k) + M(n, k - 1)
    row = [1]
    multi = [1] + [0] * top          # M(0, k)
    for n in range(top):
        if n >= top - block:
            perm = 1
            for k in range(n + 1):
                case.equal(Combination(n, k), row[k], "combination", (n, k))
                case.equal(Permutation(n, k), perm, "permutation", (n, k))
                case.equal(Combination(n, k, repeat=True), multi[k], "combination-repeat", (n, k))
                case.equal(Permutation(n, k, repeat=True), n ** k, "permutation-repeat", (n, k))
                for f in (Combination, Permutation):
                    for r in (False, True):
                        case.check(type(f(n, k, r)) is int, "type", (n, k))
                case.obs("pairs")
                if row[k] >> 64:
                    case.obs("beyond 64 bits")
                if k:
                    case.nontrivial(n, k)
                perm *= n - k
        row = [1] + [a + b for a, b in zip(row, row[1:])] + [1]
        for k in range(1, len(multi)):
            multi[k] += multi[k - 1]
    case.note(n=(top - block, top - 1))
    case.peak("n", top - 1)


def large(case):
    py = case.py
    n = py.randrange(1, 400 if case.tier == "quick" else 4000)
    k = py.randrange(1, n + 1)
    case.note(n=n, k=k)
    case.equal(Combination(n, k) * k, Combination(n - 1, k - 1) * n, "absorption", (n, k))
    case.equal(Combination(n, k), Combination(n, n - k), "symmetry", (n, k))
    case.equal(Permutation(n, k), Combination(n, k) * math.factorial(k), "relation", (n, k))
    case.equal(Permutation(n, k), math.prod(range(n - k + 1, n + 1)), "product", (n, k))
    case.equal(Combination(n, k, repeat=True) * math.factorial(k), math.prod(range(n, n + k)), "rising product", (n, k))
    case.equal(Permutation(n, k, repeat=True), n ** k, "power", (n, k))
    case.obs("pairs")
    if Combination(n, k) >> 64:
        case.obs("beyond 64 bits")
    case.peak("n", n)
    case.nontrivial(n, k)


def enumerated(case):
    n = case.index % 7
    k = case.py.randrange(0, n + 1)
    items = range(n)
    case.note(n=n, k=k)
    for f, r, it in ((Permutation, False, itertools.permutations(items, k)),
                     (Permutation, True, itertools.product(items, repeat=k)),
                     (Combination, False, itertools.combinations(items, k)),
                     (Combination, True, itertools.combinations_with_replacement(items, k))):
        case.equal(f(n, k, repeat=r), sum(1 for _ in it), "enumeration", (f.__name__, n, k, r))
        case.obs("enumerated")
    if k:
        case.nontrivial(n, k)


def sectors(case):
    """Dimensions of sectors built by the library."""
    py = case.py
    n = py.randrange(1, 13)
    k = py.randrange(0, n + 1)
    states = py.sample(range(20), n)
    case.note(states=states, k=k)
    bases = HP.base_vectors([states, k])
    case.equal(len(bases), Combination(n, k), "sector", (n, k))
    case.equal(len(np.unique(bases)), len(bases), "sector-unique", (n, k))
    case.equal(len(SimpleHilbertSpace(states, k).base_vectors()), Combination(n, k), "sector", (n, k))
    case.equal(len(HP.base_vectors([states, -1])), Permutation(2, 1) ** n, "sector-all", n)
    cut = py.randrange(0, n)
    if cut:
        a, b = states[:cut], states[cut:]
        i, j = py.randrange(len(a) + 1), py.randrange(len(b) + 1)
        case.equal(len(HilbertSpace([a, i], [b, j]).base_vectors()), Combination(len(a), i) * Combination(len(b), j), "product", (a, i, b, j))
        # Vandermonde, with the sizes of real sectors
        total = sum(len(HP.base_vectors([a, m], [b, k - m])) for m in range(k + 1) if m <= len(a) and 0 <= k - m <= len(b))
        case.equal(total, Combination(n, k), "vandermonde", (n, k))
    case.obs("sectors")
    if k:
        case.nontrivial(n, k, cut)


def refused(case):
    py = case.py
    n = py.randrange(0, 50)
    bad = [(n, n + py.randrange(1, 5)), (-py.randrange(1, 9), 0), (n, -py.randrange(1, 9)), (float(n), 0), (n, 0.0), (n + 0.5, 1),
           (str(n), 0), (None, 0), (n, None)]
    for f in (Permutation, Combination):
        for args in bad:
            for r in (False, True):
                case.raises((AssertionError, ValueError, TypeError), lambda: f(*args, repeat=r), "accepted", (f.__name__, args, r))
    case.nontrivial(n)


SECTIONS = [
    Section("table", table, 20, 90, fixed=True),
    Section("large", large, 300, 4000),
    Section("enumerated", enumerated, 60, 300),
    Section("sectors", sectors, 200, 3000),
    Section("refused", refused, 10, 60),
]
