"""P07: occupation bases."""
import itertools

import numpy as np

from HamiltonianPy import hilbertspace
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace, base_vectors

from vlib import ref
from vlib import history as past
from vlib.harness import Section

PID = "P07"
RULE = ("random lists of disjoint subspace specifiers in every notation (integer, integer with number, lists, tuples "
        "and sets of states, negative numbers meaning no constraint) compared with a brute-force filter of all "
        "occupation patterns, and one-attribute-wrong specifiers that must be refused; non-trivial when the basis "
        "has more than one ket")
ASSUMPTIONS = ["state indices below 64 (uint64 kets)"]
MUST = {"kets compared": 20000, "entry points compared": 600, "refusals observed": 300}
E = (ValueError, AssertionError, TypeError)


def partition(py, k, top):
    """k disjoint non-empty groups of states."""
    sizes = [py.randrange(1, 5) for _ in range(k)]
    pool = py.sample(range(top), sum(sizes))
    res = []
    for s in sizes:
        res.append(pool[:s])
        pool = pool[s:]
    return res


def notation(py, states, number):
    """The specifier (states, number) in one of its notations."""
    container = py.choice([list, tuple, set])
    outer = py.choice([list, tuple])
    return outer([container(states), number])


def verify(case, specs, want, entry):
    """All containers and sort settings of one entry point."""
    arr = entry(container="array", sort=True)
    case.check(isinstance(arr, np.ndarray) and arr.dtype == np.uint64 and arr.ndim == 1, "array-form", "{0}".format(type(arr)))
    case.equal([int(x) for x in arr], want, "basis", "{0}".format(specs))
    lst = entry(container="list")
    case.check(type(lst) is list, "list-form")
    case.equal([int(x) for x in lst], want, "basis-list", "{0}".format(specs))
    tup = entry(container="tuple", sort=True)
    case.check(type(tup) is tuple, "tuple-form")
    case.equal([int(x) for x in tup], want, "basis-tuple", "{0}".format(specs))
    default = entry()
    case.check(isinstance(default, np.ndarray) and np.array_equal(default, arr), "defaults", "{0}".format(specs))
    free = entry(sort=False, container=case.py.choice(["array", "list", "tuple"]))
    case.equal(sorted(int(x) for x in free), want, "unsorted", "{0}".format(specs))
    case.obs("kets compared", 5 * len(want))
    # a returned basis belongs to the caller
    if len(want):
        arr[:] = 0
        lst.append(5)
        case.equal([int(x) for x in entry(sort=True)], want, "basis-aliased", "{0}".format(specs))
        case.equal([int(x) for x in entry(container="list", sort=True)], want, "basis-aliased", "{0}".format(specs))
    case.obs("entry points compared")


def brute(spaces):
    return ref.occupation_patterns(spaces)


def general(case):
    py = case.py
    k = py.randrange(1, 4)
    top = py.choice([sum([4] * k), 16, 40, 64])
    groups = partition(py, k, max(top, 4 * k))
    spaces, specs = [], []
    for g in groups:
        number = py.choice([-1, -1, -3, 0, len(g)] + list(range(len(g) + 1)))
        spaces.append((g, number))
        specs.append(notation(py, g, number))
    if k == 1 and py.random() < 0.5:
        n = py.randrange(1, 9)
        if py.random() < 0.5:
            spaces, specs = [(list(range(n)), -1)], [n]
        else:
            number = py.choice([-1, -2] + list(range(n + 1)))
            spaces, specs = [(list(range(n)), number)], [py.choice([list, tuple])([n, number])]
    elif py.random() < 0.3:
        # an integer specifier next to disjoint higher states
        n = py.randrange(1, 4)
        spaces[0], specs[0] = (list(range(n)), -1), n
        shift = n
        for i in range(1, k):
            g = [s + shift for s in groups[i]]
            if max(g) > 63:
                raise_over = True
                g = list(range(shift, shift + len(groups[i])))
                shift += len(g)
            number = spaces[i][1]
            spaces[i] = (g, number)
            specs[i] = notation(py, g, number)
        union = [s for g, _ in spaces for s in g]
        if len(set(union)) != len(union):
            return
    py_specs = repr(specs)
    case.note(specs=specs)
    want = brute(spaces)
    verify(case, specs, want, lambda **kw: base_vectors(*specs, **kw))
    hs = HilbertSpace(*specs)
    verify(case, specs, want, hs.base_vectors)
    verify(case, specs, want, hs)
    case.equal(hs.subspace_number, len(specs), "subspace-number")
    if k == 1:
        states, number = spaces[0]
        container = py.choice([list, tuple, set])
        arg = len(states) if states == list(range(len(states))) and py.random() < 0.5 else container(states)
        shs = SimpleHilbertSpace(arg, number)
        verify(case, (arg, number), want, shs.base_vectors)
        verify(case, (arg, number), want, shs)
        case.equal((sorted(shs.single_particle_states), shs.state_number), (sorted(states), len(states)), "attributes")
        case.equal(shs.particle_number < 0 if number < 0 else shs.particle_number, True if number < 0 else number, "attributes")
        if number == -1:
            verify(case, (arg,), want, SimpleHilbertSpace(arg).base_vectors)
    # numbers of the constrained subspaces are multiplied
    size = 1
    for states, number in spaces:
        size *= 2 ** len(states) if number < 0 else ref.pascal(len(states), number)
    case.equal(len(want), size, "reference")
    case.equal(repr(specs), py_specs, "specifier-changed")
    # the space keeps its states when the caller goes on using his containers
    simple = SimpleHilbertSpace(own := py.choice([list, set])(spaces[0][0]), spaces[0][1])
    for used in [own] + [part for spec in specs if isinstance(spec, (list, tuple)) for part in (spec[0], spec)]:
        if isinstance(used, (list, set)):
            used.clear()
    case.equal([int(x) for x in hs()], want, "specifier-aliased", py_specs)
    case.equal([int(x) for x in simple()], brute(spaces[:1]), "specifier-aliased", py_specs)
    case.equal(sorted(simple.single_particle_states), sorted(spaces[0][0]), "specifier-aliased", py_specs)
    case.peak("largest state", max(s for g, _ in spaces for s in g))
    case.peak("largest basis", len(want))
    if len(want) > 1:
        case.nontrivial(repr(sorted((sorted(g), n) for g, n in spaces)))


def order_free(case):
    """Neither the order of the subspaces nor of their states matters."""
    py = case.py
    groups = partition(py, py.randrange(2, 4), py.choice([12, 30, 64]))
    spaces = [(g, py.choice([-1] + list(range(len(g) + 1)))) for g in groups]
    ref_arr = base_vectors(*[[g, n] for g, n in spaces])
    shuffled = [[py.sample(g, len(g)), n] for g, n in py.sample(spaces, len(spaces))]
    case.note(spaces=spaces)
    case.check(np.array_equal(base_vectors(*shuffled), ref_arr), "order-dependence", spaces)
    case.check(np.array_equal(HilbertSpace(*shuffled).base_vectors(), ref_arr), "order-dependence", spaces)
    case.check(np.all(ref_arr[1:] > ref_arr[:-1]), "ascending", spaces)
    case.equal([int(x) for x in ref_arr], brute(spaces), "basis", spaces)
    case.obs("kets compared", len(ref_arr))
    case.nontrivial(repr(spaces))


def many_states(case):
    """Few particles or holes in up to 64 states."""
    py = case.py
    n = py.randrange(20, 65)
    number = py.choice([0, 1, 2, n - 1, n, n - 2])
    states = py.sample(range(64), n)
    case.note(n=n, number=number)
    arr = base_vectors([states, number])
    want = sorted(ref.subset_patterns(states, number))
    case.equal([int(x) for x in arr], want, "basis", (n, number))
    case.check(np.array_equal(SimpleHilbertSpace(states, number)(), arr), "entry-points")
    case.check(np.array_equal(HilbertSpace([states, number])(), arr), "entry-points")
    case.equal(len(set(int(x) for x in arr)), ref.pascal(n, number), "dimension")
    case.obs("kets compared", len(arr))
    case.nontrivial(n, number, sorted(states))


def full_large(case):
    n = 15 if case.tier == "quick" else 18
    arr = base_vectors(n)
    case.check(np.array_equal(arr, np.arange(1 << n, dtype=np.uint64)), "complete", n)
    weights = ref.popcount(arr)
    total = 0
    for number in range(n + 1):
        sector = base_vectors([n, number])
        case.check(np.array_equal(sector, arr[weights == number]), "sector", (n, number))
        total += len(sector)
    case.equal(total, 1 << n, "sectors-sum")
    case.obs("kets compared", 2 << n)
    case.note(n=n)
    case.nontrivial(n)


def refusals(case):
    py = case.py
    groups = partition(py, 2, 20)
    good = [[g, py.choice([-1, 0, 1])] for g in groups]
    case.note(good=good)
    base_vectors(*good)
    HilbertSpace(*good)

    # the predicate of valid specifiers, where there is one, decides alike
    predicate = getattr(hilbertspace, "is_valid_subspace_specifier", None)

    def verdict(specs, want):
        if predicate is not None:
            got = [bool(predicate(s)) for s in specs]
            case.check(all(got) == want, "predicate", (specs, got))

    verdict(good + [py.randrange(1, 9), 1, [n0 := py.randrange(1, 6), py.randrange(-1, n0 + 1)]], True)

    def both(specs, mech):
        if len(specs) == 1:
            verdict(specs, False)
        case.raises(E, lambda: base_vectors(*specs), mech + "/function", specs)
        case.raises(E, lambda: HilbertSpace(*specs), mech + "/class", specs)

    # overlap, also when only one state is shared or an integer overlaps
    extra = [groups[0][-1:] + [60], py.choice([-1, 0, 1, 2])]
    both(py.sample(good + [extra], 3), "overlap")
    both([max(groups[0]) + 1, [groups[0], -1]], "overlap")
    both([[groups[0], 1], [groups[0], 1]], "overlap")
    # duplicates inside one subspace
    dup = groups[0] + [py.choice(groups[0])]
    py.shuffle(dup)
    both([[py.choice([list, tuple])(dup), py.choice([-1, 0, 1])]], "duplicate-state")
    case.raises(E, lambda: SimpleHilbertSpace(dup, 1), "duplicate-state/simple", dup)
    # negative states
    neg = list(groups[1])
    neg[py.randrange(len(neg))] = -py.randrange(1, 5)
    both([[neg, 1]], "negative-state")
    case.raises(E, lambda: SimpleHilbertSpace(neg, 1), "negative-state/simple", neg)
    # impossible particle numbers
    n = py.randrange(1, 6)
    both([[n, n + py.randrange(1, 4)]], "too-many-particles")
    both([[groups[1], len(groups[1]) + 1]], "too-many-particles")
    both([good[0], [groups[1], len(groups[1]) + 1]], "too-many-particles")
    case.raises(E, lambda: SimpleHilbertSpace(n, n + 1), "too-many-particles/simple", n)
    case.raises(E, lambda: SimpleHilbertSpace(groups[1], len(groups[1]) + 1), "too-many-particles/simple", groups[1])
    # malformed
    bad = py.choice([0, -1, -5, "ab", None, 2.0, [], [3], [3, 1, 1], [[], 0], [[], -1], [0, 0], [-2, -1], [["a"], 1], [[1.5], 1]])
    both([bad], "malformed")
    case.raises(E, lambda: SimpleHilbertSpace(py.choice([0, -1, [], "a", 2.0, [-1], [0.5], None])), "malformed/simple")
    case.raises(E, lambda: SimpleHilbertSpace(3, py.choice([1.0, "1", None, 4])), "malformed/simple")
    case.raises(E, lambda: base_vectors(3, container=py.choice(["set", "", None, "Array"])), "container")
    case.nontrivial(groups, bad)


SECTIONS = [
    past.section(past.space, quick=14, thorough=280),
    Section("general", general, 500, 15000),
    Section("order-free", order_free, 200, 5000),
    Section("many-states", many_states, 60, 1500),
    Section("full-large", full_large, 1, 1, fixed=True),
    Section("refusals", refusals, 40, 1000),
]
