"""P09: spin interactions are ordered products."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import IndexTable, SiteID, SpinInteraction, SpinOperator

from vlib import gen, ref
from vlib import history as past
from vlib.harness import Section

PID = "P09"
RULE = ("interactions of 1..6 operators on arbitrary (repeated, unordered) sites of 1..6 spins with all coefficient "
        "types, expression trees over spin operators, interactions and scalars, adjoints; each matrix compared with "
        "the bit-level product in the given order; non-trivial when two or more operators take part")
MUST = {"interactions compared": 1000, "trees compared": 500, "adjoints compared": 300, "same-site groups": 150}
TYPES = ("x", "y", "z", "p", "m")
SCALARS = ("int", "float", "complex", "np.float64", "np.int64", "np.complex128", "negative", "narrow")


class Spins:
    def __init__(self, case, n):
        self.case = case
        self.n = n
        self.sites = gen.distinct_sites(case.py, n)
        self.table = IndexTable([SiteID(gen.as_container(case.py, s)) for s in self.sites])

    def op(self, k, a):
        return SpinOperator(a, gen.noisy_container(self.case.py, self.sites[k]))

    def dense(self, obj, table=None):
        return np.asarray(obj.matrix_repr(table or self.table).toarray())


def snapshot(x):
    if isinstance(x, SpinInteraction):
        return ("I", x.coeff, type(x.coeff), tuple(x.components), str(x))
    if isinstance(x, SpinOperator):
        return ("O", repr(x), hash(x), x.coordinate, x.otype)
    return ("S", x, type(x))


def tolerance(want):
    return dict(atol=1e-12 * gen.size(np.max(np.abs(want))), rtol=1e-12)


def interactions(case):
    py = case.py
    n = py.randrange(1, 6)
    spins = Spins(case, n)
    m = py.choice([1, 2, 2, 2, 3, 3, 4, 5, 6])
    pool = range(n) if py.random() < 0.6 else py.sample(range(n), min(n, 2))
    string = [(py.choice(pool), py.choice(TYPES)) for _ in range(m)]
    coeff = gen.coeff(case, allow_zero=True)
    case.note(string=string, coeff=coeff, n=n)
    want = ref.spin_product(string, n, complex(coeff))
    ops = [spins.op(k, a) for k, a in string]
    container = py.choice([list, tuple, iter])
    before = [snapshot(o) for o in ops]
    obj = SpinInteraction(container(ops), coeff=coeff)
    case.close(spins.dense(obj), want, "interaction", string, **tolerance(want))
    static = SpinInteraction.matrix_function(py.choice([list, tuple])(string), n, coeff)
    case.close(static.toarray(), want, "matrix-function", string, **tolerance(want))
    adj = obj.dagger()
    case.close(spins.dense(adj), want.conj().T, "adjoint", string, **tolerance(want))
    case.close(spins.dense(adj.dagger()), want, "adjoint-twice", string, **tolerance(want))
    case.close(spins.dense(obj), want, "interaction-again", string, **tolerance(want))
    case.equal([snapshot(o) for o in ops], before, "operand-changed")
    case.equal(sorted(map(repr, obj.components)), sorted(map(repr, ops)), "components")
    # another numbering of the same sites
    order = py.sample(range(n), n)
    table = IndexTable([SiteID(spins.sites[k]) for k in order])
    where = {k: i for i, k in enumerate(order)}
    want2 = ref.spin_product([(where[k], a) for k, a in string], n, complex(coeff))
    case.close(spins.dense(obj, table), want2, "renumbered", string, **tolerance(want2))
    case.obs("interactions compared", 2)
    case.obs("adjoints compared")
    if len({k for k, _ in string}) < len(string):
        case.obs("same-site groups")
    case.peak("operators", m)
    if m > 1:
        case.nontrivial(n, string, coeff)


def two_body(case):
    """Every ordered pair of sites and types of a small system (enumerated)."""
    n = 2 + case.index % 4
    spins = Spins(case, n)
    case.note(n=n, sites=spins.sites)
    coeff = [2, -0.5, 1.5 - 2j, np.float64(3)][case.index % 4]
    for i, j in itertools.product(range(n), repeat=2):
        for a, b in itertools.product(TYPES, repeat=2):
            obj = SpinInteraction((spins.op(i, a), spins.op(j, b)), coeff=coeff)
            want = ref.spin_product([(i, a), (j, b)], n, complex(coeff))
            case.close(spins.dense(obj), want, "two-body", (n, i, a, j, b), atol=1e-13)
            case.close(SpinInteraction.matrix_function([(i, a), (j, b)], n, coeff).toarray(), want, "two-body", (n, i, a, j, b), atol=1e-13)
            case.close(spins.dense(spins.op(i, a) * spins.op(j, b)) * complex(coeff), want, "two-body", (n, i, a, j, b), atol=1e-13)
            case.obs("interactions compared", 3)
            case.nontrivial("two", n, i, a, j, b)


def is_scalar(x):
    return not isinstance(x, (SpinInteraction, SpinOperator))


def trees(case):
    py = case.py
    n = py.randrange(1, 5)
    spins = Spins(case, n)
    count = py.randrange(2, 6)
    nodes = []
    for k in range(count):
        kind = py.randrange(4) if k else py.randrange(2)
        if kind == 0 or kind == 3:
            s, a = py.randrange(n), py.choice(TYPES)
            nodes.append((spins.op(s, a), ref.spin_product([(s, a)], n), "S{0}{1}".format(a, s)))
        elif kind == 1:
            string = [(py.randrange(n), py.choice(TYPES)) for _ in range(py.randrange(1, 4))]
            c = gen.coeff(case, kinds=SCALARS)
            nodes.append((SpinInteraction([spins.op(s, a) for s, a in string], coeff=c), ref.spin_product(string, n, complex(c)), "I{0}".format(string)))
        else:
            c = gen.coeff(case, kinds=SCALARS)
            nodes.append((c, complex(c) * np.eye(1 << n), repr(c)))
    py.shuffle(nodes)
    text = " , ".join(t for _, _, t in nodes)
    case.note(n=n, factors=text)
    while len(nodes) > 1:
        ok = [k for k in range(len(nodes) - 1) if not (is_scalar(nodes[k][0]) and is_scalar(nodes[k + 1][0]))]
        k = py.choice(ok)
        (x, mx, tx), (y, my, ty) = nodes[k], nodes[k + 1]
        before = snapshot(x), snapshot(y)
        z = x * y
        case.equal((snapshot(x), snapshot(y)), before, "operand-changed", "{0} * {1}".format(tx, ty))
        case.check(isinstance(z, SpinInteraction), "product-type", "{0} * {1}".format(tx, ty))
        mz = mx @ my
        case.close(spins.dense(z), mz, "product", "({0} * {1})".format(tx, ty), **tolerance(mz))
        case.obs("trees compared")
        if py.random() < 0.3:
            w = z.dagger()
            case.close(spins.dense(w), mz.conj().T, "adjoint", tx + ty, **tolerance(mz))
            case.close(spins.dense(z), mz, "operand-changed", tx + ty, **tolerance(mz))
            case.obs("adjoints compared")
            z, mz = w, mz.conj().T
        nodes[k:k + 2] = [(z, mz, "({0} * {1})".format(tx, ty))]
    case.nontrivial(text)


def reuse(case):
    """Coefficient changes and numbering changes between evaluations."""
    py = case.py
    n = py.randrange(2, 5)
    spins = Spins(case, n)
    string = [(py.randrange(n), py.choice(TYPES)) for _ in range(py.randrange(1, 4))]
    obj = SpinInteraction([spins.op(k, a) for k, a in string], coeff=1.0)
    case.note(string=string)
    for step in range(5):
        c = gen.coeff(case, allow_zero=True)
        kwargs = {}
        if py.random() < 0.6:
            obj.coeff = c
        else:
            kwargs["coeff"] = c
        order = py.sample(range(n), n)
        table = IndexTable([SiteID(spins.sites[k]) for k in order])
        where = {k: i for i, k in enumerate(order)}
        want = ref.spin_product([(where[k], a) for k, a in string], n, complex(c))
        res = obj.matrix_repr(table, **kwargs)
        case.close(res.toarray(), want, "reuse", "step {0}".format(step), **tolerance(want))
        if res.nnz:
            res.data[:] = 7
        obj.coeff = c
        derived = 2 * obj
        obj.coeff = 9.0
        case.close(spins.dense(derived, table), 2 * want, "derived-aliases", string, **tolerance(want))
        case.obs("interactions compared")
    case.nontrivial(string)


def large(case):
    """Action on vectors in a larger space."""
    n = 9 if case.tier == "quick" else 11
    py = case.py
    spins = Spins(case, n)
    m = py.choice([2, 2, 2, 3, 4])
    string = [(py.randrange(n), py.choice(TYPES)) for _ in range(m)]
    if m == 2:
        i, j = [(0, n - 1), (n - 1, 0), (n - 2, n - 1), (0, 1), (3, 4)][case.index % 5]
        string = [(i, py.choice(TYPES)), (j, py.choice(TYPES))]
    case.note(n=n, string=string)
    obj = SpinInteraction([spins.op(k, a) for k, a in string], coeff=1 - 0.5j)
    v = case.rng.normal(size=1 << n) + 1j * case.rng.normal(size=1 << n)
    want = ref.spin_product(string, n, 1 - 0.5j) @ v
    case.close(obj.matrix_repr(spins.table).dot(v), want, "large", string, atol=1e-11)
    case.obs("interactions compared")
    case.nontrivial(n, string)


def refused(case):
    py = case.py
    spins = Spins(case, 2)
    E = (AssertionError, TypeError, ValueError)
    op = spins.op(0, "x")
    inter = op * op
    bad = py.choice(["a", None, [1], {}, object()])
    case.raises(TypeError, lambda: op * bad, "foreign-operand", repr(bad))
    case.raises(TypeError, lambda: bad * inter, "foreign-operand", repr(bad))
    case.raises(TypeError, lambda: inter * bad, "foreign-operand", repr(bad))
    case.raises(E, lambda: SpinInteraction([op], coeff=py.choice(["1", None, [2]])), "bad-coefficient")
    case.nontrivial(repr(type(bad)))


SECTIONS = [
    past.section(past.interaction, quick=14, thorough=280),
    Section("interactions", interactions, 600, 25000),
    Section("two-body", two_body, 4, 8, fixed=True),
    Section("trees", trees, 300, 12000),
    Section("reuse", reuse, 100, 3000),
    Section("large", large, 10, 40),
    Section("refused", refused, 20, 50),
]
