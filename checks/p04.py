"""P04: operator algebra is mirrored by matrix algebra."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, NumberOperator, ParticleTerm

from vlib import gen, ref
from vlib.fermi import ANNIHILATION, CREATION, System, dense
from vlib import history as past
from vlib.harness import Section

PID = "P04"
RULE = ("random expression trees over creation, annihilation and number operators, (labelled) terms and scalars of "
        "all numeric types with random grouping; the matrix of every node is compared with the product of its "
        "children's reference matrices; non-trivial when the tree has two or more operators and a non-zero matrix")
MUST = {"products compared": 1500, "adjoints compared": 300, "operand snapshots": 1500}
SCALARS = ("int", "float", "complex", "np.float64", "np.int64", "np.complex128", "negative", "narrow")


def snapshot(x):
    if isinstance(x, ParticleTerm):
        return ("T", x.coeff, type(x.coeff), tuple(x.components), x.classification, str(x))
    if isinstance(x, (AoC, NumberOperator)):
        return (type(x).__name__, repr(x), hash(x), x.coordinate, x.spin, x.orbit)
    return ("S", x, type(x))


class Node:
    def __init__(self, obj, mat, text):
        self.obj, self.mat, self.text = obj, mat, text


def leaf(case, system, n, scalar_ok=True):
    py = case.py
    kind = py.randrange(6 if scalar_ok else 5)
    label = py.choice(system.labels)
    pos = system.index[label]
    dim = 1 << n
    bases = range(dim)
    if kind in (0, 1):
        o = py.choice([CREATION, ANNIHILATION])
        return Node(system.aoc(label, o), ref.term_matrix([(pos, o)], bases), "c+" * o + "c" * (1 - o) + str(pos))
    if kind == 2:
        return Node(system.number(label), ref.term_matrix([(pos, CREATION), (pos, ANNIHILATION)], bases), "n{0}".format(pos))
    if kind == 3:
        string = [(py.choice(system.labels), py.choice([CREATION, ANNIHILATION])) for _ in range(py.randrange(1, 4))]
        c = gen.coeff(case, kinds=SCALARS)
        t = ParticleTerm([system.aoc(l, o) for l, o in string], coeff=c)
        return Node(t, ref.term_matrix([(system.index[l], o) for l, o in string], bases, None, complex(c)), "T{0}".format([(system.index[l], o) for l, o in string]))
    if kind == 4:
        other = py.choice(system.labels)
        which = py.choice(["hopping", "number", "Coulomb"])
        if which == "hopping" and other == label:
            which = "number"
        p, q = system.index[label], system.index[other]
        string = {"hopping": [(label, 1), (other, 0)], "number": [(label, 1), (label, 0)],
                  "Coulomb": [(label, 1), (label, 0), (other, 1), (other, 0)]}[which]
        c = gen.coeff(case, kinds=SCALARS)
        t = ParticleTerm([system.aoc(l, o) for l, o in string], coeff=c, classification=which)
        return Node(t, ref.term_matrix([(system.index[l], o) for l, o in string], bases, None, complex(c)), "{0}{1}".format(which, (p, q)))
    c = gen.coeff(case, kinds=SCALARS)
    return Node(c, complex(c) * np.eye(dim), repr(c))


def is_scalar(x):
    return not isinstance(x, (AoC, NumberOperator, ParticleTerm))


def matrix_of(case, node, system, bases):
    return dense(node.obj.matrix_repr(system.table, bases)) if not is_scalar(node.obj) else node.mat


def product(case, x, y, system, bases):
    before = snapshot(x.obj), snapshot(y.obj)
    obj = x.obj * y.obj
    case.equal((snapshot(x.obj), snapshot(y.obj)), before, "operand-changed", "{0} * {1}".format(x.text, y.text))
    case.obs("operand snapshots", 2)
    case.check(isinstance(obj, ParticleTerm), "product-type", "{0} * {1} -> {2!r}".format(x.text, y.text, obj))
    res = Node(obj, x.mat @ y.mat, "({0} * {1})".format(x.text, y.text))
    scale = max(1.0, np.max(np.abs(res.mat)))
    case.close(dense(obj.matrix_repr(system.table, bases)), res.mat, "product", res.text, atol=1e-11 * scale)
    case.obs("products compared")
    return res


def trees(case):
    py = case.py
    n = py.randrange(2, 5)
    system = System(case, n)
    bases = HP.base_vectors(n)
    count = py.randrange(2, 6)
    nodes = [leaf(case, system, n) for _ in range(count)]
    if all(is_scalar(x.obj) for x in nodes):
        nodes[0] = leaf(case, system, n, scalar_ok=False)
    text = " , ".join(x.text for x in nodes)
    case.note(factors=text)
    while len(nodes) > 1:
        ok = [k for k in range(len(nodes) - 1) if not (is_scalar(nodes[k].obj) and is_scalar(nodes[k + 1].obj))]
        k = py.choice(ok)
        nodes[k:k + 2] = [product(case, nodes[k], nodes[k + 1], system, bases)]
        if py.random() < 0.3:
            nodes[k] = adjoint(case, nodes[k], system, bases)
    if np.any(nodes[0].mat) and count > 1:
        case.nontrivial(text)


def adjoint(case, x, system, bases):
    before = snapshot(x.obj)
    d = x.obj.dagger()
    case.equal(snapshot(x.obj), before, "operand-changed", "dagger of " + x.text)
    want = x.mat.conj().T
    scale = max(1.0, np.max(np.abs(want)))
    case.close(dense(d.matrix_repr(system.table, bases)), want, "adjoint", x.text, atol=1e-11 * scale)
    dd = d.dagger()
    case.close(dense(dd.matrix_repr(system.table, bases)), x.mat, "adjoint-twice", x.text, atol=1e-11 * scale)
    if isinstance(x.obj, ParticleTerm):
        case.equal(tuple(dd.components), tuple(x.obj.components), "adjoint-twice", "components of " + x.text)
        case.equal(complex(dd.coeff), complex(x.obj.coeff), "adjoint-twice", "coefficient of " + x.text)
    else:
        case.equal(dd, x.obj, "adjoint-twice", x.text)
    case.obs("adjoints compared")
    return Node(d, want, "adj({0})".format(x.text))


def adjoints(case):
    n = case.py.randrange(1, 5)
    system = System(case, n)
    bases = HP.base_vectors(n)
    x = leaf(case, system, n, scalar_ok=False)
    case.note(operand=x.text)
    y = adjoint(case, x, system, bases)
    # (A B)^+ = B^+ A^+
    z = leaf(case, system, n, scalar_ok=False)
    w = adjoint(case, z, system, bases)
    xz = product(case, x, z, system, bases)
    left = adjoint(case, xz, system, bases)
    right = product(case, w, y, system, bases)
    case.close(left.mat, right.mat, "adjoint-of-product", x.text + z.text, atol=1e-9, rtol=1e-9)
    case.close(dense(left.obj.matrix_repr(system.table, bases)), dense(right.obj.matrix_repr(system.table, bases)),
               "adjoint-of-product", x.text + z.text, atol=1e-11 * max(1, np.max(np.abs(left.mat))))
    case.nontrivial(x.text, z.text)


def grouping(case):
    """All groupings of one sequence give the same operator."""
    py = case.py
    n = py.randrange(2, 5)
    system = System(case, n)
    bases = HP.base_vectors(n)
    factors = [leaf(case, system, n, scalar_ok=False) for _ in range(py.randrange(3, 5))]
    case.note(factors=[f.text for f in factors])

    def ways(lo, hi):
        if hi - lo == 1:
            return [factors[lo].obj]
        res = []
        for mid in range(lo + 1, hi):
            for a in ways(lo, mid):
                for b in ways(mid, hi):
                    res.append(a * b)
        return res

    want = factors[0].mat
    for f in factors[1:]:
        want = want @ f.mat
    results = ways(0, len(factors))
    comps = {tuple(r.components) for r in results}
    case.equal(len(comps), 1, "grouping", "components depend on the grouping")
    for r in results:
        case.close(dense(r.matrix_repr(system.table, bases)), want, "grouping", atol=1e-11 * max(1, np.max(np.abs(want))))
        case.obs("products compared")
    if np.any(want):
        case.nontrivial([f.text for f in factors])


def inplace(case):
    """Augmented assignment must rebind, never change the shared operand."""
    py = case.py
    n = py.randrange(2, 4)
    system = System(case, n)
    bases = HP.base_vectors(n)
    x = leaf(case, system, n, scalar_ok=False)
    y = leaf(case, system, n)
    alias = x.obj
    before = snapshot(alias)
    obj = x.obj
    obj *= y.obj
    case.equal(snapshot(alias), before, "operand-changed", "{0} *= {1}".format(x.text, y.text))
    want = x.mat @ y.mat
    case.close(dense(obj.matrix_repr(system.table, bases)), want, "product", "{0} *= {1}".format(x.text, y.text),
               atol=1e-11 * max(1, np.max(np.abs(want))))
    case.obs("operand snapshots")
    # derived terms are independent of later coefficient changes
    if isinstance(alias, ParticleTerm):
        double, adj = 2 * alias, alias.dagger()
        c2, c3 = double.coeff, adj.coeff
        alias.coeff = 5.0
        case.equal((double.coeff, adj.coeff), (c2, c3), "derived-aliases", x.text)
        case.close(dense(adj.matrix_repr(system.table, bases)), x.mat.conj().T, "derived-aliases", x.text,
                   atol=1e-11 * max(1, np.max(np.abs(x.mat))))
    case.nontrivial(x.text, y.text)


def refused(case):
    """Foreign operands are refused, not silently absorbed."""
    py = case.py
    system = System(case, 2)
    x = leaf(case, system, 2, scalar_ok=False).obj
    bad = py.choice(["text", None, [1, 2], {}, object()])
    case.raises(TypeError, lambda: x * bad, "foreign-operand", repr(bad))
    case.raises(TypeError, lambda: bad * x, "foreign-operand", repr(bad))
    case.raises((AssertionError, TypeError, ValueError), lambda: ParticleTerm([system.aoc(system.labels[0], 1)], coeff="1"), "bad-coefficient")


SECTIONS = [
    past.section(past.term, past.operator, quick=28, thorough=560),
    Section("trees", trees, 700, 30000),
    Section("adjoints", adjoints, 250, 8000),
    Section("grouping", grouping, 150, 5000),
    Section("inplace", inplace, 200, 5000),
    Section("refused", refused, 40, 200),
]
