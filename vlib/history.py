"""
Objects of every class with a list of fine-grained queries, each with its own
combination of options.  The answer of a fresh object to one query is compared
with the answer of an object that went through a random history of queries.
"""
import numpy as np
import scipy.sparse as sp

import HamiltonianPy as HP
from HamiltonianPy import (AoC, Bond, IndexTable, Lattice, Line2D, NumberOperator, ParticleTerm, SiteID, SpinInteraction,
                           SpinOperator, StateID)
from HamiltonianPy.averages import TotalSpinAverages
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.polygon import Polygon

from vlib import gen
from vlib.harness import Section
from vlib.world import abuse, canon, same


class Like:
    def __init__(self, case):
        self.py, self.rng = case.py, case.rng


def call(method, *args, **kwargs):
    """(name, query) for one method with these arguments."""
    name = "{0}({1})".format(method, ", ".join([repr(a)[:30] for a in args] + ["{0}={1}".format(k, repr(v)[:30]) for k, v in kwargs.items()]))
    return name, lambda obj: getattr(obj, method)(*args, **kwargs)


def attr(name):
    return name, lambda obj: getattr(obj, name)


def bonds_in_order(bonds):
    return sorted(bonds, key=lambda b: tuple(np.round(np.concatenate(b.endpoints), 5)))


def bond(case):
    py = case.py
    dim = py.choice([1, 2, 3])
    a, b = gen.distinct_sites(py, 2, dim)
    if py.random() < 0.7:
        a, b = [tuple(py.uniform(-9, 9) for _ in range(dim)) for _ in range(2)]
    directional = py.random() < 0.8
    other, reverse = Bond(b, a), Bond(a, b, directional=False)
    queries = [attr("endpoints"), attr("directional"), ("repr", repr), ("str", str), ("hash", hash),
               ("equal", lambda o: (o == other, o != other, o == reverse, o == Bond(a, b, directional=directional)))]
    queries += [call("getLength", *d) for d in ((), (None,), (0,), (1,), (3,), (6,))]
    queries += [call("getDisplace", *d) for d in ((), (0,), (2,), (5,))]
    queries += [call("getAzimuth", radian=r, ndigits=d) for r in (False, True) for d in (None, 0, 1, 4)]
    queries += [("flip", lambda o: o.flip()), ("flip.getLength", lambda o: o.flip().getLength()),
                ("flip.getAzimuth", lambda o: o.flip().getAzimuth(ndigits=3)), call("oppositeTo", other)]
    return lambda: Bond(a, b, directional=directional), queries


def tables(case, labels):
    """Index tables of the same states (sites) in different orders."""
    py = case.py
    res = []
    for start in (0, 0, 0):
        chosen = labels[:]
        py.shuffle(chosen)
        res.append((IndexTable([StateID(*l) for l in chosen], start=start),
                    IndexTable(dict.fromkeys(SiteID(l[0]) for l in chosen), start=start),
                    IndexTable([SpinOperator("z", s) for s in dict.fromkeys(l[0] for l in chosen)])))
    return res


def latex(pairs, spin=True):
    options = [{}, {"ndigits": 0}, {"ndigits": 1}, {"ndigits": 4}] + [{"site_index": t[1]} for t in pairs] + [{"site_index": 4}]
    if spin:
        options += [{"spin_one_half": False}, {"suppress_orbit": False}, {"spin_one_half": False, "suppress_orbit": False, "ndigits": 2}]
    return [call("tolatex", **o) for o in options]


def matrices(case, count, pairs, method="matrix_repr", left=True, coeff=False):
    py = case.py
    full = np.arange(1 << count, dtype=np.uint64)
    flipped = np.sort(np.array(py.sample(range(1 << count), max(1, (1 << count) // 2)), dtype=np.uint64))
    queries = []
    for k, (states, _, _) in enumerate(pairs):
        for to_csr in (True, False):
            queries.append(("matrix table {0} csr {1}".format(k, to_csr), lambda o, t=states, c=to_csr: o.matrix_repr(t, full, to_csr=c)))
        if left:
            queries.append(("matrix left {0}".format(k), lambda o, t=states: o.matrix_repr(t, flipped, left_bases=full)))
            queries.append(("entries left {0}".format(k), lambda o, t=states: o.matrix_repr(t, flipped, left_bases=full, to_csr=False)))
    return queries


def labels_of(case, n):
    return gen.state_labels(case.py, n)


def operator(case):
    py = case.py
    labels = labels_of(case, py.randrange(2, 5))
    pairs = tables(case, labels)
    label, other = labels[0], labels[1]
    kind = py.choice(["state", "aoc", "aoc", "number", "site"])
    queries = [attr("coordinate"), attr("site"), ("repr", repr), ("str", str), ("hash", lambda o: hash(o) == hash(make()))]
    queries += latex(pairs)
    otype = py.choice([HP.CREATION, HP.ANNIHILATION])
    if kind == "site":
        make = lambda: SiteID(label[0])
        queries += [("index {0}".format(k), lambda o, t=t: o.getIndex(t[1])) for k, t in enumerate(pairs)]
        mate = SiteID(other[0])
    elif kind == "state":
        make = lambda: StateID(*label)
        queries += [("index {0}".format(k), lambda o, t=t: o.getIndex(t[0])) for k, t in enumerate(pairs)]
        queries += [attr("spin"), attr("orbit")]
        mate = StateID(*other)
    else:
        queries += [attr("spin"), attr("orbit"), attr("state")]
        queries += [("index {0}".format(k), lambda o, t=t: o.getStateIndex(t[0])) for k, t in enumerate(pairs)]
        queries += [call("derive", spin=s) for s in (0, 1, 5)] + [call("derive", orbit=s) for s in (0, 7)]
        queries += [call("derive", site=(9, 9)), call("derive"), call("dagger")]
        queries += [("times", lambda o: o * 2), ("times left", lambda o: 2.5 * o), ("times complex", lambda o: o * 1j)]
        if kind == "aoc":
            make = lambda: AoC(otype, *label)
            queries += [attr("otype"), call("derive", otype=HP.CREATION), call("derive", otype=HP.ANNIHILATION)]
            mate = AoC(HP.CREATION, *other)
            queries += [call("conjugate_of", mate), call("same_state", mate), ("product", lambda o: o * mate)]
            queries += matrices(case, len(labels), pairs)
        else:
            make = lambda: NumberOperator(*label)
            mate = NumberOperator(*other)
            queries += [call("toterm"), ("product", lambda o: o * o)]
            queries += matrices(case, len(labels), pairs, left=False)
    queries += [("order", lambda o: (o < mate, o <= mate, o > mate, o >= mate, o == mate, o != mate, o == make()))]
    return make, queries


def spin_operator(case):
    py = case.py
    labels = [(s, 0, 0) for s in gen.distinct_sites(py, py.randrange(2, 5))]
    pairs = tables(case, labels)
    a = py.choice("xyzpm")
    make = lambda: SpinOperator(a, labels[0][0])
    mate = SpinOperator(py.choice("xyzpm"), labels[1][0])
    queries = [attr("coordinate"), attr("site"), attr("otype"), attr("site_id"), ("repr", repr), call("matrix"), call("dagger"), call("Schwinger"),
               call("derive", otype="z"), call("derive", site=(3, 3)), call("same_site", mate), call("conjugate_of", mate),
               ("times", lambda o: o * 2), ("times left", lambda o: 2.5 * o), ("product", lambda o: o * mate),
               ("order", lambda o: (o < mate, o <= mate, o > mate, o >= mate, o == mate, o != mate, o == make()))]
    queries += latex(pairs, spin=False)
    queries += [("matrix {0}".format(k), lambda o, t=t: o.matrix_repr(t[1])) for k, t in enumerate(pairs)]
    small = IndexTable([SiteID(labels[0][0])])
    queries += [("matrix alone", lambda o: o.matrix_repr(small)), ("index alone", lambda o: o.getSiteIndex(small))]
    queries += [("index {0}".format(k), lambda o, t=t: o.getSiteIndex(t[1])) for k, t in enumerate(pairs)]
    return make, queries


def term(case):
    py = case.py
    labels = labels_of(case, py.randrange(2, 5))
    pairs = tables(case, labels)
    i, j = labels[:2]
    C, A = HP.CREATION, HP.ANNIHILATION
    aocs, classification = py.choice([([AoC(C, *i), AoC(A, *j)], "hopping"), ([AoC(C, *i), AoC(A, *i)], "number"),
                                      ([AoC(C, *i), AoC(A, *i), AoC(C, *j), AoC(A, *j)], "Coulomb"),
                                      ([AoC(py.choice([C, A]), *py.choice(labels)) for _ in range(py.randrange(1, 5))], "general")])
    make = lambda: ParticleTerm(aocs, coeff=1.5, classification=classification)
    mate = AoC(C, *j)
    queries = [attr("coeff"), attr("components"), attr("classification"), ("str", str), call("check_compatibility"), call("dagger"),
               ("times", lambda o: o * 2), ("times left", lambda o: 1j * o), ("square", lambda o: o * o), ("product", lambda o: o * mate),
               ("product left", lambda o: mate * o), ("twice dagger", lambda o: o.dagger().dagger())]
    queries += [("latex table {0}".format(k), lambda o, t=t: o.tolatex(t[1])) for k, t in enumerate(pairs)]
    queries += [call("tolatex", **o) for o in ({}, {"ndigits": 1}, {"suppress_orbit": False}, {"spin_one_half": False})]
    queries += matrices(case, len(labels), pairs)
    return make, queries


def interaction(case):
    py = case.py
    sites = gen.distinct_sites(py, py.randrange(2, 5))
    pairs = tables(case, [(s, 0, 0) for s in sites])
    ops = [SpinOperator(py.choice("xyzpm"), s) for s in py.sample(sites, py.randrange(1, len(sites) + 1))]
    if py.random() < 0.3:
        ops.append(SpinOperator(py.choice("xyzpm"), sites[0]))
    make = lambda: SpinInteraction(ops, coeff=1.5)
    mate = SpinOperator("p", sites[0])
    queries = [attr("coeff"), attr("components"), ("str", str), call("dagger"), call("Schwinger"),
               ("times", lambda o: o * 2), ("times left", lambda o: 1j * o), ("square", lambda o: o * o), ("product", lambda o: o * mate),
               ("product left", lambda o: mate * o), ("twice dagger", lambda o: o.dagger().dagger())]
    queries += [("latex table {0}".format(k), lambda o, t=t: o.tolatex(t[1])) for k, t in enumerate(pairs)]
    queries += [call("tolatex", ndigits=d) for d in (0, 1, 4)]
    queries += [("matrix {0}".format(k), lambda o, t=t: o.matrix_repr(t[1])) for k, t in enumerate(pairs)]
    return make, queries


def space(case):
    py = case.py
    n = py.randrange(2, 7)
    states = py.sample(range(9), n)
    number, cut = py.randrange(-1, n + 1), py.randrange(1, n)
    if py.random() < 0.5:
        make = lambda: SimpleHilbertSpace(states, number)
        queries = [attr("single_particle_states"), attr("state_number"), attr("particle_number")]
    else:
        p, q = py.randrange(-1, cut + 1), py.randrange(-1, n - cut + 1)
        make = lambda: HilbertSpace((states[:cut], p), (states[cut:], q))
        queries = [attr("subspace_number"), attr("subspace_specifiers")]
    queries += [call(m, container=c, sort=s) for m in ("base_vectors", "__call__") for c in ("list", "tuple", "array") for s in (True, False)]
    queries += [call("base_vectors"), ("repr", repr), ("str", str)]
    return make, queries


def table(case):
    py = case.py
    labels = labels_of(case, py.randrange(2, 7))
    states = [StateID(*l) for l in labels]
    start = py.choice([0, 1, -3])
    queries = [attr("object_type"), ("len", len), ("str", str), ("items", list), ("objects", lambda o: list(o.objects())),
               ("indices", lambda o: list(o.indices()))]
    for k, l in enumerate(labels):
        queries += [("index {0}".format(k), lambda o, l=l: o(StateID(*l))), ("object {0}".format(k), lambda o, k=k: o.query_object(start + k)),
                    ("same object {0}".format(k), lambda o, k=k: o.query_index(states[k]))]
    queries += [("missing", lambda o: o(StateID((99, 99)))), ("beyond", lambda o: o.query_object(start + len(labels))),
                ("before", lambda o: o.query_object(start - 1)), ("other type", lambda o: o(SiteID((0,)))), ("float", lambda o: o.query_object(1.5))]
    return lambda: IndexTable(states, start=start), queries


def lattice(case):
    py = case.py
    if py.random() < 0.7:
        points, vectors = gen.random_lattice_data(Like(case), max_points=4)
        make = lambda: Lattice(points, vectors, "name")
    else:
        kind, n0 = py.choice(gen.LATTICE_NAMES[:5]), py.randrange(1, 3)
        make = lambda: HP.lattice_generator(kind, n0, py2 if kind != "chain" else 1)
        py2 = py.randrange(1, 3)
    lat = make()
    points, vectors = lat.points, lat.vectors
    queries = [attr(a) for a in ("points", "vectors", "bs", "point_num", "space_dim", "trans_dim", "name")] + [("str", str)]
    queries += [call("neighbor_distance", n) for n in range(6)]
    small = len(points) <= 4
    for n in range(4 if small else 2):
        for only in (True, False):
            for fold in (False, True):
                def q(o, n=n, only=only, fold=fold):
                    intra, inter = o.bonds(n, only=only, fold=fold)
                    return bonds_in_order(intra), None if inter is None else bonds_in_order(inter)
                queries.append(("bonds {0} {1} {2}".format(n, only, fold), q))
    for k in range(min(3, len(points))):
        for reach in (1, 2, 5):
            far = points[k] + np.array([py.randrange(-reach, reach + 1) for _ in vectors]) @ vectors
            queries += [("fold {0}".format(far), lambda o, f=far: o.getIndex(f.copy(), fold=True)), ("decompose {0}".format(far), lambda o, f=far: o.decompose(f.copy())),
                        ("index {0}".format(far), lambda o, f=far: o.getIndex(f.copy())), ("in {0}".format(far), lambda o, f=far: bool(o.in_cluster(f.copy())))]
        queries += [call("getSite", k)]
    off = points[0] + 0.0371
    queries += [("off", lambda o: o.getIndex(off.copy())), ("off fold", lambda o: o.decompose(off.copy())), ("off in", lambda o: bool(o.in_cluster(off.copy())))]
    return make, queries


def line(case):
    py = case.py
    a, b = [tuple(py.choice([0, 1, 2.5, -1, py.uniform(-3, 3)]) for _ in range(2)) for _ in range(2)]
    if a == b:
        b = (b[0] + 1, b[1])
    queries = [attr("IsHorizontal"), attr("IsVertical"), ("repr", repr), ("str", str), ("points", lambda o: o.PointsFactory())]
    queries += [("points {0}".format(r), lambda o, r=r: o.PointsFactory(list(r))) for r in ((0.0, 1.0), (0.5,), (-1.0, 0.25, 3.0))]
    for p in [a, b, (0, 0), (1.0, 1.0), (py.uniform(-3, 3), py.uniform(-3, 3)), ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2 + 1e-4)]:
        queries += [call("LocationRelation", p, tol=t) for t in (1e-10, 1e-3, 0.5)] + [call("LocationRelation", p)]
    queries += [call(m, v, w) for m in ("Coordinate", "__call__") for v in (0, 0.5, -2.0) for w in ("x", "y")]
    return lambda: Line2D(a, b), queries


def polygon(case):
    py = case.py
    v = np.array([[0, 0], [2, 0], [2.5, 1], [1, 2], [-1, 1.5]]) * py.uniform(0.5, 2)
    middle = v.mean(axis=0)
    queries = [attr("vertices"), attr("vertices_num")]
    for k in range(8):
        p = [v[0], (v[0] + v[1]) / 2, middle, v[2] + 1e-4, (v[1] + v[2]) / 2 + 1e-4][k] if k < 5 else case.rng.uniform(-2, 4, size=2)
        queries += [("relation {0} {1} {2}".format(k, t, r), lambda o, p=p, t=t, r=r: o.LocationRelation(tuple(p), tuple([middle, (v[0] + middle) / 2][r]), tol=t))
                    for t in (1e-10, 1e-3) for r in (0, 1)]
    return lambda: Polygon(v), queries


def averages(case):
    n = case.py.randrange(1, 5)
    kets = [case.rng.normal(size=1 << n) + 1j * case.rng.normal(size=1 << n) * (k % 2) for k in range(6)]
    queries = [("ket {0}".format(k), lambda o, v=v: o(v)) for k, v in enumerate(kets)]
    queries += [("ket again {0}".format(k), lambda o, v=v: o(2.5 * v)) for k, v in enumerate(kets)]
    return lambda: TotalSpinAverages(n), queries


KINDS = [bond, operator, operator, spin_operator, term, term, interaction, space, table, lattice, lattice, line, polygon, averages]


# ------------------------------------------------- requests to the factories
def requests(case):
    """(name, request) of functions that give new objects."""
    py = case.py
    s0, s1 = gen.distinct_sites(py, 2, py.choice([1, 2, 3]))
    c = py.choice([1, 2.0, -0.5, 1j])
    spins, orbits = [py.randrange(2) for _ in range(2)], [py.randrange(3) for _ in range(2)]
    both = dict(spin0=spins[0], spin1=spins[1], orbit0=orbits[0], orbit1=orbits[1], coeff=c)
    name, n0, n1 = py.choice(gen.LATTICE_NAMES[:5]), py.randrange(1, 4), py.randrange(1, 3)
    special = py.choice(["cross", "z", "s", "star", "benzene", "diphenyl"])
    op = SpinOperator(py.choice("xyzpm"), s0)
    pair = SpinInteraction([SpinOperator("x", s0), SpinOperator("z", s1)], coeff=c)
    number = NumberOperator(s0, spins[0], orbits[0])
    aoc = AoC(HP.CREATION, s0, spins[0], orbits[0])
    hop = ParticleTerm([aoc, AoC(HP.ANNIHILATION, s1, spins[1], orbits[1])], coeff=c)
    return [
        ("CPFactory", lambda: HP.CPFactory(s0, spin=spins[0], orbit=orbits[0], coeff=c)),
        ("HoppingFactory", lambda: HP.HoppingFactory(s0, s1, **both)),
        ("PairingFactory", lambda: HP.PairingFactory(s0, s1, **both)),
        ("HubbardFactory", lambda: HP.HubbardFactory(s0, orbit=orbits[0], coeff=c)),
        ("CoulombFactory", lambda: HP.CoulombFactory(s0, s1, **both)),
        ("HeisenbergFactory", lambda: HP.HeisenbergFactory(s0, s1, coeff=c)),
        ("IsingFactory", lambda: HP.IsingFactory(s0, s1, "z", coeff=c)),
        ("TwoSpinTermFactory", lambda: HP.TwoSpinTermFactory(s0, s1, "x", "y", coeff=c)),
        ("lattice_generator", lambda: HP.lattice_generator(name, n0, n1 if name != "chain" else 1)),
        ("special_cluster", lambda: HP.special_cluster(special)),
        ("toterm", lambda: number.toterm()), ("Schwinger", lambda: op.Schwinger()), ("pair.Schwinger", lambda: pair.Schwinger()),
        ("pair.dagger", lambda: pair.dagger()), ("pair.times", lambda: pair * 2), ("pair.one", lambda: pair * 1), ("pair.one left", lambda: 1 * pair),
        ("aoc.times", lambda: aoc * 2), ("aoc.product", lambda: aoc * aoc.dagger()), ("hop.dagger", lambda: hop.dagger()),
        ("hop.one", lambda: hop * 1), ("hop.one left", lambda: 1.0 * hop), ("hop.product", lambda: hop * aoc), ("product.hop", lambda: aoc * hop),
        ("spin.times", lambda: op * 2), ("spin.product", lambda: op * op), ("number.times", lambda: 2 * number), ("hop.twice", lambda: hop.dagger().dagger()),
        ("hop.same", lambda: hop), ("pair.same", lambda: pair),
    ]


def change(x):
    """Use the public setters of an object that was handed out."""
    if isinstance(x, (ParticleTerm, SpinInteraction)):
        x.coeff = 7.75
        return 1
    if isinstance(x, Lattice):
        x.name = "changed"
        return 1
    if isinstance(x, (list, tuple)):
        return sum(change(y) for y in x)
    return 0


def past(case, kind):
    """An object that has been asked before answers like a fresh one."""
    py = case.py
    make, queries = kind(case)
    case.note(kind=kind.__name__, queries=len(queries))
    setters = kind in (term, interaction)
    current = 1.5

    def ask(obj, query):
        try:
            return query(obj)
        except Exception as err:
            return "raised", type(err).__name__
    want, known = {}, set()
    obj, trail = make(), []
    for step in range(py.randrange(30, 90)):
        k = py.randrange(len(queries)) if not trail or py.random() < 0.7 else py.choice(trail[-4:])
        if setters and py.random() < 0.15:
            current = py.choice([1.5, -2, 0.25, 1j, 0])
            obj.coeff = current
            case.obs("coefficients set")
        name, query = queries[k]
        if (k, current) not in want:
            fresh = make()
            if setters:
                fresh.coeff = current
            want[k, current] = canon(ask(fresh, query))
        result = ask(obj, query)
        got = canon(result)
        case.check(same(got, want[k, current], 1e-11), "history-" + name.split("(")[0].split(" ")[0], lambda: "after {0}, {1}: {2} != {3}".format(
            [queries[i][0] for i in trail[-4:]], name, got, want[k, current]))
        trail.append(k)
        case.obs("answers after a history")
        abuse(result)
        if result is not obj:
            change(result)
    case.nontrivial(kind.__name__, case.index)


def independent(case):
    """New objects are independent of those handed out before."""
    py = case.py
    asked = requests(case)
    want = {name: canon(request()) for name, request in asked}
    order = [py.randrange(len(asked)) for _ in range(60)]
    kept = []
    for k in order:
        name, request = asked[k]
        result = request()
        got = canon(result)
        case.check(same(got, want[name], 1e-11), "request-" + name, lambda: "{0} != {1}".format(got, want[name]))
        for other, value in kept:
            case.run.oracle_calls += 1
            if not same(canon(value), other, 0.0):
                case.fail("request-changed", "an object handed out before: {0}".format(name))
        if not name.endswith(".same") and py.random() < 0.5:
            case.obs("objects changed", change(result))
            kept.append((canon(result), result))
            kept = kept[-6:]
        case.obs("requests repeated")
    case.nontrivial("factories", case.index)


def section(*kinds, quick=14, thorough=300):
    """A section of random histories of these kinds of objects."""
    def run(case):
        past(case, kinds[case.index % len(kinds)])
    return Section("past", run, quick, thorough)
