"""
A world: objects of all parts of the library built from recorded arguments, and
a catalogue of read-only queries on them.  Two worlds made from one seed are
equal, so that answers can be compared between histories and schedules.
"""
import random
import types

import numpy as np
import scipy.sparse as sp

import HamiltonianPy as HP
from HamiltonianPy import (AoC, Bond, IndexTable, KPath, Lattice, Line2D, NumberOperator, ParticleTerm, SiteID,
                           SpinInteraction, SpinOperator, StateID)
from HamiltonianPy import rotation3d as rot
from HamiltonianPy.averages import QuantumAverages, TotalSpinAverages, TotalSpinMatrices
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace, base_vectors
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.quantumoperator import matrixrepr
from HamiltonianPy.tools.PandC import Combination, Permutation
from HamiltonianPy.tools.TotalSpin import TotalSpin
from HamiltonianPy.tools.colorprint import coloring

from vlib import gen, green


# ------------------------------------------------------------- canonical form
def canon(x, depth=0):
    """A structure of plain values and copied arrays."""
    if depth > 6:
        return repr(x)
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.kind, np.array(x, copy=True))
    if sp.issparse(x):
        return ("sparse", x.dtype.kind, x.toarray())
    if isinstance(x, (bool, np.bool_, type(None), str, bytes)):
        return x
    if isinstance(x, (int, float, complex, np.number)):
        return ("number", np.array(x))
    if isinstance(x, Bond):
        a, b = x.endpoints
        return ("bond", np.array(a, dtype=float), np.array(b, dtype=float), x.directional)
    if isinstance(x, (ParticleTerm, SpinInteraction)):
        return ("term", type(x).__name__, ("number", np.array(x.coeff)), [repr(c) for c in x.components],
                getattr(x, "classification", None))
    if isinstance(x, Lattice):
        return ("lattice", x.points, x.vectors, x.bs, x.name)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(y, depth + 1) for y in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(y) for y in x))
    if isinstance(x, dict):
        items = sorted(x.items(), key=lambda kv: repr(kv[0]))
        return ("dict", [(repr(k), canon(v, depth + 1)) for k, v in items])
    if isinstance(x, (types.GeneratorType,)) or hasattr(x, "__next__"):
        return ("iterator", [canon(y, depth + 1) for y in x])
    if hasattr(x, "__iter__") and not hasattr(x, "_tuple_form"):
        return ("iterable", [canon(y, depth + 1) for y in x])
    return repr(x)


def same(a, b, tol=1e-8):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return bool(np.allclose(a, b, atol=tol, rtol=tol, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def abuse(x, depth=0):
    """Write garbage into everything the caller owns; number of places."""
    if depth > 5:
        return 0
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or x.size == 0:
            return 0
        if x.dtype.kind in "fc":
            x += 13.25
        elif x.dtype.kind in "iu":
            x[...] = x + x.dtype.type(3)
        elif x.dtype == object:
            return 0
        else:
            return 0
        return 1
    if sp.issparse(x):
        n = abuse(x.data)
        for part in ("indices", "indptr", "row", "col"):
            if hasattr(x, part):
                getattr(x, part)[...] = 0
        return n + 1
    n = 0
    if isinstance(x, dict):
        for v in x.values():
            n += abuse(v, depth + 1)
        x.clear()
        return n + 1
    if isinstance(x, list):
        for v in x:
            n += abuse(v, depth + 1)
        x.clear()
        return n + 1
    if isinstance(x, tuple):
        for v in x:
            n += abuse(v, depth + 1)
    return n


def snapshot(x):
    return canon(x)


def arrays_of(args):
    """All arrays and lists among the arguments (for scrambling)."""
    return args


class World:
    """args: name -> argument given to a constructor or query."""

    def __init__(self, seed, parts, style="plain"):
        self.py = random.Random(seed)
        self.rng = np.random.default_rng(seed)
        self.style = style
        self.built = {}          # arguments of constructors
        self.inputs = {}         # arguments of queries (never modified by us)
        self.queries = []        # (name, function)
        for part in parts:
            getattr(self, part)()

    # ---------------------------------------------------------------- helpers
    def given(self, name, value):
        """An argument of a constructor."""
        if isinstance(value, np.ndarray):
            value = np.array(value)
            if self.style == "readonly":
                # a read-only view; its owner may still change the data
                value = value[...]
                value.setflags(write=False)
        self.built[name] = value
        return value

    def input(self, name, value):
        if isinstance(value, np.ndarray):
            value = np.array(value)
            if self.style == "readonly":
                value.setflags(write=False)
        self.inputs[name] = value
        return value

    def ask(self, name, func):
        self.queries.append((name, func))

    class _CaseLike:
        def __init__(self, py, rng):
            self.py, self.rng = py, rng

    @property
    def caselike(self):
        return World._CaseLike(self.py, self.rng)

    # ------------------------------------------------------------------ parts
    def lattice(self):
        py = self.py
        kind = py.randrange(3)
        if kind == 0:
            points, vectors = gen.random_lattice_data(self.caselike, max_points=4)
            lat = Lattice(self.given("points", points), self.given("vectors", vectors), "name")
        elif kind == 1:
            lat = HP.special_cluster(py.choice(["cross", "z", "s", "star", "benzene", "diphenyl"]))
        else:
            lat = HP.lattice_generator(py.choice(gen.LATTICE_NAMES[:5]), py.randrange(1, 4), py.randrange(1, 3))
        self.lat = lat
        points, vectors = lat.points, lat.vectors
        small = len(points) <= 6
        for attr in ("points", "vectors", "bs", "point_num", "space_dim", "trans_dim"):
            self.ask("lattice." + attr, lambda attr=attr: getattr(lat, attr))
        self.ask("lattice.str", lambda: str(lat))
        for k in range(min(3, len(points))):
            self.ask("getSite", lambda k=k: lat.getSite(k))
            site = self.input("site{0}".format(k), points[k].copy())
            far = self.input("far{0}".format(k), points[k] + np.array(
                [py.randrange(-4, 5) for _ in range(len(vectors))]) @ vectors)
            near = self.input("near{0}".format(k), points[k] + np.array(
                [py.randrange(-1, 2) for _ in range(len(vectors))]) @ vectors)
            off = self.input("off{0}".format(k), points[k] + 0.0371)
            self.ask("getIndex", lambda site=site: lat.getIndex(site))
            for s in (far, near):
                self.ask("getIndex-fold", lambda s=s: lat.getIndex(s, fold=True))
                self.ask("decompose", lambda s=s: lat.decompose(s))
            self.ask("in_cluster", lambda site=site: bool(lat.in_cluster(site)))
            self.ask("in_cluster-off", lambda off=off: bool(lat.in_cluster(off)))
        for n in range(5):
            self.ask("neighbor_distance", lambda n=n: lat.neighbor_distance(n))
        order = lambda bonds: sorted(bonds, key=lambda b: tuple(np.round(np.concatenate(b.endpoints), 5)))
        for n in range(3 if small else 2):
            for only in (True, False):
                for fold in (False, True):
                    def q(n=n, only=only, fold=fold):
                        intra, inter = lat.bonds(n, only=only, fold=fold)
                        res = (order(intra), None if inter is None else order(inter))
                        ends = [e for b in intra for e in b.endpoints]
                        abuse(ends)
                        intra.clear()
                        if inter is not None:
                            inter.clear()
                        return res
                    self.ask("bonds", q)

    def bond(self):
        py = self.py
        dim = py.choice([1, 2, 3])
        a, b = gen.distinct_sites(py, 2, dim)
        style = py.randrange(3)
        if style == 0:
            a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        elif style == 1:
            a, b = list(a), list(b)
        bond = Bond(self.given("p0", a), self.given("p1", b), directional=True)
        other = Bond(list(b), list(a))
        loose = Bond(b, a, directional=False)
        self.ask("endpoints", lambda: bond.endpoints)
        self.ask("getLength", lambda: (bond.getLength(), bond.getLength(3), loose.getLength()))
        self.ask("getDisplace", lambda: (bond.getDisplace(), bond.getDisplace(2)))
        self.ask("getAzimuth", lambda: (bond.getAzimuth(), bond.getAzimuth(radian=True), bond.getAzimuth(ndigits=2)))
        self.ask("flip", lambda: (bond.flip(), bond.oppositeTo(other), bond == other, bond != other))
        self.ask("bond.repr", lambda: (repr(bond), str(bond), repr(loose), str(loose), bond.directional))
        self.ask("bond.hash", lambda: (hash(bond) == hash(bond.flip().flip()), len({bond, loose, other, bond.flip()})))

    def states(self):
        py = self.py
        labels = gen.state_labels(py, 4)
        sites = [self.given("state{0}".format(k), gen.as_container(py, s)) for k, (s, _, _) in enumerate(labels)]
        states = [StateID(s, spin=p, orbit=o) for s, (_, p, o) in zip(sites, labels)]
        ids = [SiteID(s) for s in sites]
        listed = self.given("table objects", list(states))
        table = IndexTable(listed, start=py.randrange(3))
        site_table = IndexTable(dict.fromkeys(SiteID(s) for s, _, _ in labels))
        for s, i in zip(states, ids):
            self.ask("state", lambda s=s: (s.site, s.coordinate, s.spin, s.orbit, repr(s), str(s)))
            self.ask("siteid", lambda i=i: (i.site, i.coordinate, repr(i)))
            self.ask("state.latex", lambda s=s: (s.tolatex(), s.tolatex(ndigits=1, suppress_orbit=False),
                                                s.tolatex(site_index=site_table, spin_one_half=False)))
            self.ask("state.index", lambda s=s: (table(s), s.getIndex(table)))
        self.ask("state.order", lambda: (sorted(states), states[0] < states[1], states[0] == states[1]))
        self.ask("table", lambda: (len(table), str(table), list(table), list(table.indices()), list(table.objects())))
        low = min(table.indices())
        self.ask("table.query", lambda: [table.query_object(low + k) for k in range(4)])

    def fermions(self):
        py = self.py
        n = py.randrange(2, 6)
        labels = gen.state_labels(py, n)
        table = IndexTable([StateID(s, spin=p, orbit=o) for s, p, o in labels])
        bases = self.input("bases", np.arange(1 << n, dtype=np.uint64))
        left = self.input("left", np.arange(1 << n, dtype=np.uint64))
        sector = self.input("sector", base_vectors((n, 1)))

        def aoc(k, otype):
            s, p, o = labels[k]
            return AoC(otype, self.given("aoc{0}".format(len(self.built)), gen.as_container(py, s)), spin=p, orbit=o)
        C, A = HP.CREATION, HP.ANNIHILATION
        i, j = py.sample(range(n), 2)
        c, a = aoc(i, C), aoc(j, A)
        num = NumberOperator(self.given("number", gen.as_container(py, labels[i][0])), labels[i][1], labels[i][2])
        listed = self.given("aocs", [aoc(i, C), aoc(j, C), aoc(j, A), aoc(i, A)])
        quartic = ParticleTerm(listed, coeff=py.choice([2, 0.5, 1 + 1j]))
        hop = ParticleTerm((c, a), coeff=0.75, classification="hopping")
        coulomb = ParticleTerm([aoc(i, C), aoc(i, A), aoc(j, C), aoc(j, A)], 1.5, classification="Coulomb")
        chem = ParticleTerm([aoc(i, C), aoc(i, A)], -1.5, classification="number")
        terms = {"hop": hop, "quartic": quartic, "coulomb": coulomb, "chem": chem}
        for name, op in (("c", c), ("a", a)):
            self.ask("aoc", lambda op=op: (repr(op), op.site, op.coordinate, op.spin, op.orbit, op.otype, op.tolatex(),
                                          op.getStateIndex(table), op.dagger(), op.state))
            self.ask("aoc.matrix", lambda op=op: op.matrix_repr(table, bases))
            self.ask("aoc.entries", lambda op=op: op.matrix_repr(table, bases, left_bases=left, to_csr=False))
            self.ask("aoc.algebra", lambda op=op: (op * c, op * 2, 0.5 * op, op < a, op == c, op.conjugate_of(a),
                                                  op.same_state(c), op.derive(spin=0)))
        self.ask("number", lambda: (repr(num), num.site, num.coordinate, num.tolatex(), num.dagger(), num.toterm()))
        self.ask("number.matrix", lambda: num.matrix_repr(table, bases))
        self.ask("number.algebra", lambda: (num * num, 2 * num, num * c))
        for name, term in terms.items():
            self.ask("term." + name, lambda term=term: (str(term), term.coeff, term.components, term.classification,
                                                       term.tolatex(), term.check_compatibility()))
            self.ask("term.matrix." + name, lambda term=term: term.matrix_repr(table, bases))
            self.ask("term.entries." + name, lambda term=term: term.matrix_repr(table, bases, left_bases=left, to_csr=False))
            self.ask("term.sector." + name, lambda term=term: term.matrix_repr(table, sector))
            self.ask("term.algebra." + name, lambda term=term: (term.dagger(), term * 2, 1j * term, term * term, term * c,
                                                               c * term))
        shuffled = self.input("to normalize", [aoc(j, A), aoc(i, C), aoc(i if n < 3 else (3 - i - j if 3 - i - j not in (
            i, j) and 0 <= 3 - i - j < n else i), C)])
        self.ask("normalize", lambda: ParticleTerm.normalize(shuffled))
        everything = self.input("all operators", py.sample([aoc(k, C) for k in range(n)], n))
        self.ask("normalize.all", lambda: ParticleTerm.normalize(everything))
        long = ParticleTerm(everything, coeff=2.5)
        self.ask("term.long", lambda: (str(long), long.dagger(), long * long.dagger()))
        self.ask("term.long.matrix", lambda: long.matrix_repr(table, left[:1], left_bases=left))
        raw = self.input("raw term", [(i, C), (j, A)])
        self.ask("matrix_function", lambda: matrixrepr.matrix_function(raw, bases))
        self.ask("matrix_function.hopping", lambda: matrixrepr.matrix_function(raw, bases, coeff=2.5, special_tag="hopping"))
        site0, site1 = self.input("site0", list(labels[i][0])), self.input("site1", list(labels[j][0]))
        kw = dict(spin0=labels[i][1], spin1=labels[j][1], orbit0=labels[i][2], orbit1=labels[j][2])
        self.ask("factories", lambda: (HP.HoppingFactory(site0, site1, coeff=0.5, **kw),
                                       HP.PairingFactory(site0, site1, coeff=0.5, **kw),
                                       HP.CPFactory(site0, coeff=2), HP.HubbardFactory(site1), HP.Creator(site0),
                                       HP.Annihilator(site1), HP.CoulombFactory(site0, site1, coeff=1.25, **kw)))

    def spins(self):
        py = self.py
        n = py.randrange(2, 5)
        sites = gen.distinct_sites(py, n)
        table = IndexTable([SiteID(s) for s in sites])
        i, j = py.sample(range(n), 2)
        ops = [SpinOperator(o, self.given("spin" + o, gen.as_container(py, sites[k]))) for o, k in zip("xyzpm", [i, j, i, j, i])]
        listed = self.given("operators", [ops[0], ops[1]])
        term = SpinInteraction(listed, coeff=py.choice([1, -0.5, 2j]))
        triple = SpinInteraction((ops[3], ops[2], ops[4]), coeff=1.5)
        for op in ops:
            self.ask("spin", lambda op=op: (repr(op), op.site, op.coordinate, op.otype, op.tolatex(), op.getSiteIndex(table)))
            self.ask("spin.matrix", lambda op=op: op.matrix())
            self.ask("spin.repr", lambda op=op: op.matrix_repr(table))
            self.ask("spin.schwinger", lambda op=op: op.Schwinger())
            self.ask("spin.algebra", lambda op=op: (op * ops[0], 2 * op, op.dagger(), op == ops[0], op.same_site(ops[1]),
                                                   op.derive(otype="z")))
        for t in (term, triple):
            self.ask("interaction", lambda t=t: (str(t), t.coeff, t.components, t.tolatex(), t.tolatex(table)))
            self.ask("interaction.matrix", lambda t=t: t.matrix_repr(table))
            self.ask("interaction.algebra", lambda t=t: (t.dagger(), t * 2, t * ops[0], ops[1] * t, t * t))
            self.ask("interaction.schwinger", lambda t=t: t.Schwinger())
        kind = py.choice("xyzpm")
        chain = SpinInteraction([SpinOperator(kind, s) for s in py.sample(sites, n)], coeff=0.25)
        self.ask("chain", lambda: (str(chain), chain.components, chain.dagger(), chain * chain))
        self.ask("chain.matrix", lambda: chain.matrix_repr(table))
        self.ask("chain.schwinger", lambda: chain.Schwinger())
        raw = self.input("raw spins", [(i, "x"), (j, "y")])
        self.ask("spin.function", lambda: SpinInteraction.matrix_function(raw, n, 0.5))
        self.ask("spin.function.single", lambda: SpinOperator.matrix_function(raw[0], n))
        self.ask("heisenberg.terms", lambda: [str(t) for t in HP.HeisenbergFactory(sites[j], sites[i], coeff=3)])
        self.ask("heisenberg", lambda: [t.matrix_repr(table) for t in HP.HeisenbergFactory(sites[i], sites[j], coeff=2)])
        self.ask("constants", lambda: (HP.SPIN_X, HP.SPIN_Y, HP.SPIN_Z, HP.SPIN_P, HP.SPIN_M, HP.SIGMA_X, HP.SIGMA_Y,
                                       HP.SIGMA_Z, HP.SIGMA_P, HP.SIGMA_M))

    def spaces(self):
        py = self.py
        n = py.randrange(3, 7)
        listed = self.given("states list", py.sample(range(8), n))
        simple = SimpleHilbertSpace(listed, py.randrange(-1, n))
        half = n // 2
        spec = self.given("specifier", [sorted(listed)[:half], py.randrange(0, half + 1)])
        rest = self.given("specifier2", [sorted(listed)[half:], -1])
        space = HilbertSpace(spec, rest)
        spec_in = self.input("specifier in", [[0, 2, 5], 1])
        spec_in2 = self.input("specifier in2", ([1, 3], 1))
        self.ask("simple", lambda: (repr(simple), str(simple), simple.single_particle_states, simple.state_number,
                                    simple.particle_number))
        self.ask("simple.bases", lambda: simple.base_vectors())
        self.ask("simple.list", lambda: simple.base_vectors(container="list"))
        self.ask("space", lambda: (repr(space), str(space), space.subspace_number, space.subspace_specifiers))
        self.ask("space.bases", lambda: space.base_vectors())
        self.ask("space.list", lambda: space.base_vectors(container="list"))
        self.ask("base_vectors", lambda: base_vectors(spec_in, spec_in2))
        self.ask("base_vectors.n", lambda: base_vectors((6, 3)))
        self.ask("base_vectors.full", lambda: base_vectors(4))

    def krylov(self):
        py, rng = self.py, self.rng
        n = py.choice([2, 3, 5, 8])
        M = self.input("M", gen.random_hermitian(rng, n, py.random() < 0.5))
        S = self.input("S", sp.csr_matrix(M))
        v = {k: rng.normal(size=n) + 1j * rng.normal(size=n) for k in ("a", "b")}
        if not np.iscomplexobj(M) and py.random() < 0.5:
            v = {k: x.real.copy() for k, x in v.items()}
        if self.style == "readonly":
            for x in v.values():
                x.setflags(write=False)
        vectors = self.input("vectors dict", v)
        dim = py.choice([1, 2, n, 200])
        for name, m in (("dense", M), ("sparse", S)):
            self.ask("krylov." + name, lambda m=m: HP.KrylovRepresentation(m, vectors, vectors["a"], krylov_space_dim=min(dim, n)))
            self.ask("multikrylov." + name, lambda m=m: HP.MultiKrylov(m, vectors, krylov_space_dim=min(2, n)))

    def greens(self):
        py = self.py
        while True:
            setup = green.random_setup(self.caselike, sizes=(2, 3, 4))
            if all(np.linalg.norm(v) > 1e-3 for v in setup.states.values()):
                break
        HM = self.input("HM", np.array(setup.HM))
        states = {k: np.array(v) for k, v in setup.states.items()}
        if self.style == "readonly":
            for x in states.values():
                x.setflags(write=False)
        states = self.input("excited", states)
        omegas = self.input("omegas", np.array([py.uniform(-2, 2) for _ in range(3)]))
        As = self.input("As", [py.choice(setup.ops) for _ in range(2)])
        Bs = self.input("Bs", [py.choice(setup.ops) for _ in range(2)])
        pm, pv = HP.MultiKrylov(HM, states, krylov_space_dim=2)
        pm, pv = self.input("projected matrices", pm), self.input("projected vectors", pv)
        GE = setup.GE
        for name in ("GFSolverExactMultiple", "RGFSolverExactMultiple"):
            for structure in ("array", "dict"):
                self.ask(name, lambda name=name, structure=structure: getattr(HP, name)(
                    omegas, As, Bs, GE, HM, states, eta=0.1, structure=structure))
        for name in ("GFSolverLanczosMultiple", "RGFSolverLanczosMultiple"):
            for structure in ("array", "dict"):
                self.ask(name, lambda name=name, structure=structure: getattr(HP, name)(
                    omegas, As, Bs, GE, pm, pv, eta=0.1, structure=structure))
        w = float(omegas[0])
        for name in ("GFSolverExactSingle", "RGFSolverExactSingle"):
            self.ask(name, lambda name=name: getattr(HP, name)(w, As[0], Bs[1], GE, HM, states, eta=0.2))
        for name in ("GFSolverLanczosSingle", "RGFSolverLanczosSingle"):
            self.ask(name, lambda name=name: getattr(HP, name)(w, As[1], Bs[0], GE, pm, pv, eta=0.2))

    def geometry(self):
        py, rng = self.py, self.rng
        line = Line2D(self.given("line0", np.array([0.5, 1.0])), self.given("line1", np.array([2.5, py.uniform(-3, 3)])))
        v = np.array([[0, 0], [2, 0], [2.5, 1], [1, 2], [-1, 1.5]]) * py.uniform(0.5, 2)
        poly = Polygon(self.given("vertices", v))
        p = self.input("point", rng.uniform(-2, 3, size=2))
        q = self.input("inside", np.mean(v, axis=0))
        ratios = self.input("ratios", np.array([0.0, 0.25, 2.0]))
        anchors = self.input("anchors", [np.array([0.0, 0.0]), np.array([1.0, 0.5]), np.array([0.0, 2.0])])
        matrix = self.input("anchor matrix", rng.uniform(-1, 1, size=(4, 3)))
        axis = self.input("axis", rng.uniform(0.2, 1, size=3))
        self.ask("line", lambda: (repr(line), str(line), line.IsHorizontal, line.IsVertical, line(0.25), line(0.3, "y"),
                                  line.LocationRelation(p), line.PointsFactory(ratios), line.PointsFactory()))
        self.ask("polygon", lambda: (poly.vertices, poly.vertices_num, poly.LocationRelation(p, q), poly.LocationRelation(q, q)))
        self.ask("kpath", lambda: KPath(anchors, min_num=4))
        self.ask("kpath.matrix", lambda: KPath(matrix, min_num=3, loop=False))
        self.ask("rotations", lambda: (HP.RotationGeneral(axis, 0.3, inversion=True), HP.RotationX(0.2), HP.RotationY(0.4),
                                       HP.RotationZ(40, deg=True, inversion=True), HP.RotationEuler(0.1, 0.2, 0.3)))
        angle, flip = py.choice([0, 0.0, 30, 45, 60, 90, 120, 180, 270, 360]), py.random() < 0.5
        special = self.input("special axis", py.choice([[0, 0, 1], [1, 0, 0], [1, 1, 1], [0.0, 0.0]]))
        for name in ("RotationX", "RotationY", "RotationZ"):
            self.ask("rotation.special", lambda name=name: getattr(HP, name)(angle, deg=True, inversion=flip))
        self.ask("rotation.special", lambda: HP.RotationGeneral(special, angle, deg=True, inversion=flip))
        self.ask("rotation.special", lambda: HP.RotationEuler(angle, 0, 0, deg=True, inversion=flip))
        self.ask("rotation constants", lambda: tuple(np.array(getattr(rot, n)) for n in ("E", "INVERSION", "RX30", "R111_120")))
        self.ask("published", lambda: tuple(np.array(getattr(HP, n)) for n in (
            "SQUARE_CELL_POINTS", "SQUARE_CELL_AS", "KAGOME_CELL_KS", "HONEYCOMB_GEAR_BS")))


    def tools(self):
        py, rng = self.py, self.rng
        n = py.randrange(1, 5)
        ket = self.input("ket", rng.normal(size=1 << n) + 1j * rng.normal(size=1 << n))
        other = self.input("other ket", rng.normal(size=1 << n))
        operator = self.input("operator", sp.csr_matrix(gen.random_hermitian(rng, 1 << n)))
        averages = TotalSpinAverages(n)
        self.ask("QuantumAverages", lambda: (QuantumAverages(ket, operator), QuantumAverages(other, operator)))
        self.ask("TotalSpinMatrices", lambda: tuple(TotalSpinMatrices(n)))
        self.ask("TotalSpin", lambda: tuple(TotalSpin(n)))
        self.ask("TotalSpinAverages", lambda: tuple(averages(ket)))
        self.ask("TotalSpinAverages.other", lambda: tuple(averages(other)))
        a, b = py.randrange(3, 40), py.randrange(0, 4)
        self.ask("counting", lambda: (Permutation(a, b), Combination(a, b), Permutation(a, b, repeat=True),
                                      Combination(a, b, repeat=True)))
        for scheme in (4, 8, 24):
            color = {4: "red", 8: py.randrange(256), 24: (1, 20, 255)}[scheme]
            self.ask("coloring", lambda scheme=scheme, color=color: coloring("text", fg=color, bold=True, color_scheme=scheme))


PARTS = ["lattice", "bond", "states", "fermions", "spins", "spaces", "krylov", "greens", "geometry", "tools"]


def library_constants():
    """Every published array of the package, for checks that they never change."""
    from HamiltonianPy.quantumoperator import constant
    res = {}
    from HamiltonianPy import lattice as lattice_package
    for module in (constant, rot, lattice_package):
        for name in dir(module):
            value = getattr(module, name)
            if isinstance(value, np.ndarray):
                res[module.__name__ + "." + name] = value
            elif isinstance(value, dict) and name.isupper():
                for k, v in value.items():
                    res["{0}.{1}[{2}]".format(module.__name__, name, k)] = v
    return res
