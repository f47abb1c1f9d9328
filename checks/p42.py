"""P42: the same request, stated in different ways, gets the same answer."""
import ast

import numpy as np
import scipy.sparse as sp

import HamiltonianPy as HP
from HamiltonianPy import averages
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace, base_vectors
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.quantumoperator import matrixrepr
from HamiltonianPy.tools.PandC import Combination, Permutation
from HamiltonianPy.tools.TotalSpin import TotalSpin
from HamiltonianPy.tools.colorprint import coloring

from vlib import gen
from vlib.harness import Section

PID = "P42"
RULE = ("requests to all public callables stated in several ways: arguments by position or by keyword in any order, defaults given or left "
        "out, values in any documented form (list, tuple, array of any layout; whole numbers as int, float or numpy scalar; sparse or dense; "
        "documented aliases and shorthands); the answers have to agree; non-trivial when two ways differ")
ASSUMPTIONS = ["names, order and defaults of the parameters are those of the documentation at the start of this work"]
MUST = {"ways compared": 5000, "callables": 75, "by position": 1500, "defaults left out": 1500, "other forms": 2500, "aliases": 300}

OMIT = type("Omit", (), {"__repr__": lambda self: "OMIT"})()
seen = set()


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
        scale = max(1.0, float(np.abs(a).max()) if a.size else 1.0)
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9 * scale, equal_nan=True))
    return a.dtype.kind == b.dtype.kind and bool(np.array_equal(a, b))


def agree(a, b):
    """Whether two answers say the same."""
    number = (int, float, complex, np.number, np.bool_)
    if isinstance(a, number) and isinstance(b, number):
        return isinstance(a, (bool, np.bool_)) == isinstance(b, (bool, np.bool_)) and close(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return close(a, b)
    if sp.issparse(a):
        return a.shape == b.shape and close(a.toarray(), b.toarray())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and agree(v, b[k]) for k, v in a.items())
    if isinstance(a, HP.ParticleTerm):
        return agree(a.components, b.components) and close(a.coeff, b.coeff) and a.classification == b.classification
    if isinstance(a, HP.SpinInteraction):
        return agree(a.components, b.components) and close(a.coeff, b.coeff)
    if isinstance(a, HP.Lattice):
        return close(a.points, b.points) and close(a.vectors, b.vectors) and close(a.bs, b.bs) and a.name == b.name
    if isinstance(a, HP.IndexTable):
        return list(a) == list(b) and agree(list(a.indices()), list(b.indices()))
    if isinstance(a, HP.Line2D):
        probe = [(0.3, 0.4), (-2.0, 1.0), (5.5, -0.25)]
        return close(a.PointsFactory(), b.PointsFactory()) and [a.LocationRelation(p) for p in probe] == [b.LocationRelation(p) for p in probe]
    if isinstance(a, Polygon):
        return close(a.vertices, b.vertices)
    if isinstance(a, (SimpleHilbertSpace, HilbertSpace)):
        return close(a(), b())
    if hasattr(a, "__next__"):
        return agree(list(a), list(b))
    return bool(a == b) and not a != b and (getattr(type(a), "__hash__", None) is None or hash(a) == hash(b))


def parse(signature):
    """Names by position, names by keyword only, defaults."""
    node = ast.parse("def f({0}): pass".format(signature)).body[0].args
    names = [x.arg for x in node.args]
    only = [x.arg for x in node.kwonlyargs]
    defaults = {}
    for name, value in zip(names[len(names) - len(node.defaults):], node.defaults):
        defaults[name] = ast.literal_eval(value)
    for name, value in zip(only, node.kw_defaults):
        if value is not None:
            defaults[name] = ast.literal_eval(value)
    return names, only, defaults, node.vararg is not None


class Ways:
    """Collects (label, functions, signature, forms of every parameter)."""

    def __init__(self, case):
        self.case, self.py, self.rng = case, case.py, case.rng
        self.calls = []

    def add(self, label, funcs, signature, forms):
        funcs = funcs if isinstance(funcs, list) else [funcs]
        self.calls.append((label, funcs, signature, {k: v if isinstance(v, Forms) else Forms([v]) for k, v in forms.items()}))

    # ------------------------------------------------------------------ forms
    def pick(self, default, *others):
        """A value, often the default one."""
        return default if self.py.random() < 0.45 else self.py.choice(others)

    def site(self, coords):
        coords = tuple(coords)
        res = [coords, list(coords), np.array(coords, dtype=float), np.array(coords, dtype=float)[::-1][::-1],
               tuple(np.float64(c) for c in coords), [float(c) for c in coords]]
        if all(float(c).is_integer() for c in coords):
            res += [tuple(int(c) for c in coords), np.array([int(c) for c in coords]), [np.int64(c) for c in coords]]
        strided = np.zeros((len(coords), 3))
        strided[:, 1] = coords
        return Forms(res + [strided[:, 1]])

    def array(self, values, lists=True, whole=True):
        values = np.array(values, dtype=float)
        res = [values, np.asfortranarray(values), np.array(values[::-1])[::-1]]
        frozen = values.copy()
        frozen.setflags(write=False)
        res.append(frozen)
        wide = np.zeros(values.shape + (2,))
        wide[..., 1] = values
        res.append(wide[..., 1])
        # the byte order of another machine
        res.append(values.astype(values.dtype.newbyteorder("S")))
        if whole and values.size and np.all(values == np.rint(values)):
            res += [values.astype(np.int64), values.astype(int).copy(order="F"), gen.storage(self.py, values)]
        if lists:
            res += [values.tolist(), tuple(tuple(x) if isinstance(x, list) else x for x in values.tolist())]
        return Forms(res)

    def number(self, value):
        """A coefficient."""
        res = [value]
        if isinstance(value, complex):
            return Forms(res + [np.complex128(value)])
        res += [np.float64(value), complex(value), float(value)]
        if float(value).is_integer():
            res += [int(value), np.int64(value), np.complex128(value)]
        return Forms(res)

    def real(self, value):
        res = [value, np.float64(value), float(value)]
        if float(value).is_integer():
            res += [int(value), np.int64(value)]
        return Forms(res)

    def sequence(self, items):
        return Forms([list(items), tuple(items)])

    def bases(self, values):
        values = np.array(values, dtype=np.uint64)
        frozen = values.copy()
        frozen.setflags(write=False)
        wide = np.zeros((len(values), 2), dtype=np.uint64)
        wide[:, 0] = values
        return Forms([values, frozen, wide[:, 0], values[::-1].copy()[::-1]])

    def matrix(self, M):
        M = np.array(M)
        return Forms([M, np.asfortranarray(M), sp.csr_matrix(M), sp.csc_matrix(M), sp.coo_matrix(M), sp.csr_array(M)])

    # --------------------------------------------------------------- requests
    def states(self):
        py = self.py
        (s, p, o), (s1, p1, o1), (s2, p2, o2) = gen.state_labels(py, 3)
        p, o = self.pick(0, p, 1), self.pick(0, o, 2)
        site = self.site(s)
        self.add("SiteID", HP.SiteID, "site", dict(site=site))
        full = "site, spin=0, orbit=0"
        state = dict(site=site, spin=p, orbit=o)
        self.add("StateID", HP.StateID, full, state)
        self.add("NumberOperator", HP.NumberOperator, full, state)
        self.add("Creator", [HP.Creator, lambda *x, **y: HP.AoC(1, *x, **y), lambda *x, **y: HP.Annihilator(*x, **y).dagger(),
                             lambda *x, **y: HP.AoC(HP.CREATION, *x, **y)], full, state)
        self.add("Annihilator", [HP.Annihilator, lambda *x, **y: HP.AoC(0, *x, **y), lambda *x, **y: HP.Creator(*x, **y).dagger()], full, state)
        otype = py.choice([0, 1])
        self.add("AoC", HP.AoC, "otype, " + full, dict(state, otype=otype))
        a = HP.AoC(otype, s, spin=p, orbit=o)
        num = HP.NumberOperator(s, spin=p, orbit=o)
        change = dict(site=Forms(self.site(s1)) if py.random() < 0.5 else Forms(list(self.site(s)) + [None]),
                      spin=py.choice([p1, Forms([p, None])]), orbit=py.choice([o1, Forms([o, None])]))
        self.add("AoC.derive", a.derive, "*, otype=None, site=None, spin=None, orbit=None",
                 dict(change, otype=py.choice([1 - otype, Forms([otype, None])])))
        self.add("NumberOperator.derive", num.derive, "*, site=None, spin=None, orbit=None", change)
        kind = py.choice("xyzpm")
        self.add("SpinOperator", HP.SpinOperator, "otype, site", dict(otype=kind, site=site))
        spin = HP.SpinOperator(kind, s)
        self.add("SpinOperator.derive", spin.derive, "*, otype=None, site=None",
                 dict(otype=py.choice([py.choice("xyzpm"), Forms([kind, None])]), site=change["site"]))
        # printed forms
        sites = HP.IndexTable([HP.SiteID(x) for x in {s, s1, s2}])
        number = Forms([sites, sites(HP.SiteID(s))]) if py.random() < 0.5 else None
        digits = self.pick(4, 1, 2, 7)
        self.add("SiteID.tolatex", HP.SiteID(s).tolatex, "*, site_index=None, ndigits=4", dict(site_index=number, ndigits=digits))
        self.add("StateID.tolatex", [HP.StateID(s, p, o).tolatex, HP.StateID(list(s), orbit=o, spin=p).tolatex],
                 "*, site_index=None, ndigits=4, spin_one_half=True, suppress_orbit=True",
                 dict(site_index=number, ndigits=digits, spin_one_half=self.pick(True, False), suppress_orbit=self.pick(True, False)))
        # tables
        objects = py.sample([HP.StateID(s, p, o), HP.StateID(s, p, o + 5), HP.StateID(s, p + 5, o)], 3)
        start = self.pick(0, 1, 5)
        self.add("IndexTable", HP.IndexTable, "objects, *, start=0", dict(
            objects=Forms([objects, tuple(objects), lambda: iter(objects), lambda: (x for x in objects), dict.fromkeys(objects),
                           dict.fromkeys(objects).keys()]), start=start))
        table = HP.IndexTable(objects, start=start)
        x = py.choice(objects)
        self.add("IndexTable.query_index", [table.query_index, table, lambda key: key.getIndex(table)], "key", dict(
            key=Forms([HP.StateID(f, x.spin, x.orbit) for f in self.site(s)])))
        self.add("IndexTable.query_object", table.query_object, "index", dict(index=start + 1))
        self.add("AoC.getIndex", [a.getStateIndex, lambda indices_table: a.state.getIndex(indices_table)], "indices_table",
                 dict(indices_table=Forms([HP.IndexTable(objects, start=start), table])))

    def terms(self):
        py = self.py
        n = py.randrange(3, 5)
        labels = gen.state_labels(py, n)
        table = HP.IndexTable([HP.StateID(*x) for x in labels])
        aocs = [HP.AoC(py.choice([0, 1]), *labels[py.randrange(n)]) for _ in range(py.randrange(1, 4))]
        c = self.pick(1.0, 2, -0.5, 1.5, 0.5 - 1j, 3)
        kind = "general"
        i, j = py.sample(range(n), 2)
        which = py.randrange(4)
        if which == 1:
            aocs, kind = [HP.Creator(*labels[i]), HP.Annihilator(*labels[j])], py.choice(["general", "hopping"])
        elif which == 2:
            aocs, kind = [HP.Creator(*labels[i]), HP.Annihilator(*labels[i])], py.choice(["general", "number"])
        elif which == 3:
            aocs, kind = [HP.Creator(*labels[i]), HP.Annihilator(*labels[i]), HP.Creator(*labels[j]), HP.Annihilator(*labels[j])], py.choice(["general", "Coulomb"])
        self.add("ParticleTerm", HP.ParticleTerm, "aocs, coeff=1.0, *, classification='general'",
                 dict(aocs=self.sequence(aocs), coeff=self.number(c), classification=kind))
        made = {k: HP.ParticleTerm(aocs, c, classification=k) for k in {"general", kind}}
        term = made[kind]
        space = np.arange(1 << n, dtype=np.uint64)
        other = py.choice([None, 2.5, 1j, 3, -2])
        entries = self.pick(True, False)
        right = self.bases(space if py.random() < 0.6 else base_vectors((n, py.randrange(n + 1))))
        square = len(right[0]) == 1 << n
        left = Forms(list(self.bases(space)) + [None]) if square else self.bases(space)

        def fresh(k):
            return lambda *x, **y: HP.ParticleTerm(aocs, c, classification=k).matrix_repr(*x, **y)
        self.add("ParticleTerm.matrix_repr", [fresh(k) for k in made] if entries else fresh(kind),
                 "state_indices_table, right_bases, *, left_bases=None, coeff=None, to_csr=True",
                 dict(state_indices_table=Forms([table, HP.IndexTable(tuple(table.objects()))]), right_bases=right, left_bases=left,
                      coeff=Forms([c, None]) if other is None else self.number(other), to_csr=entries))
        a = HP.AoC(py.choice([0, 1]), *labels[i])
        num = HP.NumberOperator(*labels[i])
        self.add("AoC.matrix_repr", [a.matrix_repr] + [HP.ParticleTerm([a]).matrix_repr, HP.AoC(a.otype, list(labels[i][0]), *labels[i][1:]).matrix_repr],
                 "state_indices_table, right_bases, *, left_bases=None, to_csr=True",
                 dict(state_indices_table=table, right_bases=right, left_bases=left, to_csr=True))
        self.add("NumberOperator.matrix_repr", [num.matrix_repr, num.toterm().matrix_repr],
                 "state_indices_table, bases, *, to_csr=True" if py.random() < 0.5 else "state_indices_table, bases",
                 dict(state_indices_table=table, bases=right, **{}))
        self.calls[-1] = self.calls[-1][:1] + ([num.matrix_repr, lambda state_indices_table, bases, **y: num.toterm().matrix_repr(state_indices_table, bases, **y)],
                                               "state_indices_table, bases, *, to_csr=True", dict(self.calls[-1][3], to_csr=Forms([True])))
        raw = [(table(x.state), x.otype) for x in aocs]
        tag = kind
        self.add("matrixrepr.matrix_function", matrixrepr.matrix_function, "term, right_bases, *, left_bases=None, coeff=1.0, special_tag='general', to_csr=True",
                 dict(term=self.sequence(raw), right_bases=right, left_bases=left, coeff=self.number(c), special_tag=tag, to_csr=True))
        self.add("ParticleTerm.normalize", HP.ParticleTerm.normalize, "aocs", dict(aocs=self.sequence([HP.Creator(*x) for x in py.sample(labels, 2)] + [HP.Annihilator(*labels[i])] * 0)))
        self.add("term*number", [lambda k: term * k, lambda k: k * term], "k", dict(k=self.number(py.choice([2, -0.5, 3.0]))))
        # factories
        (s0, p0, o0), (s1, p1, o1) = labels[i], labels[j]
        p0, o0 = self.pick(0, p0), self.pick(0, o0)
        f0, f1 = self.site(s0), self.site(s1)
        coeff = self.number(self.pick(1.0, 2, -0.75, 0.25, 1.5 + 0.5j))
        self.add("CPFactory", HP.CPFactory, "site, *, spin=0, orbit=0, coeff=1.0", dict(site=f0, spin=p0, orbit=o0, coeff=coeff))
        self.add("HubbardFactory", HP.HubbardFactory, "site, *, orbit=0, coeff=1.0", dict(site=f0, orbit=o0, coeff=coeff))
        # a second spin or orbit that is not given is the first one
        spin1, orbit1 = (Forms([p0, None]) if py.random() < 0.5 else p1), (Forms([o0, None]) if py.random() < 0.5 else o1)
        self.add("HoppingFactory", HP.HoppingFactory, "site0, site1, *, spin0=0, spin1=None, orbit0=0, orbit1=None, coeff=1.0",
                 dict(site0=f0, site1=f1, spin0=p0, spin1=spin1, orbit0=o0, orbit1=orbit1, coeff=coeff))
        p1, o1 = self.pick(0, p1), self.pick(0, o1)
        pair = dict(site0=f0, site1=f1, spin0=p0, spin1=p1, orbit0=o0, orbit1=o1, coeff=coeff)
        self.add("PairingFactory", HP.PairingFactory, "site0, site1, *, spin0=0, spin1=0, orbit0=0, orbit1=0, coeff=1.0, which='h'",
                 dict(pair, which=self.pick("h", "p")))
        self.add("CoulombFactory", HP.CoulombFactory, "site0, site1, *, spin0=0, spin1=0, orbit0=0, orbit1=0, coeff=1.0", pair)
        two = dict(site0=f0, site1=f1, coeff=coeff)
        self.add("HeisenbergFactory", HP.HeisenbergFactory, "site0, site1, *, coeff=1.0", two)
        alpha = py.choice("xyz")
        self.add("IsingFactory", [HP.IsingFactory, lambda site0, site1, alpha, **y: HP.TwoSpinTermFactory(site0, site1, alpha, alpha, **y)],
                 "site0, site1, alpha, *, coeff=1.0", dict(two, alpha=alpha))
        self.add("TwoSpinTermFactory", HP.TwoSpinTermFactory, "site0, site1, alpha0, alpha1, *, coeff=1.0",
                 dict(two, alpha0=py.choice("xyz"), alpha1=py.choice("xyz")))
        # spins
        total = py.randrange(2, 5)
        sites = gen.distinct_sites(py, total)
        places = HP.IndexTable([HP.SiteID(x) for x in sites])
        ops = [HP.SpinOperator(py.choice("xyzpm"), py.choice(sites)) for _ in range(py.randrange(1, 4))]
        self.add("SpinInteraction", HP.SpinInteraction, "operators, coeff=1.0", dict(operators=self.sequence(ops), coeff=self.number(c)))
        raw = [(places(HP.SiteID(x.site)), x.otype) for x in ops]
        self.add("SpinInteraction.matrix_function", [HP.SpinInteraction.matrix_function, HP.SpinInteraction(ops).matrix_function],
                 "operators, total_spin, coeff=1.0", dict(operators=self.sequence(raw), total_spin=total, coeff=self.number(c)))
        self.add("SpinOperator.matrix_function", HP.SpinOperator.matrix_function, "operator, total_spin", dict(operator=self.sequence(raw[0]), total_spin=total))
        self.add("SpinInteraction.matrix_repr", lambda *x, **y: HP.SpinInteraction(ops, c).matrix_repr(*x, **y), "site_indices_table, coeff=None",
                 dict(site_indices_table=places, coeff=Forms([c, None]) if other is None else self.number(other)))
        self.add("SpinOperator.matrix_repr", [ops[0].matrix_repr, HP.SpinInteraction(ops[:1]).matrix_repr], "site_indices_table", dict(site_indices_table=places))

    def spaces(self):
        py = self.py
        n = py.randrange(1, 6)
        m = py.randrange(n + 1)
        container = self.pick("array", "list", "tuple")
        sort = self.pick(True, False)
        states = py.sample(range(10), n)
        options = dict(container=container, sort=sort)
        signature = "*, container='array', sort=True"
        conserved = py.random() < 0.6
        whole = Forms([(n, m), [n, m], (tuple(range(n)), m), (list(range(n)), m), [tuple(range(n)), m]]) if conserved else Forms(
            [n, (n, -1), [n, -2], (tuple(range(n)), -1), [list(range(n)), -3]])
        whole = Forms([x for x in whole if not isinstance(x, int)] + [x for x in whole if isinstance(x, int)])
        chosen = Forms([(tuple(states), m), [states, m], (states, m), [tuple(states), m]] + ([(set(states), m)] if sort else []))
        lists = Forms([[x] for x in py.choice([whole, chosen])])
        if py.random() < 0.4:
            lists = Forms([[x[0], f([20, 21, 22], 1)] for x in lists for f in (lambda a, b: (a, b), lambda a, b: [tuple(a), b])])
        both = lambda *s, **o: HilbertSpace(*s)(**o)                                            # noqa: E731
        entry = [base_vectors, both, lambda *s, **o: HilbertSpace(*s).base_vectors(**o)]
        if len(lists[0]) == 1:
            def simple(s, **o):
                return (SimpleHilbertSpace(s) if isinstance(s, int) else SimpleHilbertSpace(s[0], s[1]))(**o)
            entry.append(simple)
        if not sort:
            entry = entry[:1]
        self.add("base_vectors", entry, "*subspace_specifiers, container='array', sort=True", dict(options, subspace_specifiers=lists))
        self.add("HilbertSpace", HilbertSpace, "*subspace_specifiers", dict(subspace_specifiers=lists))
        number = self.pick(-1, m)
        self.add("SimpleHilbertSpace", SimpleHilbertSpace, "states, number=-1", dict(states=Forms([tuple(states), list(states)]), number=number))
        self.add("SimpleHilbertSpace-count", SimpleHilbertSpace, "states, number=-1", dict(states=Forms([n, range(n), tuple(range(n))][:1] + [tuple(range(n)), list(range(n))]), number=number))
        hs = py.choice([SimpleHilbertSpace(states, m), HilbertSpace((states, m))])
        self.add("call", [hs, hs.base_vectors], signature, options)
        count = py.randrange(1, 12)
        few = py.randrange(count + 1)
        again = self.pick(False, True)
        for name, f in (("Permutation", Permutation), ("Combination", Combination)):
            self.add(name, f, "n, k, repeat=False", dict(n=count, k=few, repeat=again))
        spins = py.randrange(1, 5)
        self.add("TotalSpin", TotalSpin, "spin_num", dict(spin_num=spins))
        self.add("TotalSpinMatrices", averages.TotalSpinMatrices, "spin_num", dict(spin_num=spins))

    def lattices(self):
        py, rng = self.py, self.rng
        if py.random() < 0.4:
            dim = py.choice([1, 2, 3])
            vectors = np.diag([float(py.randrange(2, 5)) for _ in range(dim)])[:py.randrange(1, dim + 1)]
            points = np.unique(rng.integers(0, 2, size=(3, dim)), axis=0).astype(float)
        else:
            points, vectors = gen.random_lattice_data(self.case, max_points=3)
        name = self.pick("", "mine")
        self.add("Lattice", HP.Lattice, "points, vectors, name=''", dict(points=self.array(points, lists=False), vectors=self.array(vectors, lists=False), name=name))
        lat = HP.Lattice(np.array(points), np.array(vectors))
        k = py.randrange(len(points))
        away = points[k] + rng.integers(-3, 4, size=len(vectors)) @ vectors
        site = self.array(away, lists=False)
        inside = self.array(points[k], lists=False)
        self.add("Lattice.getIndex-fold", lat.getIndex, "site, *, fold=False", dict(site=site, fold=True))
        self.add("Lattice.getIndex", lat.getIndex, "site, *, fold=False", dict(site=inside, fold=self.pick(False, True)))
        self.add("Lattice.decompose", lat.decompose, "site", dict(site=site))
        self.add("Lattice.in_cluster", lat.in_cluster, "site", dict(site=py.choice([site, inside])))
        self.add("Lattice.getSite", lat.getSite, "index", dict(index=k))
        nth = py.randrange(3)
        self.add("Lattice.neighbor_distance", [lat.neighbor_distance, lambda nth: HP.Lattice(np.array(points), np.array(vectors)).neighbor_distance(nth)],
                 "nth", dict(nth=nth))

        def bonds(lat, *x, **y):
            intra, inter = lat.bonds(*x, **y)
            order = lambda bs: None if bs is None else sorted((tuple(np.round(np.concatenate(b.endpoints), 5)) for b in bs))      # noqa: E731
            return order(intra), order(inter)
        self.add("Lattice.bonds", [lambda *x, **y: bonds(lat, *x, **y), lambda *x, **y: bonds(HP.Lattice(np.array(points), np.array(vectors)), *x, **y)],
                 "nth, *, only=True, fold=False", dict(nth=nth, only=self.pick(True, False), fold=self.pick(False, True)))
        which = py.choice(gen.LATTICE_NAMES)
        nums = [self.pick(1, 2, 3) for _ in range(3)]
        self.add("lattice_generator", HP.lattice_generator, "which, num0=1, num1=1, num2=1",
                 dict(which=Forms([which]), num0=nums[0], num1=nums[1] if which != "chain" else 1, num2=nums[2] if which == "cubic" else 1))
        aliases = list(gen.SPECIAL[py.choice(sorted(gen.SPECIAL))])
        py.shuffle(aliases)
        self.add("special_cluster", lambda which: unnamed(HP.special_cluster(which)), "which", dict(which=Forms(aliases)))
        # paths
        dim = py.choice([2, 3])
        anchors = rng.integers(-3, 4, size=(py.randrange(2, 5), dim)).astype(float) + np.arange(4)[:0].sum()
        anchors[1:] += np.cumsum(rng.uniform(1, 2, size=(len(anchors) - 1, dim)), axis=0) if py.random() < 0.5 else 0
        pairs = list(zip(anchors, anchors[1:])) + [(anchors[-1], anchors[0])]
        if all(np.linalg.norm(a - b) > 1e-2 for a, b in pairs):
            forms = [list(anchors), tuple(anchors), anchors, np.asfortranarray(anchors)]
            if np.all(anchors == np.rint(anchors)):
                forms += [list(anchors.astype(int)), anchors.astype(int)]
            if np.all(anchors == np.rint(anchors)):
                forms.append(list(gen.storage(py, anchors)))
            self.add("KPath", HP.KPath, "points, min_num=100, loop=True, return_indices=True",
                     dict(points=Forms(forms), min_num=self.pick(100, 1, 7), loop=self.pick(True, False), return_indices=self.pick(True, False)))

    def geometry(self):
        py, rng = self.py, self.rng
        dim = py.choice([1, 2, 3])
        a, b = gen.distinct_sites(py, 2, dim)
        fa, fb = self.site(a), self.site(b)
        directed = self.pick(True, False)
        self.add("Bond", HP.Bond, "p0, p1, *, directional=True", dict(p0=fa, p1=fb, directional=directed))
        if not directed:
            # the order of the endpoints of an undirected bond does not matter
            self.add("Bond-order", [lambda p0, p1: HP.Bond(p0, p1, directional=False), lambda p0, p1: HP.Bond(p1, p0, directional=False)], "p0, p1", dict(p0=fa, p1=fb))
        bond = HP.Bond(a, b)
        digits = self.pick(None, 1, 3, 6)
        self.add("Bond.getLength", [bond.getLength, bond.flip().getLength, HP.Bond(list(a), np.array(b, dtype=float)).getLength], "ndigits=None", dict(ndigits=digits))
        self.add("Bond.getDisplace", [bond.getDisplace, HP.Bond(np.array(a, dtype=float), list(b)).getDisplace], "ndigits=None", dict(ndigits=digits))
        if dim < 3:
            self.add("Bond.getAzimuth", bond.getAzimuth, "radian=False, ndigits=None", dict(radian=self.pick(False, True), ndigits=digits))
        self.add("Bond.oppositeTo", bond.oppositeTo, "other", dict(other=Forms([HP.Bond(y, x) for x in fa for y in fb][::9])))
        p = np.round(rng.uniform(-3, 3, size=2), py.choice([0, 2]))
        q = p + np.array([py.choice([-1, 1]) * py.randrange(1, 4), py.choice([-1, 1]) * py.choice([1, 2, 0.5])])
        fp, fq = self.array(p), self.array(q)
        self.add("Line2D", HP.Line2D, "p0, p1, *, tol=1e-10", dict(p0=fp, p1=fq, tol=self.pick(1e-10, 1e-8)))
        line = HP.Line2D(p, q)
        known = py.choice([p[0], 0.5, 2, -1.0])
        self.add("Line2D.Coordinate", [line.Coordinate, line], "known, which='x'", dict(known=self.real(known), which=self.pick("x", "y")))
        point = py.choice([p, q, p + (q - p) * 0.5, p + [0, 1], p + [0.25, -1]])
        self.add("Line2D.LocationRelation", [line.LocationRelation, HP.Line2D(list(q), tuple(p)).LocationRelation], "point, *, tol=1e-10",
                 dict(point=self.array(point), tol=self.pick(1e-10, 1e-7)))
        ratios = np.linspace(0, 1, 101) if py.random() < 0.5 else rng.integers(-3, 4, size=py.randrange(1, 6)).astype(float)
        forms = self.array(ratios)
        if len(ratios) == 101:
            forms = Forms(list(forms) + [None])
        self.add("Line2D.PointsFactory", line.PointsFactory, "ratios=None", dict(ratios=forms))
        corners = np.array([[0.0, 0], [2, 0], [3, 1], [1, 3], [-1, 1]])[:py.randrange(3, 6)]
        shift = np.round(p)
        self.add("Polygon", Polygon, "vertices, *, tol=1e-10", dict(vertices=self.array(corners + shift), tol=self.pick(1e-10, 1e-8)))
        turned = [Polygon(corners + shift), Polygon(np.roll(corners, 1, axis=0) + shift), Polygon((corners + shift)[::-1])]
        probe = py.choice([corners[0], corners.mean(axis=0), (corners[0] + corners[1]) / 2, corners[0] + [0.0, -2.0], corners.mean(axis=0) * 0.5 + corners[1] * 0.5])
        self.add("Polygon.LocationRelation", [x.LocationRelation for x in turned], "point, ref_point, *, tol=1e-10",
                 dict(point=self.array(probe + shift), ref_point=Forms(list(self.array(corners.mean(axis=0) + shift)) + list(self.array(
                     corners[:3].mean(axis=0) + shift))), tol=self.pick(1e-10, 1e-8)))
        # rotations
        degrees = py.choice([0, 30, 45, 90, 120, -75, 400, 12.5])
        turn = self.pick(False, True)
        mirrored = self.pick(False, True)
        theta = self.real(degrees if turn else np.deg2rad(degrees))
        angle = dict(theta=theta, deg=turn, inversion=mirrored)
        plain = "theta, *, deg=False, inversion=False"
        units = np.eye(3)
        for k, (name, f) in enumerate((("x", HP.RotationX), ("y", HP.RotationY), ("z", HP.RotationZ))):
            self.add("Rotation" + name.upper(), [
                f, lambda theta, k=k, **o: HP.RotationGeneral(units[k], theta, **o),
                lambda theta, k=k, f=f, deg=False, inversion=False: f(np.deg2rad(theta) if deg else np.rad2deg(theta), deg=not deg, inversion=inversion)],
                plain, angle)
        axis = py.choice([(1, 2, 2), (0, 0, 1), (0, 3, 4), (-1, 1, 0), (0.5, -0.25, 2.0)])
        length = np.linalg.norm(axis)
        factor = np.rad2deg if turn else float
        polar = (factor(np.arctan2(axis[1], axis[0])), factor(np.arccos(axis[2] / length)))
        self.add("RotationGeneral", HP.RotationGeneral, "axis, theta, *, deg=False, inversion=False",
                 dict(angle, axis=Forms(list(self.array(axis)) + list(self.array(2.5 * np.array(axis))) + [polar, list(polar), np.array(polar)])))
        whole = py.randrange(-400, 400), py.randrange(0, 181)
        self.add("RotationGeneral-spherical", HP.RotationGeneral, "axis, theta, *, deg=False, inversion=False", dict(angle, axis=Forms(
            # (sines of shorter types may be taken in lower precision)
            [whole, list(whole), tuple(map(float, whole)), tuple(map(np.int64, whole)), np.array(whole), np.array(whole, dtype=float),
             np.array(whole, dtype=np.int32), np.array([whole[0], 0, whole[1]])[::2]])))
        self.add("RotationEuler", [HP.RotationEuler], "alpha, beta, gamma, *, deg=False, inversion=False",
                 dict(alpha=theta, beta=self.real(0.5), gamma=self.real(py.choice([1, -2, 0.25])), deg=turn, inversion=mirrored))
        scheme = self.pick(8, 4, 24, "rgb")
        colour = lambda: Forms(py.choice([["red", "r", "RED", "Red", "R"], ["blue", "b", "B"], ["black", "k", "K"], ["white", "w"], [None]]))   # noqa: E731
        self.add("coloring", coloring, "string, fg=None, bg=None, bold=False, color_scheme=8",
                 dict(string="text", fg=colour(), bg=colour(), bold=self.pick(False, True), color_scheme=scheme if scheme in (4, 8) else Forms([24, "rgb"])))

    def numerics(self):
        py, rng = self.py, self.rng
        n = py.randrange(3, 8)
        M = gen.random_hermitian(rng, n, py.random() < 0.5)
        v = rng.normal(size=n)
        vectors = {"a": v, "b": rng.normal(size=n), 3: rng.normal(size=n)}
        turned = dict(reversed(list(vectors.items())))
        steps = self.pick(200, n, n - 1)
        matrix = self.matrix(M)
        dicts = Forms([vectors, turned])
        start = Forms([v, np.array(v[::-1])[::-1], v.astype(complex)])
        self.add("KrylovRepresentation", [HP.KrylovRepresentation, lambda M, vectors, v0, *x, **y: HP.KrylovRepresentation(M, vectors, 2 * v0, *x, **y)][:1],
                 "M, vectors, v0, krylov_space_dim=200", dict(M=matrix, vectors=dicts, v0=start, krylov_space_dim=steps))
        self.add("MultiKrylov", HP.MultiKrylov, "M, vectors, krylov_space_dim=200", dict(M=matrix, vectors=dicts, krylov_space_dim=steps))
        a, b = HP.Annihilator((0, 0)), HP.Annihilator((1, 0))
        excited = {x: rng.normal(size=n) + (1j * rng.normal(size=n) if np.iscomplexobj(M) else 0) for x in (a, b, a.dagger(), b.dagger())}
        GE = float(np.linalg.eigvalsh(M)[0]) - 0.25
        omegas = rng.uniform(-2, 2, size=py.randrange(1, 4))
        eta, sign = self.pick(0.01, 0.1), self.pick("+", "-")
        As, Bs = [a, b], [a.dagger(), b.dagger()]
        exact = Forms([M, np.asfortranarray(M)])
        states = Forms([excited, dict(reversed(list(excited.items())))])
        structure = self.pick("array", "dict")
        ms, vs = HP.MultiKrylov(M, excited)
        projected = Forms([ms, dict(reversed(list(ms.items())))]), Forms([vs, dict(reversed(list(vs.items())))])
        for name in ("GFSolver", "RGFSolver"):
            common = dict(GE=self.real(GE), eta=self.real(eta), sign=sign)
            tail = ", eta=0.01, sign='+'"
            for kind, inner, text in (("Exact", dict(HM=exact, excited_states=states), "HM, excited_states"),
                                      ("Lanczos", dict(projected_matrices=projected[0], projected_vectors=projected[1]), "projected_matrices, projected_vectors")):
                one, many = getattr(HP, name + kind + "Single"), getattr(HP, name + kind + "Multiple")

                def element(omega, A, B, *x, many=many, **y):
                    return many(np.array([omega]), [A], [B], *x, **y)[0, 0, 0] if many else None
                k = py.randrange(2)
                A = a if name == "RGFSolver" else py.choice([a, b])
                self.add(name + kind + "Single", one, "omega, A, B, GE, " + text + tail,
                         dict(common, omega=self.real(omegas[0]), A=A, B=Bs[k], **inner))
                self.add(name + kind + "Multiple", many, "omegas, As, Bs, GE, " + text + tail + ", structure='array'",
                         dict(common, omegas=Forms([omegas, omegas[::-1].copy()[::-1]]), As=self.sequence(As), Bs=self.sequence(Bs), structure=structure, **inner))
        ket = rng.normal(size=n)
        self.add("QuantumAverages", averages.QuantumAverages, "ket, operator",
                 dict(ket=Forms([ket, 2 * ket, ket * 1j, ket.astype(complex)]), operator=Forms([sp.csr_matrix(M), sp.csc_matrix(M), sp.csr_array(M)])))


class Forms(list):
    """Equivalent values of a parameter."""


GROUPS = ("states", "terms", "spaces", "lattices", "geometry", "numerics")


def unnamed(lat):
    return lat.points, lat.vectors, lat.bs, lat.point_num


def value_of(form):
    # some forms can be used once only
    return form() if callable(form) and getattr(form, "__name__", "") == "<lambda>" else form


def default_like(value, default):
    return type(value) is type(default) and not isinstance(value, np.ndarray) and value == default


def way(case, funcs, signature, forms, plain):
    """One way to make the request: function, positional arguments, keywords."""
    py = case.py
    names, only, defaults, star = parse(signature)
    func = funcs[0] if plain else py.choice(funcs)
    chosen = {k: v[0] if plain else py.choice(v) for k, v in forms.items()}
    args, kwargs = [], {}
    by_position = 0 if plain else py.randrange(len(names) + 1)
    other = any(chosen[k] is not forms[k][0] for k in forms)
    omitted = 0
    if star:
        name = next(k for k in forms if k not in only)
        args = list(chosen.pop(name))
    for k in names[:by_position]:
        args.append(value_of(chosen.pop(k)))
    items = list(chosen.items())
    if not plain:
        py.shuffle(items)
    for k, v in items:
        if k in defaults and default_like(v, defaults[k]) and (plain is False and py.random() < 0.6):
            omitted += 1
            continue
        kwargs[k] = value_of(v)
    return func, args, kwargs, dict(position=by_position, omitted=omitted, other=other, alias=func is not funcs[0])


def ways(case):
    group = GROUPS[case.index % len(GROUPS)]
    requests = Ways(case)
    getattr(requests, group)()
    for label, funcs, signature, forms in requests.calls:
        func, args, kwargs, _ = way(case, funcs, signature, forms, True)
        case.note(request=label, keywords={k: v for k, v in kwargs.items()})
        want = collect(func, args, kwargs)
        if label not in seen:
            seen.add(label)
            case.obs("callables")
        for _ in range(4):
            func, args, kwargs, kind = way(case, funcs, signature, forms, False)
            case.note(request=label, way=(args, kwargs), kind=kind)
            got = collect(func, args, kwargs)
            case.check(want[0] == got[0] and (want[0] == "refused" or agree(want[1], got[1])), "differs",
                       lambda: "{0}: {1!r} but {2!r}".format(label, want, got))
            case.obs("ways compared")
            case.obs("by position", bool(kind["position"]))
            case.obs("defaults left out", bool(kind["omitted"]))
            case.obs("other forms", kind["other"])
            case.obs("aliases", kind["alias"])
            case.nontrivial(label, case.index, kind["position"], kind["omitted"], kind["other"])


def collect(func, args, kwargs):
    res = func(*args, **kwargs)
    return "answer", list(res) if hasattr(res, "__next__") else res


SECTIONS = [
    Section("ways", ways, 360, 12000),
]
