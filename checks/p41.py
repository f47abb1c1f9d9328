"""P41: invalid arguments are refused, and refused calls have no effect."""
import contextlib
import copy
import io
import os
import random

import matplotlib.pyplot as plt
import numpy as np
import scipy.sparse as sp

import HamiltonianPy as HP
from HamiltonianPy import bond as bond_module
from HamiltonianPy import lanczos as lanczos_module
from HamiltonianPy import rotation3d as rot
from HamiltonianPy.lattice import lattice as lattice_module
from HamiltonianPy.averages import TotalSpinAverages, TotalSpinMatrices
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace, base_vectors
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.quantumoperator import matrixrepr, quantumstate
from HamiltonianPy.tools.PandC import Combination, Permutation
from HamiltonianPy.tools.TotalSpin import TotalSpin
from HamiltonianPy.tools.colorprint import color_print, coloring
from HamiltonianPy.tools.runtimeenv import RunTimeEnv

from vlib import gen
from vlib.harness import NoProgress, Section
from vlib.objects import KINDS, Recipe
from vlib.world import PARTS, World, canon, library_constants, same

PID = "P41"
RULE = ("valid calls of all constructors, queries, operators and setters with one fault (shape, dimension, type, range, unknown name, "
        "duplicate, unknown key, missing image, zero vector, operand of another kind) put at a random position; the call has to raise, the "
        "arguments and the objects involved are compared before and after, as are the answers of the objects, of a catalogue of queries and "
        "the constants of the modules; non-trivial when a fault was refused")
ASSUMPTIONS = ["any exception counts as a refusal; which one is part of the other properties",
               "only faults that the documentation excludes explicitly or by its types are used"]
MUST = {"refused": 4000, "kinds of faults": 90, "arguments compared": 3000, "objects compared": 1500, "catalogues compared": 20}

kinds = set()


class Faults:
    """(name, function, arguments) of invalid calls."""

    def __init__(self, case):
        self.case, self.py, self.rng = case, case.py, case.rng
        self.list = []

    def add(self, name, func, *args):
        self.list.append((name, func, args))

    # ------------------------------------------------------------ ingredients
    def bad_site(self):
        """A site that is none."""
        py = self.py
        good = list(gen.distinct_sites(py, 1, py.choice([1, 2, 3]))[0])
        kind = py.choice(["empty", "four", "five", "text", "none", "complex", "nested", "scalar"])
        if kind == "empty":
            return []
        if kind in ("four", "five"):
            return (good * 5)[:4 if kind == "four" else 5]
        if kind in ("text", "none", "complex", "nested"):
            good[py.randrange(len(good))] = {"text": "1", "none": None, "complex": 1j, "nested": [0.0]}[kind]
            return good if py.random() < 0.5 else tuple(good)
        return py.choice([3, 0.5, None])

    def bad_count(self, low=0):
        """Neither an integer nor at least low."""
        return self.py.choice([low - 1, low - 2, -7, low + 0.5, float(low + 1), str(low + 1), None, [low + 1]])

    def bad_coeff(self):
        return self.py.choice(["1", None, [1.0], (2,), np.array([1.0, 2.0]), {"a": 1}, "x", b"1"])

    def site(self, dim=None):
        return gen.as_container(self.py, gen.distinct_sites(self.py, 1, dim)[0])

    def aoc(self, otype=None):
        py = self.py
        return HP.AoC(py.choice([0, 1]) if otype is None else otype, self.site(2), spin=py.randrange(2), orbit=py.randrange(2))

    # ----------------------------------------------------------------- states
    def states(self):
        py = self.py
        bad = self.bad_site()
        spin = py.choice([-1, -3, 0.5, "up", None, 1.0, [0]])
        good = self.site()
        for name, make in (("SiteID", HP.SiteID), ("StateID", HP.StateID), ("NumberOperator", HP.NumberOperator),
                           ("Creator", HP.Creator), ("Annihilator", HP.Annihilator), ("CPFactory", HP.CPFactory),
                           ("HubbardFactory", HP.HubbardFactory)):
            self.add(name + "-site", lambda make=make: make(bad), bad)
        for name, make in (("StateID", HP.StateID), ("NumberOperator", HP.NumberOperator), ("Creator", HP.Creator),
                           ("Annihilator", HP.Annihilator), ("CPFactory", HP.CPFactory)):
            self.add(name + "-spin", lambda make=make: make(good, spin=spin), good)
            self.add(name + "-orbit", lambda make=make: make(good, orbit=spin), good)
        self.add("HubbardFactory-orbit", lambda: HP.HubbardFactory(good, orbit=spin), good)
        self.add("AoC-site", lambda: HP.AoC(1, bad), bad)
        otype = py.choice([2, -1, "c", None, 0.5, "CREATION"])
        self.add("AoC-otype", lambda: HP.AoC(otype, good), good)
        self.add("AoC-spin", lambda: HP.AoC(0, good, spin=spin), good)
        self.add("AoC-orbit", lambda: HP.AoC(0, good, spin=0, orbit=spin), good)
        letter = py.choice(["a", "X", "xy", "", None, 0, "+", "pm"])
        self.add("SpinOperator-otype", lambda: HP.SpinOperator(letter, good), good)
        self.add("SpinOperator-site", lambda: HP.SpinOperator("x", bad), bad)
        # derived ones
        spin2 = py.choice([-1, 0.5, "up", [0]])
        aoc, num, state = self.aoc(), HP.NumberOperator(good), HP.StateID(good)
        for name, x in (("AoC", aoc), ("NumberOperator", num), ("StateID", state)):
            if hasattr(x, "derive"):
                self.add(name + ".derive-spin", lambda x=x: x.derive(spin=spin2), x)
                self.add(name + ".derive-orbit", lambda x=x: x.derive(orbit=spin2), x)
        self.add("SpinOperator.derive-otype", lambda: HP.SpinOperator("x", good).derive(otype="w"), good)
        other = py.choice([1, "x", None, HP.SiteID(good), (1, 2)])
        spin_op = HP.SpinOperator("z", good)
        self.add("AoC.same_state-type", lambda: aoc.same_state(other), aoc)
        self.add("AoC.conjugate_of-type", lambda: aoc.conjugate_of(other), aoc)
        self.add("SpinOperator.same_site-type", lambda: spin_op.same_site(other), spin_op)
        self.add("SpinOperator.conjugate_of-type", lambda: spin_op.conjugate_of(other), spin_op)
        for name, x in (("AoC", aoc), ("SpinOperator", spin_op), ("SiteID", HP.SiteID(good)), ("StateID", state)):
            y = py.choice([1, "x", None, (0, 0)])
            self.add(name + "<other", lambda x=x, y=y: py.choice([lambda: x < y, lambda: x > y, lambda: x <= y, lambda: y < x])(), x)
        self.add("AoC<NumberOperator", lambda: aoc < num, aoc, num)

    # ------------------------------------------------------------------ terms
    def terms(self):
        py = self.py
        c, a = self.aoc(1), self.aoc(0)
        bad = self.bad_coeff()
        tag = py.choice(["Hopping", "coulomb", "", None, "Number", 1, "hop"])
        self.add("ParticleTerm-coeff", lambda: HP.ParticleTerm((c, a), coeff=bad), c, a)
        self.add("ParticleTerm-classification", lambda: HP.ParticleTerm((c, a), classification=tag), c, a)
        term = HP.ParticleTerm([c, a], coeff=py.choice([2, 0.5, 1j]))
        z, x = HP.SpinOperator("z", self.site(2)), HP.SpinOperator("x", self.site(2))
        inter = HP.SpinInteraction([z, x], coeff=py.choice([2, 0.5, 1j]))
        self.add("SpinInteraction-coeff", lambda: HP.SpinInteraction((z, x), coeff=bad), z, x)
        # numpy arrays multiply from the left entry by entry, which is their own doing
        factor = py.choice(["2", None, (1,), {"a": 1}])
        for name, y in (("AoC", c), ("NumberOperator", HP.NumberOperator(self.site(2))), ("ParticleTerm", term), ("SpinOperator", z),
                        ("SpinInteraction", inter)):
            self.add(name + "*other", lambda y=y: y * factor, y)
            self.add("other*" + name, lambda y=y: factor * y, y)
        self.add("fermion*spin", lambda: py.choice([c, term]) * py.choice([z, inter]), c, term, z, inter)
        self.add("spin*fermion", lambda: py.choice([z, inter]) * py.choice([c, term]), c, term, z, inter)

        def assign(t):
            t.coeff = bad
        self.add("ParticleTerm.coeff=", lambda: assign(term), term)
        self.add("SpinInteraction.coeff=", lambda: assign(inter), inter)
        s0, s1 = self.site(2), self.site(2)
        broken = self.bad_site()
        ends = [s0, broken] if py.random() < 0.5 else [broken, s1]
        for name, make in (("HoppingFactory", HP.HoppingFactory), ("PairingFactory", HP.PairingFactory),
                           ("CoulombFactory", HP.CoulombFactory), ("HeisenbergFactory", HP.HeisenbergFactory)):
            self.add(name + "-site", lambda make=make: make(*ends), s0, s1, broken)
            self.add(name + "-coeff", lambda make=make: make(s0, s1, coeff=bad), s0, s1)
        spin = py.choice([-1, 0.5, "up", [0]])
        key = py.choice(["spin0", "spin1", "orbit0", "orbit1"])
        for name, make in (("HoppingFactory", HP.HoppingFactory), ("PairingFactory", HP.PairingFactory),
                           ("CoulombFactory", HP.CoulombFactory)):
            self.add(name + "-" + key, lambda make=make: make(s0, s1, **{key: spin}), s0, s1)
        self.add("CPFactory-coeff", lambda: HP.CPFactory(s0, coeff=bad), s0)
        self.add("HubbardFactory-coeff", lambda: HP.HubbardFactory(s0, coeff=bad), s0)
        which = py.choice(["q", "", None, "Particle", "H", 1, "holes"])
        self.add("PairingFactory-which", lambda: HP.PairingFactory(s0, s1, which=which), s0, s1)
        alpha = py.choice(["p", "m", "w", "X", "", None, 0, "xy"])
        self.add("IsingFactory-alpha", lambda: HP.IsingFactory(s0, s1, alpha), s0, s1)
        pair = [alpha, "x"] if py.random() < 0.5 else ["z", alpha]
        self.add("TwoSpinTermFactory-alpha", lambda: HP.TwoSpinTermFactory(s0, s1, *pair), s0, s1)
        self.add("IsingFactory-coeff", lambda: HP.IsingFactory(s0, s1, "x", coeff=bad), s0, s1)
        # swapping the operators of one state
        aocs = [c, c.dagger()] + [self.aoc() for _ in range(py.randrange(3))]
        aocs = [y for k, y in enumerate(aocs) if k < 2 or not y.same_state(c)]
        swap = aocs[2:]
        at = py.randrange(len(swap) + 1)
        hidden = swap[:at] + [c.dagger(), c] + swap[at:]
        self.add("normalize-same-state", lambda: HP.ParticleTerm.normalize(hidden), hidden)

    # --------------------------------------------------------------- matrices
    def matrices(self):
        py = self.py
        labels = gen.state_labels(py, 4)
        table = HP.IndexTable([HP.StateID(s, spin=p, orbit=o) for s, p, o in labels[:3]])
        s, p, o = labels[3]
        unknown = HP.AoC(py.choice([0, 1]), s, spin=p, orbit=o)
        known = [HP.AoC(1, labels[k][0], spin=labels[k][1], orbit=labels[k][2]) for k in range(3)]
        bases = base_vectors(3)
        full = list(known) + [unknown]
        py.shuffle(full)
        bad = self.bad_coeff()
        term = HP.ParticleTerm(full[:py.randrange(1, 5)] + [unknown])
        self.add("AoC.matrix_repr-state", lambda: unknown.matrix_repr(table, bases), unknown, bases)
        self.add("ParticleTerm.matrix_repr-state", lambda: term.matrix_repr(table, bases), term, bases)
        self.add("NumberOperator.matrix_repr-state", lambda: HP.NumberOperator(s, p, o).matrix_repr(table, bases), bases)
        self.add("AoC.getStateIndex-state", lambda: unknown.getStateIndex(table), unknown)
        good = HP.ParticleTerm([known[0], known[1].dagger()], coeff=0.5, classification=py.choice(["general", "hopping"]))
        if bad is not None and not isinstance(bad, np.ndarray):
            self.add("ParticleTerm.matrix_repr-coeff", lambda: good.matrix_repr(table, bases, coeff=bad), good, bases)
        # the image is missing
        sector = base_vectors((3, py.choice([1, 2])))
        self.add("AoC.matrix_repr-image", lambda: known[1].matrix_repr(table, sector), known[1], sector)
        # hopping takes a particle from state 1 to state 0
        cut = np.array([b for b in sector if not (int(b) >> table(known[0].state)) & 1 or (int(b) >> table(known[1].state)) & 1],
                       dtype=np.uint64)
        if any(int(b) >> table(known[1].state) & 1 and not int(b) >> table(known[0].state) & 1 for b in cut):
            self.add("ParticleTerm.matrix_repr-image", lambda: good.matrix_repr(table, cut), good, cut)
            self.add("ParticleTerm.matrix_repr-left", lambda: good.matrix_repr(table, sector, left_bases=cut), good, sector, cut)
        self.add("matrix_repr-negative-index", lambda: matrixrepr.matrix_function([(-1, 1)], bases), bases)
        self.add("matrix_repr-index-64", lambda: matrixrepr.matrix_function([(64, 1), (1, 0)], bases), bases)
        sites = gen.distinct_sites(py, 4)
        spins = HP.IndexTable([HP.SiteID(x) for x in sites[:3]])
        far = HP.SpinOperator(py.choice("xyzpm"), sites[3])
        ops = [HP.SpinOperator(py.choice("xyzpm"), x) for x in sites[:2]] + [far]
        py.shuffle(ops)
        inter = HP.SpinInteraction(ops)
        near = HP.SpinInteraction([HP.SpinOperator("x", sites[0]), HP.SpinOperator("z", sites[1])])
        self.add("SpinOperator.matrix_repr-site", lambda: far.matrix_repr(spins), far)
        self.add("SpinInteraction.matrix_repr-site", lambda: inter.matrix_repr(spins), inter)
        self.add("SpinOperator.getSiteIndex-site", lambda: far.getSiteIndex(spins), far)
        self.add("SpinInteraction.matrix_repr-coeff", lambda: near.matrix_repr(spins, bad), near) if bad is not None and not isinstance(bad, np.ndarray) else None
        count = py.choice([0, -1, 1.5, "3", None, 2.0])
        raw = [(0, "x"), (1, "y")]
        self.add("SpinInteraction.matrix_function-total", lambda: HP.SpinInteraction.matrix_function(raw, count), raw)
        self.add("SpinInteraction.matrix_function-coeff", lambda: HP.SpinInteraction.matrix_function(raw, 3, bad), raw)
        beyond = [(3, py.choice("xyz"))] + py.choice([[], [(0, "x")], [(0, "x"), (1, "z")]])
        self.add("SpinInteraction.matrix_function-index", lambda: HP.SpinInteraction.matrix_function(beyond, 3), beyond)
        self.add("SpinOperator.matrix_function-index", lambda: HP.SpinOperator.matrix_function(beyond[0], 3), beyond)
        wrong = [(0, "x"), (1, py.choice(["w", "X", "", None]))]
        self.add("SpinInteraction.matrix_function-otype", lambda: HP.SpinInteraction.matrix_function(wrong, 3), wrong)
        self.add("SpinOperator.matrix_function-otype", lambda: HP.SpinOperator.matrix_function(wrong[1], 3), wrong)
        number = py.choice([0, -1, -5, 1.5, "3", None, 2.0])
        for name, make in (("TotalSpin", TotalSpin), ("TotalSpinMatrices", TotalSpinMatrices), ("TotalSpinAverages", TotalSpinAverages)):
            self.add(name + "-count", lambda make=make: make(number))

    # ----------------------------------------------------------------- spaces
    def spaces(self):
        py = self.py
        n = py.randrange(2, 6)
        states = py.sample(range(9), n)
        at = py.randrange(n)

        def faulty(value):
            res = list(states)
            res[at] = value
            return res
        bad = py.choice([faulty(-1), faulty(states[at - 1]), faulty(0.5), faulty("1"), faulty(None), [], 0, -3, 2.5, None, "ab",
                         np.array([1, 2])])
        bad = tuple(bad) if isinstance(bad, list) and py.random() < 0.5 else bad
        many = py.choice([n + 1, n + 5])
        number = py.choice([n + 1, "1", None, 0.5, 1.0])
        self.add("SimpleHilbertSpace-states", lambda: SimpleHilbertSpace(bad, 0), bad)
        self.add("SimpleHilbertSpace-number", lambda: SimpleHilbertSpace(states, number), states)
        lists = [[states, many], [bad, 0], bad if not isinstance(bad, (list, tuple)) or len(bad) != 2 else [bad, 0], [states], [states, 1, 2],
                 [], [many - 1, many]]
        spec = py.choice(lists)
        rest = [[k for k in range(10, 13)], 1]
        both = [rest, spec] if py.random() < 0.5 else [spec, rest]
        both = both if py.random() < 0.5 else [spec]
        self.add("HilbertSpace-specifier", lambda: HilbertSpace(*both), both)
        self.add("base_vectors-specifier", lambda: base_vectors(*both), both)
        overlapping = [[states, 1], [[20, states[at]], 1], [[30, 31], -1]]
        py.shuffle(overlapping)
        self.add("HilbertSpace-overlap", lambda: HilbertSpace(*overlapping), overlapping)
        self.add("base_vectors-overlap", lambda: base_vectors(*overlapping), overlapping)
        container = py.choice(["set", "", None, "Array", list])
        for name, f in (("SimpleHilbertSpace", SimpleHilbertSpace(states, 1).base_vectors), ("HilbertSpace", HilbertSpace([states, 1]).base_vectors)):
            self.add(name + "-container", lambda f=f: f(container=container))
        self.add("base_vectors-container", lambda: base_vectors(3, container=container))
        # tables
        labels = gen.state_labels(py, 5)
        objects = [HP.StateID(s, spin=p, orbit=o) for s, p, o in labels]
        given = list(objects)
        given.insert(py.randrange(1, 6), objects[py.randrange(5)] if py.random() < 0.5 else HP.StateID(*labels[py.randrange(5)]))
        self.add("IndexTable-duplicate", lambda: HP.IndexTable(given), given)
        mixed = list(objects)
        mixed.insert(py.randrange(1, 5), py.choice([1, "a", None, HP.SiteID(labels[0][0])]))
        self.add("IndexTable-mixed", lambda: HP.IndexTable(mixed), mixed)
        start = py.randrange(3)
        table = HP.IndexTable(objects[:4], start=start)
        self.add("IndexTable-unknown", lambda: py.choice([table, table.query_index])(objects[4]))
        self.add("IndexTable-type", lambda: py.choice([table, table.query_index])(py.choice([1, "a", None, HP.SiteID(labels[0][0])])))
        self.add("IndexTable-index", lambda: table.query_object(py.choice([start - 1, start + 4, -9, 100])))
        self.add("IndexTable-index-type", lambda: table.query_object(py.choice([0.5, "0", None, 1.0, objects[0]])))
        self.add("IndexTable-unhashable", lambda: HP.IndexTable([[1], [2]]))

    # ---------------------------------------------------------------- lattice
    def lattices(self):
        py, rng = self.py, self.rng
        points, vectors = gen.random_lattice_data(self.case, max_points=4)
        lat = HP.Lattice(points, vectors)
        dim = points.shape[1]
        twice = np.concatenate([points, points[[py.randrange(len(points))]] + py.choice([0, 3e-5])])[rng.permutation(len(points) + 1)]
        self.add("Lattice-duplicate-point", lambda: HP.Lattice(twice, vectors), twice, vectors)
        if len(vectors) < dim:
            double = np.concatenate([vectors, vectors[[py.randrange(len(vectors))]]])
            self.add("Lattice-duplicate-vector", lambda: HP.Lattice(points, double), points, double)
        elif dim > 1:
            double = vectors.copy()
            double[0] = double[1]
            self.add("Lattice-duplicate-vector", lambda: HP.Lattice(points, double), points, double)
        extra = np.concatenate([vectors, rng.uniform(1, 2, size=(dim + 1 - len(vectors), dim))])
        self.add("Lattice-many-vectors", lambda: HP.Lattice(points, extra), points, extra)
        wide = np.concatenate([points, np.zeros((len(points), 4 - dim))], axis=1), np.eye(4)[:2]
        self.add("Lattice-four-dimensions", lambda: HP.Lattice(*wide), *wide)
        other = np.eye(3)[:1, :dim % 3 + 1]
        self.add("Lattice-other-dimension", lambda: HP.Lattice(points, other), points, other)
        shape = py.choice([points.tolist(), points[0], points[None], None])
        self.add("Lattice-points-form", lambda: HP.Lattice(shape, vectors), vectors)
        shape2 = py.choice([vectors.tolist(), vectors[0], vectors[None], None])
        self.add("Lattice-vectors-form", lambda: HP.Lattice(points, shape2), points)
        if dim > 1:
            parallel = np.stack([vectors[0], 2 * vectors[0]])
            parallel[:, 1:] = 0
            parallel[:, 0] = (1, 2)
            self.add("Lattice-parallel-vectors", lambda: HP.Lattice(points, parallel), points, parallel)
        nth = self.bad_count()
        nth = -1 if nth == -2 else nth
        self.add("neighbor_distance-nth", lambda: lat.neighbor_distance(nth), lat)
        self.add("bonds-nth", lambda: lat.bonds(nth), lat)
        index = py.choice([-1, len(points), len(points) + 3, 0.0, "0", None])
        self.add("getSite-index", lambda: lat.getSite(index), lat)
        off = points[py.randrange(len(points))] + vectors.T @ rng.integers(-2, 3, size=len(vectors))
        shift = rng.normal(size=dim)
        shift *= py.choice([2e-3, 0.01]) / np.linalg.norm(shift)
        off = off + shift
        # far from all equivalent points, they are at least 0.05 apart
        self.add("getIndex-off", lambda: lat.getIndex(off), lat, off)
        self.add("getIndex-off-fold", lambda: lat.getIndex(off, fold=True), lat, off)
        self.add("decompose-off", lambda: lat.decompose(off), lat, off)
        out = points[0] + 3 * vectors[0]
        if min(np.linalg.norm(out - p) for p in points) > 1e-2:
            self.add("getIndex-outside", lambda: lat.getIndex(out), lat, out)
        form = py.choice([points[0].tolist(), tuple(points[0]), points[:1], np.append(points[0], 0.0), points[0][:-1], np.float64(0.5), None])
        self.add("getIndex-form", lambda: lat.getIndex(form), lat)
        self.add("decompose-form", lambda: lat.decompose(form), lat)
        self.add("in_cluster-form", lambda: lat.in_cluster(form), lat)
        scope = self.bad_count()
        self.add("show-scope", lambda: lat.show(scope=scope), lat)
        cubic = HP.lattice_generator("cubic")
        self.add("show-3d", lambda: cubic.show(), cubic)
        num = self.bad_count(1)
        which = py.choice(["num0", "num1", "num2"])
        name = py.choice(gen.LATTICE_NAMES)
        self.add("lattice_generator-" + which, lambda: HP.lattice_generator(name, **dict({"num0": 1, "num1": 1}, **{which: num})))
        self.add("lattice_generator-name", lambda: HP.lattice_generator(py.choice(["Square", "hexagon", "", "square "])))
        self.add("special_cluster-name", lambda: HP.special_cluster(py.choice(["Cross", "square", "", "t"])))
        # paths
        dim = py.choice([2, 3])
        anchors = list(rng.uniform(-3, 3, size=(py.randrange(2, 6), dim)))
        num = self.bad_count(1)
        self.add("KPath-num", lambda: HP.KPath(anchors, min_num=num), anchors)
        at = py.randrange(len(anchors))
        again = list(anchors)
        again.insert(at, anchors[at] + py.choice([0, 1e-6]))
        self.add("KPath-repeated", lambda: HP.KPath(again, min_num=3), again)
        self.add("KPath-single", lambda: HP.KPath(anchors[:1], min_num=3), anchors)
        self.add("KPath-none", lambda: HP.KPath([], min_num=3))
        wrong = list(anchors)
        wrong[at] = py.choice([np.zeros(1), np.zeros(4), np.zeros((2, 2)), np.float64(1)])
        self.add("KPath-shape", lambda: HP.KPath(wrong, min_num=3), wrong)
        number = py.choice([1, 4, 5])
        line = [np.full(number, float(k)) for k in range(len(anchors))]
        self.add("KPath-dimension", lambda: HP.KPath(line, min_num=3), line)
        mixed = list(anchors)
        mixed[at] = np.ones(5 - dim)
        self.add("KPath-mixed", lambda: HP.KPath(mixed, min_num=3), mixed)
        zone = py.choice([np.eye(3), np.eye(2)[:1], np.zeros(2), [[1.0, 0.0], [0.0, 1.0]], np.ones((2, 3))])
        self.add("ShowFirstBZ-form", lambda: HP.ShowFirstBZ(zone))

    # --------------------------------------------------------------- geometry
    def geometry(self):
        py, rng = self.py, self.rng
        dim = py.choice([1, 2, 3])
        a, b = (np.array(x, dtype=float) for x in gen.distinct_sites(py, 2, dim))
        other = np.append(b, 1.0) if dim < 3 else b[:2]
        ends = [a, other] if py.random() < 0.5 else [other, a]
        self.add("Bond-dimensions", lambda: HP.Bond(*ends), *ends)
        form = py.choice([np.zeros(4), np.zeros((2, 2)), [], np.float64(1.0)])
        self.add("Bond-form", lambda: HP.Bond(form, form), form)
        loose = HP.Bond(a, b, directional=False)
        self.add("getDisplace-loose", lambda: loose.getDisplace(), loose)
        self.add("flip-loose", lambda: loose.flip(), loose)
        self.add("getAzimuth-loose", lambda: loose.getAzimuth(), loose)
        self.add("oppositeTo-loose", lambda: loose.oppositeTo(HP.Bond(b, a)), loose)
        self.add("oppositeTo-type", lambda: HP.Bond(a, b, directional=True).oppositeTo(py.choice([1, None, (a, b)])), a, b)
        precision = py.choice([-1, 0.5, "4", None, 4.0, -3])
        for module in (bond_module, quantumstate, lattice_module):
            self.add(module.__name__.split(".")[-1] + "-precision", lambda module=module: module.set_float_point_precision(precision))
        threshold = py.choice([-1e-10, -1.0, "1", None, [1e-4]])
        for module in (lanczos_module, rot):
            self.add(module.__name__.split(".")[-1] + "-threshold", lambda module=module: module.set_threshold(threshold))
        # lines
        p = np.round(rng.uniform(-3, 3, size=2), 2)
        q = p + np.array([py.choice([-1, 1]) * py.uniform(0.5, 3), py.choice([-1, 1]) * py.uniform(0.5, 3)])
        line = HP.Line2D(p, q)
        near = p + rng.uniform(-1, 1, size=2) * py.choice([0, 5e-11])
        self.add("Line2D-identical", lambda: HP.Line2D(p, near), p, near)
        flat = py.choice([np.zeros(3), np.zeros(1), np.zeros((2, 1)), [1.0], np.float64(0)])
        self.add("Line2D-form", lambda: HP.Line2D(*py.choice([(p, flat), (flat, q)])), p, q)
        self.add("Line2D-which", lambda: line(0.5, which=py.choice(["z", "", None, "X", 0])), line)
        level = HP.Line2D(p, [q[0], p[1]])
        upright = HP.Line2D(p, [p[0], q[1]])
        self.add("Line2D-horizontal", lambda: level(0.3, which="y"), level)
        self.add("Line2D-vertical", lambda: upright(0.3, which="x"), upright)
        self.add("PointsFactory-form", lambda: line.PointsFactory(py.choice([np.zeros((2, 2)), 0.5, np.float64(0.1)])), line)
        vs = np.array([[0.0, 0], [2, 0], [2.5, 1], [1, 2], [-1, 1.5]]) + p
        at = py.randrange(5)
        double = np.insert(vs, py.randrange(6), vs[at] + py.choice([0, 5e-11]), axis=0)
        self.add("Polygon-duplicate", lambda: Polygon(double), double)
        self.add("Polygon-two", lambda: Polygon(vs[:2]), vs)
        space = np.concatenate([vs, np.zeros((5, 1))], axis=1)
        self.add("Polygon-3d", lambda: Polygon(py.choice([space, vs.ravel(), vs[:, :1]])), vs)
        # rotations
        axis = py.choice([[0, 0, 0], (0.0, 0.0, 1e-12), np.zeros(3), "w", "", None, 3, "xy", 0.5])
        self.add("RotationGeneral-axis", lambda: HP.RotationGeneral(axis, py.uniform(0, 3)))
        # counting
        n = py.randrange(1, 30)
        for name, f in (("Permutation", Permutation), ("Combination", Combination)):
            self.add(name + "-more", lambda f=f: f(n, n + py.choice([1, 4])))
            self.add(name + "-negative", lambda f=f: f(py.choice([-n, n]), -py.randrange(1, 5)))
            self.add(name + "-type", lambda f=f: f(*py.choice([(n + 0.5, 1), (n, 0.5), ("5", 1), (n, None)])))
            self.add(name + "-repeat-more", lambda f=f: f(n, n + py.choice([1, 4]), repeat=True))
            self.add(name + "-repeat-negative", lambda f=f: f(py.choice([-n, n]), -py.randrange(1, 5), repeat=True))
            self.add(name + "-repeat-type", lambda f=f: f(*py.choice([(n + 0.5, 1), (n, 0.5), ("5", 1), (n, None)]), repeat=True))

    # -------------------------------------------------------------- numerics
    def numerics(self):
        py, rng = self.py, self.rng
        n = py.randrange(2, 7)
        M = gen.random_hermitian(rng, n, py.random() < 0.5)
        M = py.choice([np.array, sp.csr_matrix])(M)
        v = rng.normal(size=n)
        vectors = {"a": v, "b": rng.normal(size=n)}
        zero = np.zeros(n) if py.random() < 0.5 else rng.normal(size=n) * 1e-7
        self.add("Krylov-zero", lambda: HP.KrylovRepresentation(M, vectors, zero), M, vectors, zero)
        short = rng.normal(size=n + py.choice([-1, 1]))
        self.add("Krylov-size", lambda: HP.KrylovRepresentation(M, vectors, short), M, vectors, short)
        mixed = dict(vectors, c=py.choice([zero, short]))
        self.add("MultiKrylov-vector", lambda: HP.MultiKrylov(M, mixed), M, mixed)
        dense = M if isinstance(M, np.ndarray) else M.toarray()
        op, op2 = HP.AoC(0, (0, 0)), HP.AoC(0, (1, 0))
        states = {op: v, op.dagger(): rng.normal(size=n)}
        omegas = np.array([0.1, 0.7])
        for name in ("GFSolverExact", "RGFSolverExact"):
            single, multiple = getattr(HP, name + "Single"), getattr(HP, name + "Multiple")
            self.add(name + "Single-missing", lambda f=single: f(0.3, op2, op.dagger(), -1.0, dense, states), dense, states)
            self.add(name + "Multiple-missing", lambda f=multiple: f(omegas, [op, op2], [op.dagger()], -1.0, dense, states), dense, states, omegas)
            wrong = dict(states)
            wrong[op.dagger()] = short
            self.add(name + "Single-size", lambda f=single, w=wrong: f(0.3, op, op.dagger(), -1.0, dense, w), dense, wrong)
        ms, vs = HP.MultiKrylov(M, states)
        for name in ("GFSolverLanczos", "RGFSolverLanczos"):
            single, multiple = getattr(HP, name + "Single"), getattr(HP, name + "Multiple")
            self.add(name + "Single-missing", lambda f=single: f(0.3, op, op2.dagger(), -1.0, ms, vs), ms, vs)
            self.add(name + "Multiple-missing", lambda f=multiple: f(omegas, [op], [op.dagger(), op2], -1.0, ms, vs), ms, vs, omegas)


    # ------------------------------------------------------------------ tools
    def tools(self):
        py = self.py
        text = py.choice(["", "x", "two words", "\n"])
        code = {4: [29, 38, 48, 256, -1, 89, 98, 108, 1000], 8: [256, -1, 1000], 24: [(256, 0, 0), (0, -1, 0), [0, 0, 300], (1.5, 0, 0), (0, 0, "1")],
                "rgb": [(0, 256, 0), [0, 0, -1]]}
        scheme = py.choice(list(code))
        unknown = py.choice(["purple", "", "rr", "bright red", "#12345", "#1234567", "#12345g"])
        where = py.choice(["fg", "bg"])
        other = {"fg": "bg", "bg": "fg"}[where]
        good = {other: py.choice(["red", "k", None])}
        for name, f in (("coloring", coloring), ("color_print", color_print)):
            bad = py.choice(code[scheme])
            self.add(name + "-code", lambda f=f, bad=bad: f(text, **dict(good, color_scheme=scheme, **{where: bad})))
            self.add(name + "-name", lambda f=f: f(text, **dict(good, color_scheme=scheme, **{where: unknown})))
            self.add(name + "-scheme", lambda f=f: f(text, color_scheme=py.choice([0, 16, "RGB", None, "8", 25]), **good))
            threads = py.choice([0, -1, 1.5, "2", [1], 2.0])
            self.add("RunTimeEnv-threads", lambda: RunTimeEnv(rd=py.random() < 0.5, path="not-made", threads_num=threads))
            if scheme == 4:
                wrong = py.choice([31, 97]) if where == "bg" else py.choice([41, 107])
                self.add(name + "-ground", lambda f=f: f(text, **dict(good, color_scheme=4, **{where: wrong})))


GROUPS = ("states", "terms", "matrices", "spaces", "lattices", "geometry", "numerics", "tools")
BATTERY = {}


def plain(x):
    """What an argument looks like; objects of the library by their answers."""
    if isinstance(x, (HP.Line2D, HP.SiteID, HP.StateID, HP.AoC, HP.NumberOperator, HP.SpinOperator)):
        return repr(x)
    return canon(x)


def battery():
    """Answers that depend on the settings of the modules."""
    world = World(4711, ["lattice", "bond", "states"])
    return [(name, canon(query())) for name, query in world.queries] + [
        (k, canon(v)) for k, v in sorted(library_constants().items())] + [
        ("bond length", HP.Bond((0, 0), (1.00004, 0)).getLength()), ("noise", HP.SiteID((0.12344,)) == HP.SiteID((0.12346,))),
        ("lattice", canon(HP.Lattice(np.zeros((1, 1)), np.array([[1.23456]])).neighbor_distance(2))),
        ("rotation", canon(HP.RotationGeneral((1, 2, 2), 0.3))),
        ("krylov", canon(HP.KrylovRepresentation(np.diag([1.0, 2.0, 3.0]), {}, np.ones(3))[0]))]


def process_state():
    """What a refused call has to leave alone in the process."""
    return [plt.get_fignums(), sorted(np.geterr().items()), sorted(np.get_printoptions().items(), key=str)[:3],
            np.random.get_state()[1].sum(), random.getstate()[1][-1], len(plt.rcParams), os.getcwd(), sorted(os.listdir("."))]


def refused(case):
    py = case.py
    group = GROUPS[case.index % len(GROUPS)]
    if "battery" not in BATTERY:
        BATTERY["battery"] = battery()
    faults = Faults(case)
    getattr(faults, group)()
    py.shuffle(faults.list)
    case.note(group=group)
    for name, func, args in faults.list:
        before = [plain(x) for x in args]
        objects = [id(y) for x in args if isinstance(x, (list, tuple)) for y in x]
        case.note(fault=name, arguments=args)
        state = process_state()
        printed = io.StringIO()
        try:
            with contextlib.redirect_stdout(printed):
                res = func()
        except NoProgress:
            raise
        except Exception:
            case.run.oracle_calls += 1
        else:
            case.fail("accepted", "{0} returned {1!r}".format(name, res))
        case.check(not printed.getvalue(), "printed", lambda: "{0}: {1!r}".format(name, printed.getvalue()))
        case.check(same(process_state(), state), "process-changed", lambda: "{0}: {1} -> {2}".format(name, state, process_state()))
        case.obs("refused")
        if name not in kinds:
            kinds.add(name)
            case.obs("kinds of faults")
        after = [plain(x) for x in args]
        case.check(same(before, after), "argument-changed", lambda: "{0}: {1} -> {2}".format(name, before, after))
        case.check(objects == [id(y) for x in args if isinstance(x, (list, tuple)) for y in x], "argument-changed", name)
        case.obs("arguments compared", len(args))
        case.nontrivial(name, case.index)
    if py.random() < 0.2:
        for (name, mine), (_, other) in zip(BATTERY["battery"], battery()):
            case.check(same(mine, other), "settings-changed", lambda: "{0}: {1} -> {2}".format(name, mine, other))
        case.obs("catalogues compared")


def objects(case):
    """Refused calls on objects in use."""
    py = case.py
    kind = KINDS[case.index % len(KINDS)]
    seed = case.seed % (1 << 40)
    fresh = Recipe(kind, seed)
    want = fresh.answers(fresh.object)
    recipe = Recipe(kind, seed)
    x = recipe.object
    if py.random() < 0.5:
        recipe.answers(x)
    case.note(kind=kind)
    strange = [None, "x", 0.5, -1, 9, np.zeros(7), [], [[0]], object()]
    names = [n for n in dir(type(x)) if not n.startswith("_") and n not in ("show", "ShowLocationRelation", "plot", "Plot")]
    count = 0
    for _ in range(12):
        name = py.choice(names)
        method = getattr(x, name)
        if not callable(method):
            # published attributes cannot be set, except for the coefficients and the name
            if name in ("coeff", "name"):
                continue
            try:
                setattr(x, name, py.choice(strange))
            except Exception:
                case.obs("refused")
                count += 1
            else:
                case.fail("attribute-set", "{0}.{1}".format(kind, name))
            continue
        args = [py.choice(strange) for _ in range(py.randrange(0, 3))]
        kwargs = {} if py.random() < 0.7 else {py.choice(["nth", "fold", "which", "tol", "coeff2", "left_bases"]): py.choice(strange)}
        if name in ("matrix_repr",) and (len(args) > 1 or kwargs):
            args, kwargs = args[:1], {}         # the coefficient is stored by design
        try:
            method(*copy.deepcopy(args), **kwargs)
        except NoProgress:
            raise
        except Exception:
            case.obs("refused")
            count += 1
    after = recipe.answers(x)
    case.check(same(after, want), "object-changed", lambda: [(k, want[k], after[k]) for k in want if not same(want[k], after[k])])
    case.obs("objects compared")
    if count:
        case.nontrivial(kind, case.index)


SECTIONS = [
    Section("refused", refused, 350, 14000),
    Section("objects", objects, 2100, 60000),
]
