"""
Objects of every kind from a recipe (seed, kind), and the questions whose
answers identify them.  A recipe gives equal objects in every process.
"""
import random

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import Bond, IndexTable, Line2D, NumberOperator, ParticleTerm, SiteID, SpinInteraction, SpinOperator, StateID
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.polygon import Polygon

from vlib import gen
from vlib.world import canon

KINDS = ("SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator", "Bond", "ParticleTerm", "FactoryTerm", "SpinInteraction",
         "IndexTable", "Lattice", "Line2D", "Polygon", "SimpleHilbertSpace", "HilbertSpace")
KEYS = KINDS[:6]                # hashable and compared by value


class _CaseLike:
    def __init__(self, seed):
        self.py = random.Random(seed)
        self.rng = np.random.default_rng(seed)


class Recipe:
    """One object with its surroundings."""

    def __init__(self, kind, seed):
        self.kind, self.seed = kind, seed
        case = _CaseLike(seed)
        self.py, self.rng, self.case = case.py, case.rng, case
        self.labels = gen.state_labels(self.py, 4)
        self.states = [StateID(s, spin=p, orbit=o) for s, p, o in self.labels]
        self.sites = gen.distinct_sites(self.py, 4, len(self.labels[0][0]))
        self.table = IndexTable(self.states)
        self.site_table = IndexTable([SiteID(s) for s in self.sites])
        self.bases = np.arange(16, dtype=np.uint64)
        self.object = getattr(self, "make_" + kind)()

    def aoc(self, k=None, otype=None):
        s, p, o = self.labels[self.py.randrange(4) if k is None else k]
        return HP.AoC(self.py.choice([HP.CREATION, HP.ANNIHILATION]) if otype is None else otype, s, spin=p, orbit=o)

    # ------------------------------------------------------------------ kinds
    def make_SiteID(self):
        return SiteID(gen.as_container(self.py, self.sites[0]))

    def make_StateID(self):
        return self.states[self.py.randrange(4)]

    def make_AoC(self):
        return self.aoc()

    def make_NumberOperator(self):
        s, p, o = self.py.choice(self.labels)
        return NumberOperator(s, spin=p, orbit=o)

    def make_SpinOperator(self):
        return SpinOperator(self.py.choice("xyzpm"), self.py.choice(self.sites))

    def make_Bond(self):
        return Bond(self.sites[0], self.sites[1], directional=self.py.random() < 0.5)

    def make_ParticleTerm(self):
        return ParticleTerm([self.aoc() for _ in range(self.py.randrange(1, 6))], coeff=self.py.choice([1, 0.5, -2j, 1 + 1j]))

    def make_FactoryTerm(self):
        i, j = self.py.sample(range(4), 2)
        (s0, p0, o0), (s1, p1, o1) = self.labels[i], self.labels[j]
        kw = dict(spin0=p0, spin1=p1, orbit0=o0, orbit1=o1)
        kind = self.py.randrange(5)
        if kind == 0:
            return HP.HoppingFactory(s0, s1, coeff=self.py.choice([0.5, 1 - 2j]), **kw)
        if kind == 1:
            return HP.PairingFactory(s0, s1, coeff=0.25j, **kw)
        if kind == 2:
            return HP.CoulombFactory(s0, s1, coeff=1.5, **kw)
        if kind == 3:
            return HP.CPFactory(s0, spin=p0, orbit=o0, coeff=-2.5)
        return self.aoc(i, HP.CREATION) * self.aoc(j, HP.ANNIHILATION) * 3

    def make_SpinInteraction(self):
        ops = [SpinOperator(self.py.choice("xyzpm"), self.py.choice(self.sites)) for _ in range(self.py.randrange(1, 5))]
        return SpinInteraction(ops, coeff=self.py.choice([1, 0.5, -2j, 1 + 1j]))

    def make_IndexTable(self):
        return self.py.choice([IndexTable(self.states, start=self.py.randrange(3)), IndexTable([SiteID(s) for s in self.sites]),
                               IndexTable(["a", "c", "b"]), IndexTable([(2, 1), (1, 2)])])

    def make_Lattice(self):
        kind = self.py.randrange(3)
        if kind == 0:
            points, vectors = gen.random_lattice_data(self.case, max_points=4)
            return HP.Lattice(points, vectors, "name")
        if kind == 1:
            return HP.special_cluster(self.py.choice(["cross", "z", "s", "benzene"]))
        return HP.lattice_generator(self.py.choice(gen.LATTICE_NAMES[:5]), self.py.randrange(1, 4), self.py.randrange(1, 3))

    def make_Line2D(self):
        return Line2D(np.round(self.rng.uniform(-3, 3, size=2), 2), np.round(self.rng.uniform(4, 6, size=2), 2))

    def make_Polygon(self):
        return Polygon(np.array([[0, 0], [2, 0], [2.5, 1], [1, 2], [-1, 1.5]]) * self.py.choice([1, 0.5, 3]))

    def make_SimpleHilbertSpace(self):
        return SimpleHilbertSpace(self.py.sample(range(9), 4), self.py.randrange(-1, 4))

    def make_HilbertSpace(self):
        states = self.py.sample(range(9), 6)
        return HilbertSpace([states[:3], self.py.randrange(-1, 3)], [states[3:], self.py.randrange(-1, 4)])

    # -------------------------------------------------------------- questions
    def answers(self, x, deep=True):
        """What identifies x (an object of this kind), in plain values."""
        res = {"type": type(x).__name__, "repr": repr(x) if self.kind not in ("Lattice", "Polygon", "ParticleTerm", "FactoryTerm",
                                                                               "SpinInteraction", "IndexTable") else None}
        if self.kind != "Polygon":
            res["str"] = str(x)
        kind = self.kind
        if kind == "SiteID":
            res.update(site=x.site, coordinate=canon(x.coordinate))
        elif kind == "StateID":
            res.update(site=x.site, spin=x.spin, orbit=x.orbit, index=x.getIndex(self.table), latex=x.tolatex())
        elif kind == "AoC":
            res.update(site=x.site, spin=x.spin, orbit=x.orbit, otype=x.otype, latex=x.tolatex(), dagger=repr(x.dagger()),
                       index=x.getStateIndex(self.table), matrix=canon(x.matrix_repr(self.table, self.bases)),
                       state=repr(x.state), twice=canon(x * x), algebra=canon(2 * x))
        elif kind == "NumberOperator":
            res.update(site=x.site, spin=x.spin, orbit=x.orbit, latex=x.tolatex(), index=x.getStateIndex(self.table),
                       matrix=canon(x.matrix_repr(self.table, self.bases)), term=canon(x.toterm()))
        elif kind == "SpinOperator":
            res.update(site=x.site, otype=x.otype, latex=x.tolatex(), dagger=repr(x.dagger()), small=canon(x.matrix()),
                       index=x.getSiteIndex(self.site_table), matrix=canon(x.matrix_repr(self.site_table)))
        elif kind == "Bond":
            res.update(ends=canon(x.endpoints), length=canon(x.getLength()), displace=canon(x.getDisplace()) if x.directional else None,
                       flip=repr(x.flip()) if x.directional else None, directional=x.directional)
        elif kind in ("ParticleTerm", "FactoryTerm"):
            res.update(term=canon(x), latex=x.tolatex(), dagger=canon(x.dagger()),
                       matrix=canon(x.matrix_repr(self.table, self.bases)), product=canon(x * 2))
        elif kind == "SpinInteraction":
            res.update(term=canon(x), latex=x.tolatex(), dagger=canon(x.dagger()), matrix=canon(x.matrix_repr(self.site_table)),
                       product=canon(x * 2))
        elif kind == "IndexTable":
            objects = list(x.objects())
            res.update(objects=[repr(o) for o in objects], indices=list(x.indices()), length=len(x),
                       forward=[x(o) for o in objects], backward=[repr(x.query_object(i)) for i in x.indices()])
        elif kind == "Lattice":
            res.update(data=canon(x), num=x.point_num, dims=(x.space_dim, x.trans_dim))
            if deep:
                near = x.points + np.sum(x.vectors, axis=0)
                res.update(distances=[x.neighbor_distance(n) for n in range(3)],
                           indices=[x.getIndex(p, fold=True) for p in near],
                           parts=[canon(x.decompose(p)) for p in near[:2]],
                           inside=[bool(x.in_cluster(p)) for p in near],
                           bonds=[sorted(repr(b) for part in x.bonds(n) for b in part) for n in (1, 2)])
        elif kind == "Line2D":
            res.update(horizontal=x.IsHorizontal, vertical=x.IsVertical, values=canon((x(0.25), x(0.5, "y"))),
                       where=str(x.LocationRelation((0.3, 0.7))), points=canon(x.PointsFactory((0.0, 0.5))))
        elif kind == "Polygon":
            res.update(vertices=canon(x.vertices), where=str(x.LocationRelation((0.1, 0.1), np.mean(x.vertices, axis=0))))
        elif kind == "SimpleHilbertSpace":
            res.update(bases=canon(x.base_vectors()), states=canon(x.single_particle_states), number=x.particle_number)
        elif kind == "HilbertSpace":
            res.update(bases=canon(x.base_vectors()), parts=canon(x.subspace_specifiers), number=x.subspace_number)
        return {key: canon(value) for key, value in res.items()}
