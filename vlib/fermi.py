"""Building blocks of fermion workloads on the public API."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, IndexTable, NumberOperator, ParticleTerm, StateID

from vlib import gen

CREATION, ANNIHILATION = HP.CREATION, HP.ANNIHILATION


class System:
    """n single-particle states carried by bit positions start .. start+n-1."""

    def __init__(self, case, n, start=0, dim=None):
        self.case = case
        self.labels = gen.state_labels(case.py, n, dim)
        self.n = n
        self.start = start
        states = [StateID(site=gen.as_container(case.py, s), spin=p, orbit=o) for s, p, o in self.labels]
        self.table = IndexTable(states, start=start)
        # independent of the table: position in the given order
        self.index = {label: start + k for k, label in enumerate(self.labels)}

    def aoc(self, label, otype):
        s, p, o = label
        return AoC(otype, site=gen.noisy_container(self.case.py, s), spin=p, orbit=o)

    def number(self, label):
        s, p, o = label
        return NumberOperator(site=gen.noisy_container(self.case.py, s), spin=p, orbit=o)

    def retable(self, start=None):
        """Another numbering of the same states."""
        case = self.case
        other = System.__new__(System)
        other.case = case
        other.labels = list(self.labels)
        case.py.shuffle(other.labels)
        other.n = self.n
        other.start = self.start if start is None else start
        states = [StateID(site=s, spin=p, orbit=o) for s, p, o in other.labels]
        other.table = IndexTable(states, start=other.start)
        other.index = {label: other.start + k for k, label in enumerate(other.labels)}
        return other


def dense(res, shape=None):
    """Dense form of what matrix_repr returned (sparse matrix or entries)."""
    if isinstance(res, tuple):
        values, (rows, cols) = res
        out = np.zeros(shape, dtype=np.complex128)
        np.add.at(out, (np.asarray(rows), np.asarray(cols)), np.asarray(values))
        return out
    return np.asarray(res.toarray())


def all_bases(n, start=0):
    return np.arange(1 << n, dtype=np.uint64) << np.uint64(start)


def bases_of(active, background=0):
    """Sorted uint64 array of every pattern of `active` over a background."""
    kets = []
    for bits in range(1 << len(active)):
        v = background
        for k, pos in enumerate(active):
            if (bits >> k) & 1:
                v |= 1 << pos
        kets.append(v)
    return np.array(sorted(kets), dtype=np.uint64)
