"""Complete models assembled through the public API, next to an independent
description of the same models (hopping matrices, lists of couplings)."""
import itertools

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import IndexTable, Lattice, SiteID, StateID

from vlib import gen, lattices, ref
from vlib.fermi import dense
from vlib.harness import Skip

UP, DOWN = HP.SPIN_UP, HP.SPIN_DOWN


def cluster(case, max_points, top=2, min_points=1):
    """A lattice with its independent shells of neighbours:
    shells[n] = [(i, j, displacement), ...] with every ordered pair."""
    py = case.py
    lat, points, vectors, tag = lattices.make(case, max_points=max_points)
    points, vectors = np.array(points), np.array(vectors)
    if not min_points <= len(points) <= max_points:
        raise Skip("too many points")
    if not lattices.inequivalent(points, vectors):
        raise Skip("equivalent points")
    values = lattices.groups(points, vectors, top)
    lattices.spread_within(points, vectors, values)
    return lat, points, vectors, tag, shells_of(points, vectors, values)


def shells_of(points, vectors, values):
    i, j, _, disp, dist = ref.pair_displacements(points, vectors, values[-1] + 2e-4)
    shells = []
    for low, high in zip(values, values[1:]):
        sel = (dist > low + 2e-4) & (dist <= high + 2e-4)
        shells.append(list(zip(i[sel].tolist(), j[sel].tolist(), disp[sel])))
    return shells


def bond_pairs(case, lat, nth, only=True):
    """(site, site inside the cluster, displacement) of the bonds of `lat`."""
    intra, inter = lat.bonds(nth, only=only)
    res = []
    for bond in intra:
        p0, p1 = bond.endpoints
        res.append((p0, p1, bond.getDisplace()))
    for bond in inter:
        p0, p1 = bond.endpoints
        inside, _ = lat.decompose(p1)
        res.append((p0, inside, bond.getDisplace()))
    case.obs("bonds of models", len(res))
    return res


def hopping_matrix(n, shells, ts, A, onsite):
    h = np.diag(np.array(onsite, dtype=complex))
    for t, shell in zip(ts, shells):
        for i, j, d in shell:
            h[i, j] += t * np.exp(1j * np.dot(A, d))
    return h


def hopping_terms(case, lat, ts, A, onsite, **spin):
    """The same model through the public API."""
    terms = [HP.CPFactory(p, coeff=float(e), **{k[:-1]: v for k, v in spin.items()}) for p, e in zip(lat.points, onsite)]
    jobs = [(n, True, t) for n, t in enumerate(ts, 1)]
    if len(ts) == 2 and ts[0] == ts[1] and case.py.random() < 0.7:
        jobs = [(2, False, ts[0])]
    if case.py.random() < 0.5:
        jobs.reverse()                 # the order of the queries must not matter
    for nth, only, t in jobs:
        for p0, p1, d in bond_pairs(case, lat, nth, only):
            coeff = t * complex(np.exp(1j * np.dot(A, d)))
            if not np.any(A):
                coeff = coeff.real
            terms.append(HP.HoppingFactory(p0, p1, coeff=coeff, **spin))
            terms.append(terms[-1].dagger())
    return terms


def assemble(terms, table, right, left=None):
    """Dense sum of the matrices of the terms."""
    shape = (len(right if left is None else left), len(right))
    H = np.zeros(shape, dtype=complex)
    for term in terms:
        H += dense(term.matrix_repr(table, right, left_bases=left))
    return H


def state_table(case, points, spins=(0,), start=None):
    """Every site and spin at a random place of the table."""
    labels = [(k, s) for k in range(len(points)) for s in spins]
    case.py.shuffle(labels)
    start = case.py.choice([0, 0, 1, 3, 64 - len(labels)]) if start is None else start
    table = IndexTable([StateID(gen.noisy_container(case.py, points[k]), spin=s) for k, s in labels], start=start)
    where = {label: start + n for n, label in enumerate(labels)}
    return table, where


def bases(*specifiers):
    return HP.base_vectors(*specifiers)


def site_table(case, points):
    order = list(range(len(points)))
    case.py.shuffle(order)
    return IndexTable([SiteID(gen.noisy_container(case.py, points[k])) for k in order]), {k: n for n, k in enumerate(order)}


def spin_assemble(terms, table):
    n = len(table)
    H = np.zeros((1 << n, 1 << n), dtype=complex)
    for term in terms:
        H += term.matrix_repr(table).toarray()
    return H


def spectrum(case, H, name="hermitian"):
    scale = 1 + np.abs(H).max() if H.size else 1
    case.close(H, H.conj().T, name, atol=1e-12 * scale, rtol=0)
    return np.linalg.eigvalsh(H) if H.size else np.zeros(0)


def filling(energies, number):
    """Energies of all the ways to occupy `number` single-particle levels."""
    return np.sort([sum(c) for c in itertools.combinations(energies, number)] if number else [0.0])


def signs(half, shift):
    res = np.array([shift], dtype=float)
    for x in half:
        res = np.concatenate([res + x, res - x])
    return np.sort(res)


def bipartite(n, links):
    """Sign of every site, or None."""
    sign = {}
    near = {i: set() for i in range(n)}
    for i, j in links:
        if i == j:
            return None
        near[i].add(j)
        near[j].add(i)
    for root in range(n):
        if root in sign:
            continue
        sign[root] = 1
        queue = [root]
        while queue:
            i = queue.pop()
            for j in near[i]:
                if j not in sign:
                    sign[j] = -sign[i]
                    queue.append(j)
                elif sign[j] == sign[i]:
                    return None
    return [sign[i] for i in range(n)]


def described_again(case, lat, points, vectors):
    """The same crystal, other cluster points and vectors.  Returns the new
    lattice and, for every new point, the index of the equivalent old one."""
    new, vec = lattices.other_description(case, points, vectors)
    # the description may be shifted as a whole: find the shift by brute force
    for k in range(len(points)):
        shift = new[0] - points[k]
        match = []
        for p in new:
            hits = [i for i, q in enumerate(points) if ref.reduced(vectors, p - q - shift) is not None]
            if len(hits) != 1:
                break
            match.append(hits[0])
        else:
            if sorted(match) == list(range(len(points))):
                return Lattice(new, vec), new, vec, match
    raise Skip("no match")
