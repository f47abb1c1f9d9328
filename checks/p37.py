"""P37: spectra of crystals from clusters."""
import contextlib
import io
import itertools
import os
import re
import subprocess
import sys
import tempfile

import numpy as np
from scipy.sparse import csr_matrix

import HamiltonianPy as HP

from vlib import lattices, models, ref
from vlib.harness import Section, Skip, REPO
from vlib.models import bases, hopping_matrix

PID = "P37"
RULE = ("clusters of published, random and re-described lattices; the Green's functions of the open cluster are combined with "
        "the bonds between clusters (cluster perturbation theory), those of periodic clusters are transformed with the "
        "translations found by decomposition, for all solvers and structures; the oracle inverts hopping matrices and sums "
        "over eigenstates from plain integers; non-trivial when a bond crosses the boundary of the cluster")
ASSUMPTIONS = ["clusters of at most 10 sites, at most two particles above an empty or below a full cluster for free fermions"]
MUST = {"free crystals": 50, "momenta": 150, "periodic crystals": 30, "interacting crystals": 15, "atomic limits": 15,
        "magnets": 15, "bonds between clusters": 250, "lanczos": 30, "programs": 1,
        "complex hopping": 60}
ETAS = (0.3, 0.5, 1.0)


def transform(vectors, k, displacement):
    """The phase of a lattice translation (as integers, then exactly)."""
    n = ref.reduced(vectors, displacement)
    assert n is not None
    return np.exp(1j * np.dot(k, np.array(n) @ vectors))


def phase(A, d):
    """Peierls phase of a uniform vector potential (real numbers without one)."""
    return complex(np.exp(1j * np.dot(A, d))) if np.any(A) else 1.0


def vector_potential(case, dim):
    """Complex hopping in half of the models."""
    if case.py.random() < 0.5:
        return np.zeros(dim)
    case.obs("complex hopping")
    return np.round(case.rng.uniform(-1.5, 1.5, size=dim), 2)


def crystal(points, vectors, shells, ts, A, onsite, k):
    """h(k) with the phase of the translation between the clusters."""
    h = np.diag(np.array(onsite, dtype=complex))
    for t, shell in zip(ts, shells):
        for i, j, d in shell:
            h[i, j] += t * phase(A, d) * transform(vectors, k, d - (points[j] - points[i]))
    return h


def inside(points, shells):
    """Shells restricted to one cluster."""
    return [[(i, j, d) for i, j, d in shell if np.linalg.norm(points[j] - points[i] - d) < 1e-6] for shell in shells]


def sectors(case, terms, table, states, number):
    """Bases and matrices of the sectors that the Green's functions need."""
    spaces = {m: bases((states, m)) for m in (number - 1, number, number + 1) if 0 <= m <= len(states)}
    return spaces, {m: models.assemble(terms, table, b) for m, b in spaces.items()}


def solve(case, table, spaces, H, number, GE, gs, As, Bs, omegas, eta, how):
    """[A, B, omega] from the solvers of the library."""
    excited, order = {}, sorted(m for m in spaces if m != number)
    for op in dict.fromkeys(As + Bs + [A.dagger() for A in As] + [B.dagger() for B in Bs]):
        m = number + (1 if op.otype == HP.CREATION else -1)
        excited[op] = (m, op.matrix_repr(table, spaces[number], left_bases=spaces[m]) @ gs if m in spaces else None)
    if how.startswith("lanczos"):
        matrices, vectors = {}, {}
        for m in order:
            part = {op: v for op, (n, v) in excited.items() if n == m and v is not None}
            if not part or any(np.linalg.norm(v) < 1e-4 for v in part.values()):
                raise Skip("an operator annihilates the state")
            M = H[m] if case.py.random() < 0.3 else csr_matrix(H[m])
            new, vec = HP.MultiKrylov(M, part)
            matrices.update(new)
            vectors.update(vec)
        if len(order) < 2:
            raise Skip("a sector is missing")
        case.obs("lanczos")
        args = (GE, matrices, vectors)
        multiple, single = HP.RGFSolverLanczosMultiple, HP.RGFSolverLanczosSingle
    else:
        total = sum(len(H[m]) for m in order)
        HM = np.zeros((total, total), dtype=complex)
        states, start = {}, 0
        for m in order:
            stop = start + len(H[m])
            HM[start:stop, start:stop] = H[m]
            for op, (n, v) in excited.items():
                if n == m:
                    states[op] = np.zeros(total, dtype=complex)
                    states[op][start:stop] = v
            start = stop
        for op in excited:
            states.setdefault(op, np.zeros(total, dtype=complex))
        args = (GE, HM, states)
        multiple, single = HP.RGFSolverExactMultiple, HP.RGFSolverExactSingle
    if how.endswith("dict"):
        got = multiple(omegas, As, Bs, *args, eta=eta, sign="+", structure="dict")
        return np.array([[got[A, B] for B in Bs] for A in As])
    if how.endswith("single"):
        return np.array([[[single(w, A, B, *args, eta=eta, sign="+") for w in omegas] for B in Bs] for A in As])
    return multiple(omegas, As, Bs, *args, eta=eta, sign="+")


SOLVERS = ["exact", "exact dict", "exact single", "lanczos", "lanczos dict", "lanczos single"]


def momenta(case, count, vectors):
    """Momenta anywhere, beyond the first zone as well."""
    py, rng = case.py, case.rng
    return [py.choice([rng.uniform(-4, 4, size=vectors.shape[1]), rng.normal(size=vectors.shape[1]) * 0.1,
                       np.zeros(vectors.shape[1])]) for _ in range(count)]


def between(case, lat, ts, A, nmax):
    """(site, site, t, translation) of the bonds between clusters, as the
    shipped programs collect them."""
    res = []
    for nth in range(1, nmax + 1):
        _, inter = lat.bonds(nth)
        for bond in inter:
            p0, p1 = bond.endpoints
            a, dR0 = lat.decompose(p0)
            b, dR1 = lat.decompose(p1)
            res.append((lat.getIndex(a), lat.getIndex(b), ts[nth - 1] * phase(A, bond.getDisplace()), dR1 - dR0))
            case.obs("bonds between clusters")
    return res


def potential(n, links, k, spins=1):
    V = np.zeros((n, n), dtype=complex)
    for i, j, t, dR in links:
        V[i, j] += t * np.exp(1j * np.dot(k, dR))
    V = V + V.conj().T
    return np.kron(np.eye(spins), V)


def free(case):
    """Cluster perturbation theory is exact without interactions."""
    py, rng = case.py, case.rng
    nmax = py.choice([1, 1, 2])
    lat, points, vectors, tag, shells = models.cluster(case, 10, top=nmax)
    n = len(points)
    ts = [round(py.uniform(-2, 2), 2) or 1.0 for _ in range(nmax)]
    onsite = np.round(rng.uniform(-2, 2, size=n), 2) * py.choice([0, 1])
    potential_vector = vector_potential(case, points.shape[1])
    terms = [HP.CPFactory(p, coeff=float(e)) for p, e in zip(lat.points, onsite)]
    for nth in range(1, nmax + 1):
        for bond in lat.bonds(nth)[0]:
            p0, p1 = bond.endpoints
            terms.append(HP.HoppingFactory(p0, p1, coeff=ts[nth - 1] * phase(potential_vector, bond.getDisplace())))
            terms.append(terms[-1].dagger())
    links = between(case, lat, ts, potential_vector, nmax)
    table, where = models.state_table(case, points)
    states = sorted(where.values())
    how = py.choice(SOLVERS)
    number = py.choice([m for m in (0, 1, 2, n - 2, n - 1, n) if 0 <= m <= n])
    if how.startswith("lanczos") and n > 1:
        number = py.choice([m for m in (1, 2, n - 1) if 1 <= m <= n - 1])
    case.note(tag=tag, points=points, vectors=vectors, ts=ts, onsite=onsite, A=potential_vector, number=number, how=how)
    spaces, H = sectors(case, terms, table, states, number)
    E, U = np.linalg.eigh(H[number])
    level = py.randrange(len(E)) if py.random() < 0.3 else 0
    gs = U[:, level]
    As = [HP.Annihilator(p) for p in lat.points]
    Bs = [HP.Creator(p) for p in lat.points]
    omegas = np.array([py.uniform(-4, 4) for _ in range(2)])
    eta = py.choice(ETAS)
    tol = 1e-5 if how.startswith("lanczos") else 1e-9
    try:
        G = solve(case, table, spaces, H, number, E[level], gs, As, Bs, omegas, eta, how)
    except Skip:
        how = "exact"
        G = solve(case, table, spaces, H, number, E[level], gs, As, Bs, omegas, eta, how)
    h0 = hopping_matrix(n, inside(points, shells), ts, potential_vector, onsite)
    case.obs("free crystals")
    for w, omega in enumerate(omegas):
        z = omega + 1j * eta
        want = np.linalg.inv(z * np.eye(n) - h0)
        case.close(G[:, :, w], want, "open-cluster", (how, omega), atol=tol / eta ** 3, rtol=0)
        for k in momenta(case, 2, vectors):
            got = np.linalg.inv(np.linalg.inv(G[:, :, w]) - potential(n, links, k))
            want = np.linalg.inv(z * np.eye(n) - crystal(points, vectors, shells, ts, potential_vector, onsite, k))
            case.close(got, want, "crystal", (how, omega, k), atol=1e3 * tol / eta ** 3, rtol=0)
            # the same at an equivalent momentum
            other = k + rng.integers(-2, 3, size=len(vectors)) @ lat.bs
            again = np.linalg.inv(np.linalg.inv(G[:, :, w]) - potential(n, links, other))
            case.close(again, got, "equivalent-momentum", (k, other), atol=1e-8 / eta ** 3, rtol=0)
            case.obs("momenta")
    if links:
        case.nontrivial(tag, n, number, how, case.index)


def supercell(case):
    py = case.py
    name = py.choice(["chain", "square", "triangle", "honeycomb", "kagome", "cubic"])
    sizes = {"chain": [(k,) for k in range(2, 8)], "square": [(2, 2), (2, 3), (3, 2), (4, 2), (3, 3), (1, 4)],
             "triangle": [(2, 2), (3, 2), (2, 3), (3, 3), (4, 1)], "honeycomb": [(2, 1), (1, 3), (2, 2), (1, 2)],
             "kagome": [(2, 1), (1, 2), (3, 1)], "cubic": [(2, 2, 2), (2, 1, 3), (1, 1, 4)]}[name]
    size = py.choice(sizes)
    return name, size, HP.lattice_generator(name, *size)


def periodic(case):
    """Green's functions of periodic clusters are diagonal in the momentum."""
    py, rng = case.py, case.rng
    name, size, lat = supercell(case)
    cell = HP.lattice_generator(name)
    points, vectors = lat.points, lat.vectors
    n, c = len(points), cell.point_num
    nmax = py.choice([1, 1, 2])
    values = lattices.groups(points, vectors, nmax)
    ts = [round(py.uniform(-2, 2), 2) or 1.0 for _ in range(nmax)]
    potential_vector = vector_potential(case, points.shape[1])
    terms = []
    for nth in range(1, nmax + 1):
        intra, inter = lat.bonds(nth)
        for bond in intra + inter:
            p0, p1 = bond.endpoints
            a, _ = lat.decompose(p0)
            b, _ = lat.decompose(p1)
            terms.append(HP.HoppingFactory(a, b, coeff=ts[nth - 1] * phase(potential_vector, bond.getDisplace())))
            terms.append(terms[-1].dagger())
    table, where = models.state_table(case, points)
    states = sorted(where.values())
    how = py.choice(SOLVERS)
    number = py.choice([1, 2, n - 1]) if n > 2 else 1
    case.note(name=name, size=size, ts=ts, A=potential_vector, number=number, how=how)
    spaces, H = sectors(case, terms, table, states, number)
    E, U = np.linalg.eigh(H[number])
    gs = U[:, 0]
    As = [HP.Annihilator(p) for p in points]
    Bs = [A.dagger() for A in As]
    omegas, eta = np.array([py.uniform(-4, 4) for _ in range(2)]), py.choice(ETAS)
    try:
        G = solve(case, table, spaces, H, number, E[0], gs, As, Bs, omegas, eta, how)
    except Skip:
        how = "exact"
        G = solve(case, table, spaces, H, number, E[0], gs, As, Bs, omegas, eta, how)
    tol = 1e-5 if how.startswith("lanczos") else 1e-9
    # the unit cell, independently
    pv, pp = np.array(lattices.PARENTS[name][0], dtype=float), cell.points
    shells = models.shells_of(pp, pv, values)
    # allowed momenta: integer multiples of the reciprocal vectors of the cluster
    allowed = [np.array([m / s for m, s in zip(ms, size)]) @ cell.bs for ms in itertools.product(*[range(s) for s in size])]
    split = [cell.decompose(p) for p in points]
    sub = [cell.getIndex(a) for a, _ in split]
    translation = [dR for _, dR in split]
    chosen = [py.choice(allowed) for _ in range(2)] if len(allowed) > 1 else allowed
    for k in chosen:
        for q in (k, py.choice(allowed)):
            F = np.zeros((c, n), dtype=complex)
            B = np.zeros((n, c), dtype=complex)
            for i in range(n):
                F[sub[i], i] = np.exp(-1j * np.dot(k, translation[i]))
                B[i, sub[i]] = np.exp(1j * np.dot(q, translation[i]))
            same = all(abs(x - round(x)) < 1e-9 for x in np.array((q - k) @ pv.T) / (2 * np.pi))
            for w, omega in enumerate(omegas):
                got = F @ G[:, :, w] @ B / (n / c)
                want = np.linalg.inv((omega + 1j * eta) * np.eye(c) - crystal(pp, pv, shells, ts, potential_vector, np.zeros(c), k)) if same \
                    else np.zeros((c, c))
                case.close(got, want, "momentum" if same else "momentum-mixing", (k, q, omega, how), atol=10 * tol / eta ** 3,
                           rtol=0)
        case.obs("momenta")
    case.obs("periodic crystals")
    case.nontrivial(name, size, how, number, case.index)


def interacting(case):
    """Hubbard clusters against sums over eigenstates, and their crystals."""
    py, rng = case.py, case.rng
    lat, points, vectors, tag, shells = models.cluster(case, 3, top=1)
    n = len(points)
    t, U = round(py.uniform(0.3, 1.5), 2), round(py.uniform(-2, 6), 2)
    mu = round(py.uniform(-1, 3), 2)
    potential_vector = vector_potential(case, points.shape[1])
    terms = []
    for p in lat.points:
        terms.append(HP.HubbardFactory(p, coeff=U))
        for spin in (0, 1):
            terms.append(HP.CPFactory(p, spin=spin, coeff=-mu))
    for bond in lat.bonds(1)[0]:
        p0, p1 = bond.endpoints
        for spin in (0, 1):
            terms.append(HP.HoppingFactory(p0, p1, spin0=spin, coeff=t * phase(potential_vector, bond.getDisplace())))
            terms.append(terms[-1].dagger())
    links = between(case, lat, [t], potential_vector, 1)
    table, where = models.state_table(case, points, (0, 1))
    up = sorted(where[i, 1] for i in range(n))
    down = sorted(where[i, 0] for i in range(n))
    nu, nd = py.randrange(0, n + 1), py.randrange(0, n + 1)
    spin = py.choice([0, 1])
    step = lambda d: (nu + d * (spin == 1), nd + d * (spin == 0))       # noqa: E731
    spaces, H = {}, {}
    for d in (-1, 0, 1):
        a, b = step(d)
        if 0 <= a <= n and 0 <= b <= n:
            spaces[d] = bases((up, a), (down, b))
            H[d] = models.assemble(terms, table, spaces[d])
    E, W = np.linalg.eigh(H[0])
    gs = W[:, 0]
    As = [HP.Annihilator(p, spin=spin) for p in lat.points]
    Bs = [A.dagger() for A in As]
    omegas, eta = np.array([py.uniform(-4, 6) for _ in range(3)]), py.choice(ETAS)
    how = py.choice(SOLVERS)
    case.note(tag=tag, points=points, vectors=vectors, t=t, U=U, mu=mu, A=potential_vector, sector=(nu, nd), spin=spin, how=how)
    try:
        G = solve(case, table, spaces, H, 0, E[0], gs, As, Bs, omegas, eta, how)
    except Skip:
        how = "exact"
        G = solve(case, table, spaces, H, 0, E[0], gs, As, Bs, omegas, eta, how)
    tol = 1e-5 if how.startswith("lanczos") else 1e-9
    # independently: Fock space of 2 n modes in plain integers
    h = hopping_matrix(n, inside(points, shells), [t], potential_vector, [-mu] * n)
    modes = {(i, s): i + s * n for i in range(n) for s in (0, 1)}
    full = np.zeros((4 ** n, 4 ** n), dtype=complex)
    kets = list(range(4 ** n))
    C = {m: ref.term_matrix([(m, 1)], kets) for m in modes.values()}
    for s in (0, 1):
        for i in range(n):
            for j in range(n):
                if h[i, j]:
                    full += h[i, j] * C[modes[i, s]] @ C[modes[j, s]].conj().T
    for i in range(n):
        a, b = C[modes[i, 0]], C[modes[i, 1]]
        full += U * a @ a.conj().T @ b @ b.conj().T
    pick = [k for k in kets if bin(k >> n).count("1") == nu and bin(k & ((1 << n) - 1)).count("1") == nd]
    case.close(np.sort(E), np.linalg.eigvalsh(full[np.ix_(pick, pick)]), "levels", atol=1e-9, rtol=0)
    # the state of the library in plain integers, by occupations with the sign of the reordering of its table
    order = sorted(where, key=where.get)        # (site, spin) by increasing position
    psi = np.zeros(4 ** n, dtype=complex)
    for amplitude, ket in zip(gs, spaces[0]):
        occupied = [modes[label] for label in order if int(ket) >> where[label] & 1]
        # ket = c+_{occupied[0]} c+_{occupied[1]} ... |0> with the lowest position leftmost
        sign = 1
        for x in range(len(occupied)):
            for y in range(x):
                if occupied[y] > occupied[x]:
                    sign = -sign
        psi[sum(1 << m for m in occupied)] += sign * amplitude
    case.close(full @ psi, E[0] * psi, "eigenstate", atol=1e-8, rtol=0)
    w, X = np.linalg.eigh(full)
    for q, omega in enumerate(omegas):
        z = omega + 1j * eta
        want = np.zeros((n, n), dtype=complex)
        for i in range(n):
            for j in range(n):
                ci, cj = C[modes[i, spin]].conj().T, C[modes[j, spin]].conj().T
                left, right = X.conj().T @ (ci.conj().T @ psi), X.conj().T @ (cj.conj().T @ psi)
                want[i, j] += np.sum(left.conj() * right / (z - (w - E[0])))
                left, right = X.conj().T @ (cj @ psi), X.conj().T @ (ci @ psi)
                want[i, j] += np.sum(left.conj() * right / (z + (w - E[0])))
        case.close(G[:, :, q], want, "interacting-cluster", (how, omega), atol=tol / eta ** 3, rtol=0)
        inverse = np.linalg.inv(want)
        for k in momenta(case, 2, vectors):
            V = crystal(points, vectors, shells, [t], potential_vector, [-mu] * n, k) - h
            case.close(potential(n, links, k), V, "bonds-between-clusters", k, atol=1e-9, rtol=0)
            got = np.linalg.inv(np.linalg.inv(G[:, :, q]) - potential(n, links, k))
            A = (got - got.conj().T) / (-2j * np.pi)
            case.check(np.linalg.eigvalsh(A).min() > -1e3 * tol / eta ** 3, "negative-weight", lambda: np.linalg.eigvalsh(A))
            case.close(np.linalg.inv(got), inverse - V, "interacting-crystal", k, atol=1e3 * tol * (1 + np.abs(inverse).max()) ** 2 / eta,
                       rtol=0)
            case.obs("momenta")
    case.obs("interacting crystals")
    if links:
        case.nontrivial(tag, n, nu, nd, how, case.index)


def atomic(case):
    """One site per cluster: the two Hubbard bands in closed form."""
    py = case.py
    name = py.choice(["chain", "square", "triangle", "cubic"])
    lat = HP.lattice_generator(name)
    t, U, mu = round(py.uniform(0.2, 1.5), 2), round(py.uniform(-2, 6), 2), round(py.uniform(-1, 2), 2)
    spin = py.choice([0, 1])
    site = lat.points[0]
    links = between(case, lat, [t], np.zeros(lat.space_dim), 1)
    terms = [HP.HubbardFactory(site, coeff=U), HP.CPFactory(site, spin=0, coeff=-mu), HP.CPFactory(site, spin=1, coeff=-mu)]
    table, where = models.state_table(case, lat.points, (0, 1))
    nu, nd = py.choice([(0, 0), (1, 0), (0, 1), (1, 1)])
    positions = [where[0, 1]], [where[0, 0]]
    spaces, H = {}, {}
    for d in (-1, 0, 1):
        a, b = nu + d * (spin == 1), nd + d * (spin == 0)
        if 0 <= a <= 1 and 0 <= b <= 1:
            spaces[d] = bases((positions[0], a), (positions[1], b))
            H[d] = models.assemble(terms, table, spaces[d])
    A = HP.Annihilator(site, spin=spin)
    omegas, eta = np.array([py.uniform(-4, 6) for _ in range(3)]), py.choice(ETAS)
    how = py.choice(SOLVERS[:3])
    case.note(name=name, t=t, U=U, mu=mu, sector=(nu, nd), spin=spin, how=how)
    GE = H[0][0, 0].real
    case.close(GE, U * nu * nd - mu * (nu + nd), "atom", atol=1e-12, rtol=0)
    G = solve(case, table, spaces, H, 0, GE, np.ones(1), [A], [A.dagger()], omegas, eta, how)[0, 0]
    other = nd if spin == 1 else nu
    for k in momenta(case, 3, lat.vectors):
        eps = {"chain": lambda k: 2 * np.cos(k[0]), "square": lambda k: 2 * np.cos(k[0]) + 2 * np.cos(k[1]),
               "triangle": lambda k: 2 * np.cos(k[0]) + 4 * np.cos(k[0] / 2) * np.cos(k[1] * 3 ** 0.5 / 2),
               "cubic": lambda k: 2 * np.cos(k).sum()}[name](k) * t
        got = 1 / (1 / G - potential(1, links, k)[0, 0])
        want = 1 / (omegas + 1j * eta + mu - U * other - eps)
        case.close(got, want, "band", (k, how), atol=1e-9 / eta ** 2, rtol=0)
        case.obs("momenta")
    case.obs("atomic limits")
    case.nontrivial(name, nu, nd, spin, case.index)


def magnet(case):
    """Dynamic structure factors of Heisenberg clusters with periodic bonds."""
    py, rng = case.py, case.rng
    while True:
        name, size, lat = supercell(case)
        if lat.point_num <= 6:
            break
    n = lat.point_num
    points = lat.points
    J, D = round(py.uniform(-1.5, 2), 2), round(py.uniform(-1, 1), 2)
    values = lattices.groups(points, lat.vectors, 1)
    shells = models.shells_of(points, lat.vectors, values)
    table, where = models.site_table(case, points)
    style = py.choice(["terms", "functions"])
    H = 0.0
    intra, inter = lat.bonds(nth=1)
    for bond in intra + inter:
        i, j = (lat.getIndex(p, fold=True) for p in bond.endpoints)
        if i == j:
            raise Skip("a bond from a site to itself")
        if style == "terms":
            for term in HP.HeisenbergFactory(points[i], points[j], coeff=J):
                H = H + term.matrix_repr(table)
            H = H + HP.IsingFactory(points[i], points[j], "z", coeff=D).matrix_repr(table)
        else:
            a, b = where[i], where[j]
            half = HP.SpinInteraction.matrix_function([(a, "z"), (b, "z")], total_spin=n, coeff=(J + D) / 2)
            half = half + HP.SpinInteraction.matrix_function([(a, "p"), (b, "m")], total_spin=n, coeff=J / 2)
            H = H + half + half.getH()
    H = H.toarray()
    mine = np.zeros((1 << n, 1 << n), dtype=complex)
    for i, j, _ in shells[0]:
        a, b = where[i], where[j]
        for axis, coeff in (("x", J), ("y", J), ("z", J + D)):
            mine += coeff / 2 * ref.spin_product([(a, axis), (b, axis)], n)
    case.note(name=name, size=size, J=J, D=D, style=style)
    case.close(H, mine, "hamiltonian", atol=1e-10, rtol=0)
    E, U = np.linalg.eigh(mine)
    level = 0 if py.random() < 0.7 else py.randrange(len(E))
    gs = U[:, level]
    left, right = py.choice([("p", "m"), ("m", "p"), ("z", "z"), ("x", "x"), ("y", "y")])
    As = [HP.SpinOperator(left, p) for p in points]
    Bs = [HP.SpinOperator(right, p) for p in points]
    states = {op: (op.matrix_repr(table) if py.random() < 0.5 else
                   HP.SpinOperator.matrix_function((table(op.site_id), op.otype), total_spin=n)) @ gs
              for op in dict.fromkeys(As + Bs)}
    omegas, eta = np.array([py.uniform(-1, 5) for _ in range(2)]), py.choice(ETAS)
    lanczos = py.random() < 0.4 and all(np.linalg.norm(v) > 1e-3 for v in states.values())
    if lanczos:
        M, V = HP.MultiKrylov(csr_matrix(H), states)
        G = HP.GFSolverLanczosMultiple(omegas, As, Bs, E[level], M, V, eta=eta, sign="-")
        case.obs("lanczos")
    else:
        dic = HP.GFSolverExactMultiple(omegas, As, Bs, E[level], H, states, eta=eta, sign="-", structure="dict")
        G = np.array([[dic[A, B] for B in Bs] for A in As])
    Amine = [ref.spin_matrix(left, where[i], n) for i in range(n)]
    Bmine = [ref.spin_matrix(right, where[i], n) for i in range(n)]
    cell = HP.lattice_generator(name)
    k = np.array([py.randrange(s) / s for s in size]) @ cell.bs
    phase = np.exp(1j * points @ k)
    Ak = sum(p.conj() * m for p, m in zip(phase, Amine))
    Bk = sum(p * m for p, m in zip(phase, Bmine))
    for w, omega in enumerate(omegas):
        z = omega + 1j * eta
        l, r = U.conj().T @ (Ak.conj().T @ gs), U.conj().T @ (Bk @ gs)
        want = np.sum(l.conj() * r / (z - (E - E[level])))
        got = phase.conj() @ G[:, :, w] @ phase
        case.close(got, want, "structure-factor", (k, omega), atol=(1e-4 if lanczos else 1e-9) * n * n / eta ** 3, rtol=0)
        case.check(got.imag <= 1e-3 / eta ** 3, "negative-weight", got)
    case.obs("magnets")
    case.obs("momenta")
    case.nontrivial(name, size, left, case.index)


def chain_energy(n, number, t=1.0, periodic_=True):
    if periodic_:
        levels = np.sort(2 * t * np.cos(2 * np.pi * np.arange(n) / n))
    else:
        levels = np.sort(2 * t * np.cos(np.pi * np.arange(1, n + 1) / (n + 1)))
    return levels[:number].sum()


def heisenberg_ring(n):
    H = np.zeros((1 << n, 1 << n))
    kets = np.arange(1 << n)
    for i in range(n):
        j = (i + 1) % n
        a, b = kets >> i & 1, kets >> j & 1
        H[kets, kets] += np.where(a == b, 0.25, -0.25)
        sel = kets[a != b]
        H[sel ^ (1 << i) ^ (1 << j), sel] += 0.5
    return np.linalg.eigvalsh(H)[0]


PROGRAMS = {
    # name: (energy of the ground state, spectral weight per momentum of all the printed numbers)
    "NNTBChain3": (lambda: 2 * chain_energy(10, 5), 2),
    "NNTBChain2": (lambda: 2 * chain_energy(10, 5), 2),
    "NNTBChain4": (lambda: 2 * chain_energy(12, 6), 2),
    "NNTBChain1": (lambda: chain_energy(8, 4), 1),
    "HubbardChain": (lambda: 2 * chain_energy(12, 6, periodic_=False), 2),
    "HeisenbergChain2": (lambda: -8.904387, None),
}


def program(case):
    """The programs shipped with the library run and print the exact energy."""
    names = list(PROGRAMS) if case.run.tier == "thorough" else ["NNTBChain3"]
    name = names[case.index % len(names)]
    energy, weight = PROGRAMS[name]
    path = os.path.join(REPO, "HamiltonianPy", "GreenFunction", "demo", name + ".py")
    if not os.path.exists(path):
        raise Skip("no such program")
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_WORK", "/tmp")) as folder:
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH=str(REPO), PYTHONDONTWRITEBYTECODE="1")
        done = subprocess.run([sys.executable, "-P", "-W", "ignore", path], cwd=folder, env=env, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, timeout=1500)
    case.note(name=name)
    case.equal(done.returncode, 0, "program-failed", done.stderr[-500:])
    found = re.search(r"GE = (-?\d+\.\d+)", done.stdout)
    if found and energy() is not None:
        case.close(float(found.group(1)), energy(), "program-energy", name, atol=2e-6, rtol=0)
    printed = [float(x) for part in re.findall(r"\[([^\]]*)\]", done.stdout) for x in re.findall(r"\d+\.\d+", part)]
    if weight is not None:
        case.check(len(printed) > 5, "program-weights", done.stdout[-500:])
        # what lies outside of the window of frequencies is missing
        case.check(all(0.93 * weight < x < 1.01 * weight for x in printed), "program-weights", printed)
    case.obs("programs")
    case.nontrivial(name)


SECTIONS = [
    Section("free", free, 130, 4000),
    Section("periodic", periodic, 70, 3000),
    Section("interacting", interacting, 80, 2500),
    Section("atomic", atomic, 30, 600),
    Section("magnet", magnet, 50, 2000),
    Section("program", program, 1, 6),
]
