"""P34: complete model calculations."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import IndexTable, KrylovRepresentation, Lattice, RGFSolverExactMultiple, StateID
from HamiltonianPy.averages import QuantumAverages, TotalSpinAverages, TotalSpinMatrices

from vlib import gen, lattices, models, ref
from vlib.harness import Section, Skip
from vlib.models import DOWN, UP, assemble, bases, bond_pairs, filling, hopping_matrix, hopping_terms, spectrum

PID = "P34"
RULE = ("whole calculations (lattice, bonds, terms, tables, bases, matrices, Lanczos, Green's functions) on random and "
        "published clusters; the spectra are compared with single-particle physics, closed formulas, independently "
        "summed matrices and with the same model after renumbering, re-describing, gauging or dividing it; non-trivial "
        "when the Hamiltonian has off-diagonal elements")
ASSUMPTIONS = ["distances of the generated lattices differ by at least 1e-3"]
MUST = {"free sectors": 400, "described again": 30, "bonds of models": 1200, "hubbard sectors": 100, "particle-hole": 50,
        "exact energies": 100, "spin clusters": 20, "pairing spectra": 40, "conservation": 60, "resolvents": 30,
        "ground states": 30, "ising chains": 20, "orbital levels": 800, "orbital models": 15}


def flux(case, dim):
    if case.py.random() < 0.5:
        return np.zeros(dim)
    return case.rng.uniform(-2, 2, size=dim)


def amplitudes(py, k):
    ts = [py.choice([-1.0, 1, 0.5, -0.3, round(py.uniform(-2, 2), 3)]) for _ in range(k)]
    if k == 2 and py.random() < 0.3:
        ts[1] = ts[0]
    return ts


def sectors(case, H_of, table, where, h, name):
    """Compare every filling of the single-particle levels."""
    py = case.py
    n = len(where)
    levels = np.linalg.eigvalsh(h)
    scale = 1 + np.abs(levels).sum()
    states = sorted(where.values())
    whole = []
    for number in range(n + 1):
        # both documented specifiers
        spec = (states, number) if states[0] or py.random() < 0.5 else (n, number)
        b = bases(spec)
        E = spectrum(case, H_of(table, b))
        case.close(E, filling(levels, number), name, ("particles", number), atol=1e-9 * scale, rtol=0)
        whole.append(E)
        case.obs("free sectors")
    if n <= 7:
        E = spectrum(case, H_of(table, bases((states, -1))))
        case.close(E, np.sort(np.concatenate(whole)), name + "-whole", atol=1e-9 * scale, rtol=0)


def free(case):
    py = case.py
    lat, points, vectors, tag, shells = models.cluster(case, 8)
    n, dim = points.shape
    ts, A = amplitudes(py, py.randrange(1, 3)), flux(case, dim)
    onsite = np.round(case.rng.uniform(-2, 2, size=n), 3) * (py.random() < 0.6)
    case.note(tag=tag, points=points, vectors=vectors, ts=ts, A=A, onsite=onsite)
    h = hopping_matrix(n, shells, ts, A, onsite)
    case.close(h, h.conj().T, "reference")
    terms = hopping_terms(case, lat, ts, A, onsite)
    table, where = models.state_table(case, points)
    # operator identity in the single-particle space
    order = sorted(where, key=where.get)
    b1 = bases((sorted(where.values()), 1))
    got = assemble(terms, table, b1)
    idx = [k for k, _ in order]
    case.close(got, h[np.ix_(idx, idx)], "hopping-matrix", atol=1e-9, rtol=1e-10)
    if np.any(np.abs(h - np.diag(np.diag(h))) > 1e-9):
        case.nontrivial(tag, n, case.index)
    sectors(case, lambda t, b: assemble(terms, t, b), table, where, h, "free-spectrum")
    if case.tier == "thorough" or py.random() < 0.4:
        table, where = models.state_table(case, points)
        sectors(case, lambda t, b: assemble(terms, t, b), table, where, h, "renumbered")


def again(case):
    """Another description of the same crystal and another gauge."""
    py = case.py
    lat, points, vectors, tag, shells = models.cluster(case, 7)
    n, dim = points.shape
    ts, A = amplitudes(py, 2), flux(case, dim)
    onsite = np.round(case.rng.uniform(-2, 2, size=n), 3)
    h = hopping_matrix(n, shells, ts, A, onsite)
    lat2, new, vec, match = models.described_again(case, lat, points, vectors)
    case.note(tag=tag, points=points, vectors=vectors, ts=ts, A=A, onsite=onsite, new=new, vec=vec)
    terms = hopping_terms(case, lat2, ts, A, onsite[match])
    phases = np.exp(1j * case.rng.uniform(0, 6, size=n))
    gauge = {HP.SiteID(p): phases[k] for k, p in enumerate(new)}
    gauged = []
    for term in terms:
        c, a = term.components
        gauged.append(HP.ParticleTerm(
            (c, a), coeff=complex(term.coeff * gauge[HP.SiteID(c.site)].conj() * gauge[HP.SiteID(a.site)]),
            classification=term.classification))
    for chosen, name in ((terms, "described-again"), (gauged, "gauged")):
        table, where = models.state_table(case, new)
        sectors(case, lambda t, b: assemble(chosen, t, b), table, where, h, name)
    case.obs("described again")
    case.nontrivial(tag, n, case.index)


def hubbard_terms(case, lat, ts, A, onsite, U, V):
    terms = []
    for s in (UP, DOWN):
        terms += hopping_terms(case, lat, ts, A, onsite, spin0=s)
    for p, u in zip(lat.points, U):
        terms.append(HP.HubbardFactory(p, coeff=float(u)))
    if V:
        for p0, p1, _ in bond_pairs(case, lat, 1):
            for s0 in (UP, DOWN):
                for s1 in (UP, DOWN):
                    terms.append(HP.CoulombFactory(p0, p1, spin0=s0, spin1=s1, coeff=float(V)))
    return terms


def hubbard_reference(n, h, U, V, shell, number):
    """Independent: position 2 k + s in plain integers, all states of `number` particles."""
    kets = ref.subset_patterns(range(2 * n), number)
    H = np.zeros((len(kets), len(kets)), dtype=complex)
    for s in (0, 1):
        for i in range(n):
            for j in range(n):
                if h[i, j] != 0:
                    H += ref.term_matrix([(2 * i + s, 1), (2 * j + s, 0)], kets, coeff=h[i, j])
    for col, ket in enumerate(kets):
        occ = [((ket >> (2 * k)) & 1) + ((ket >> (2 * k + 1)) & 1) for k in range(n)]
        H[col, col] += sum(u for u, o in zip(U, occ) if o == 2)
        H[col, col] += V * sum(occ[i] * occ[j] for i, j, _ in shell if i != j) / 2
        # a site and its own images: n_i n_i, every image pair once
        H[col, col] += V * sum(occ[i] ** 2 for i, j, _ in shell if i == j) / 2
    return H


def hubbard(case):
    py = case.py
    lat, points, vectors, tag, shells = models.cluster(case, 4 if case.tier == "thorough" else 3, top=1)
    n, dim = points.shape
    ts, A = amplitudes(py, 1), flux(case, dim)
    uniform = py.random() < 0.6
    onsite = np.zeros(n) if uniform else np.round(case.rng.uniform(-2, 2, size=n), 3)
    U = np.full(n, round(py.uniform(-6, 6), 2)) if uniform else np.round(case.rng.uniform(-6, 6, size=n), 2)
    V = py.choice([0.0, 0.0, 1.0, -0.7])
    h = hopping_matrix(n, shells, ts, A, onsite)
    case.note(tag=tag, points=points, vectors=vectors, ts=ts, A=A, onsite=onsite, U=U, V=V)
    terms = hubbard_terms(case, lat, ts, A, onsite, U, V)
    table, where = models.state_table(case, points, (UP, DOWN))
    ups = sorted(v for (k, s), v in where.items() if s == UP)
    downs = sorted(v for (k, s), v in where.items() if s == DOWN)
    scale = 1 + np.abs(h).sum() * 2 + np.abs(U).sum() + 8 * abs(V) * len(shells[0])
    tol = dict(atol=1e-10 * scale, rtol=0)
    parts = {}
    for number in range(2 * n + 1):
        E = spectrum(case, assemble(terms, table, bases((ups + downs, number))))
        want = np.linalg.eigvalsh(hubbard_reference(n, h, U, V, shells[0], number))
        case.close(E, want, "hubbard-spectrum", number, **tol)
        got = []
        for a in range(max(0, number - n), min(n, number) + 1):
            parts[a, number - a] = spectrum(case, assemble(terms, table, bases((ups, a), (downs, number - a))))
            got.append(parts[a, number - a])
            case.obs("hubbard sectors")
        case.close(np.sort(np.concatenate(got)), want, "spin-sectors", number, **tol)
    if np.abs(h - np.diag(np.diag(h))).max() > 1e-9:
        case.nontrivial(tag, n, case.index)
    for (a, b), E in parts.items():
        case.close(E, parts[b, a], "spin-flip", (a, b), **tol)
    # operator identities in the full space
    if n <= 3:
        everything = bases((ups + downs, -1))
        H = assemble(terms, table, everything)
        N = assemble([HP.CPFactory(p, spin=s) for p in points for s in (UP, DOWN)], table, everything)
        Sz = assemble([HP.CPFactory(p, spin=s, coeff=0.5 if s == UP else -0.5) for p in points for s in (UP, DOWN)],
                      table, everything)
        Sp = assemble([HP.HoppingFactory(p, p, spin0=UP, spin1=DOWN) for p in points], table, everything)
        number = np.array([bin(int(k)).count("1") for k in everything])
        case.close(N, np.diag(number.astype(complex)), "number-operator")
        case.close(Sp @ Sp.conj().T - Sp.conj().T @ Sp, 2 * Sz, "spin-algebra", atol=1e-12)
        S2 = Sz @ Sz + (Sp @ Sp.conj().T + Sp.conj().T @ Sp) / 2
        for X, name in ((N, "N"), (Sz, "Sz"), (Sp, "S+"), (S2, "S2")):
            case.close(H @ X, X @ H, "conserved-" + name, **tol)
            case.obs("conservation")


def bipartite(case):
    """Particle-hole transformations of bipartite models."""
    py = case.py
    name, sizes = py.choice([("chain", (2,)), ("chain", (3,)), ("chain", (4,)), ("square", (2, 1)), ("square", (2, 2)),
                             ("square", (1, 3)), ("honeycomb", (1, 1)), ("honeycomb", (1, 2)), ("honeycomb", (2, 1)),
                             ("cubic", (2, 1, 1)), ("cubic", (1, 2, 2))])
    lat = HP.lattice_generator(name, *sizes)
    points = lat.points
    n = len(points)
    index = {HP.SiteID(p): k for k, p in enumerate(points)}
    closed = py.random() < 0.5
    pairs = bond_pairs(case, lat, 1) if closed else [(*b.endpoints, None) for b in lat.bonds(1)[0]]
    links = [(index[HP.SiteID(p)], index[HP.SiteID(q)]) for p, q, _ in pairs]
    if models.bipartite(n, links) is None:
        closed = False
        pairs = [(*b.endpoints, None) for b in lat.bonds(1)[0]]
        links = [(index[HP.SiteID(p)], index[HP.SiteID(q)]) for p, q, _ in pairs]
    case.check(models.bipartite(n, links) is not None, "open-cluster-bipartite", links)
    U = round(py.uniform(-6, 6), 2)
    ts = [round(py.uniform(-2, 2), 2) for _ in pairs]
    case.note(name=name, sizes=sizes, closed=closed, U=U, ts=ts)

    def terms(value):
        res = [HP.HubbardFactory(p, coeff=value) for p in points]
        for (p, q, _), t in zip(pairs, ts):
            for s in (UP, DOWN):
                hop = HP.HoppingFactory(p, q, spin0=s, coeff=t)
                res += [hop, hop.dagger()]
        return res
    table, where = models.state_table(case, points, (UP, DOWN))
    ups = sorted(v for (k, s), v in where.items() if s == UP)
    downs = sorted(v for (k, s), v in where.items() if s == DOWN)
    plus, minus = terms(U), terms(-U)
    tol = dict(atol=1e-9 * (1 + abs(U) * n + 4 * np.abs(ts).sum()), rtol=0)
    chosen = [(a, b) for a in range(n + 1) for b in range(n + 1)]
    if n == 4:
        chosen = py.sample(chosen, 6)
    for a, b in chosen:
        def E(H, x, y):
            return spectrum(case, assemble(H, table, bases((ups, x), (downs, y))))
        one = E(plus, a, b)
        case.close(E(plus, b, a), one, "spin-flip", (a, b), **tol)
        case.close(E(plus, n - a, n - b) + 0.0, np.sort(one + U * (n - a - b)), "particle-hole", (a, b), **tol)
        case.close(np.sort(E(minus, a, n - b) + U * a), one, "attraction-repulsion", (a, b), **tol)
        case.obs("particle-hole")
    case.nontrivial(name, sizes, closed, U)


def exact(case):
    """Closed formulas."""
    py = case.py
    U, t = round(py.uniform(-8, 8), 2), round(py.uniform(-2, 2), 2)
    kind = case.index % 6
    case.note(U=U, t=t, kind=kind)
    case.nontrivial(kind, U, t)
    if kind == 0:          # dimer
        dim = py.choice([1, 2, 3])
        a, b = gen.distinct_sites(py, 2, dim)
        terms = []
        for s in (UP, DOWN):
            hop = HP.HoppingFactory(a, b, spin0=s, coeff=t)
            terms += [hop, hop.dagger()]
        terms += [HP.HubbardFactory(a, coeff=U), HP.HubbardFactory(b, coeff=U)]
        table, where = models.state_table(case, [a, b], (UP, DOWN))
        states = sorted(where.values())
        root = np.sqrt(U * U / 4 + 4 * t * t)
        want = {0: [0], 1: [-t, -t, t, t], 2: [U / 2 - root, U / 2 + root, U, 0, 0, 0],
                3: [U - t, U - t, U + t, U + t], 4: [2 * U]}
        for number, E in want.items():
            case.close(spectrum(case, assemble(terms, table, bases((states, number)))), np.sort(np.array(E, float)),
                       "dimer", number, atol=1e-10)
            case.obs("exact energies")
    elif kind == 1:        # spin rings and chains
        n = py.randrange(2, 8)
        ring = {2: [-1.5, 0.5, 0.5, 0.5], 3: [-0.75] * 4 + [0.75] * 4}
        lowest = {2: -1.5, 3: -0.75, 4: -2.0, 5: -1.8680339887, 6: -2.8027756377, 7: -2.8551792568}
        opened = {2: -0.75, 3: -1.0, 4: -1.6160254038, 5: -1.9278862533, 6: -2.4935771339, 7: -2.8362395}
        lat = HP.lattice_generator("chain", n)
        intra, inter = lat.bonds(1)
        case.equal((len(intra), len(inter)), (n - 1, 1), "chain-bonds", n)
        pairs = [b.endpoints for b in intra]
        closing = [(b.endpoints[0], lat.decompose(b.endpoints[1])[0]) for b in inter]
        table, _ = models.site_table(case, lat.points)
        H1 = models.spin_assemble([x for p, q in pairs for x in HP.HeisenbergFactory(p, q)], table)
        H2 = H1 + models.spin_assemble([x for p, q in closing for x in HP.HeisenbergFactory(p, q)], table)
        case.close(spectrum(case, H1)[0], opened[n], "open-chain", n, atol=1e-6)
        E = spectrum(case, H2)
        case.close(E[0], lowest[n], "ring", n, atol=1e-6)
        if n in ring:
            case.close(E, np.array(ring[n]), "ring-spectrum", n, atol=1e-10)
        # the same by the other terms
        alt = [HP.TwoSpinTermFactory(p, q, x, x) for p, q in pairs + closing for x in "xyz"]
        case.close(models.spin_assemble(alt, table), H2, "heisenberg-by-components", atol=1e-12)
        case.obs("exact energies", 2)
    elif kind == 2:        # transverse Ising chain: free fermions by Jordan and Wigner
        n = py.randrange(2, 8)
        J, hx = np.round(case.rng.uniform(-2, 2, size=n - 1), 2), np.round(case.rng.uniform(-2, 2, size=n), 2)
        sites = gen.distinct_sites(py, n)
        zz, field = py.choice(["zx", "xz", "yz", "zy", "xy"])
        terms = [HP.IsingFactory(sites[k], sites[k + 1], zz, coeff=float(4 * J[k])) for k in range(n - 1)]
        fields = [HP.SpinInteraction((HP.SpinOperator(field, sites[k]),), coeff=float(2 * hx[k])) for k in range(n)]
        table, _ = models.site_table(case, sites)
        M = np.diag(hx) + np.diag(J, 1)
        want = models.signs(np.linalg.svd(M, compute_uv=False), 0.0)
        case.close(spectrum(case, models.spin_assemble(terms + fields, table)), want, "ising", (J, hx), atol=1e-9)
        case.obs("ising chains")
    elif kind == 3:        # XX chain: hopping J / 2
        n = py.randrange(2, 8)
        J, hz = np.round(case.rng.uniform(-2, 2, size=n - 1), 2), np.round(case.rng.uniform(-2, 2, size=n), 2)
        sites = gen.distinct_sites(py, n)
        terms = []
        for k in range(n - 1):
            if py.random() < 0.5:
                terms += [HP.IsingFactory(sites[k], sites[k + 1], x, coeff=float(J[k])) for x in "xy"]
            else:
                terms += [float(J[k] / 2) * (HP.SpinOperator(a, sites[k]) * HP.SpinOperator(b, sites[k + 1]))
                          for a, b in (("p", "m"), ("m", "p"))]
        terms += [HP.SpinInteraction((HP.SpinOperator("z", sites[k]),), coeff=float(hz[k])) for k in range(n)]
        table, _ = models.site_table(case, sites)
        h = np.diag(hz) + np.diag(J / 2, 1) + np.diag(J / 2, -1)
        levels = np.linalg.eigvalsh(h)
        want = models.signs(levels / 2, 0.0)
        case.close(spectrum(case, models.spin_assemble(terms, table)), want, "xx-chain", (J, hz), atol=1e-9)
        case.obs("ising chains")
    elif kind == 4:        # one level, and two levels with a mixing
        site = gen.site(py, py.choice([1, 2, 3]))
        mu, b = round(py.uniform(-3, 3), 2), complex(round(py.uniform(-2, 2), 2), round(py.uniform(-2, 2), 2))
        mix = HP.HoppingFactory(site, site, spin0=UP, spin1=DOWN, coeff=b)
        terms = [HP.HubbardFactory(site, coeff=U), mix, mix.dagger()]
        terms += [HP.CPFactory(site, spin=s, coeff=mu) for s in (UP, DOWN)]
        table, where = models.state_table(case, [site], (UP, DOWN))
        E = spectrum(case, assemble(terms, table, bases((sorted(where.values()), -1))))
        case.close(E, np.sort([0, mu - abs(b), mu + abs(b), 2 * mu + U]), "atom", atol=1e-10)
        case.obs("exact energies")
    else:                  # ring with a flux: plane waves
        n = py.randrange(3, 9)
        lat = HP.lattice_generator("chain", n)
        phi = py.uniform(-3, 3)
        terms = hopping_terms(case, lat, [t], np.array([phi / n]), np.zeros(n))
        table, where = models.state_table(case, lat.points)
        b = bases((sorted(where.values()), 1))
        want = np.sort(2 * t * np.cos((2 * np.pi * np.arange(n) + phi) / n))
        case.close(spectrum(case, assemble(terms, table, b)), want, "ring-with-flux", atol=1e-10)
        case.obs("exact energies")


def spins(case):
    py = case.py
    top = 9 if case.tier == "thorough" else 7
    lat, points, vectors, tag, shells = models.cluster(case, top, top=1, min_points=2)
    n = len(points)
    J = round(py.uniform(-2, 2), 2)
    if len(shells[0]) > 60:
        raise Skip("too many bonds")
    case.note(tag=tag, points=points, vectors=vectors, J=J)
    terms = []
    for p0, p1, _ in bond_pairs(case, lat, 1):
        if np.array_equal(p0, p1):
            continue
        terms += HP.HeisenbergFactory(p0, p1, coeff=J)
    table, where = models.site_table(case, points)
    H = models.spin_assemble(terms, table)
    want = np.zeros_like(H)
    count = 0
    for i, j, _ in shells[0]:
        if i < j:
            count += 1
            for x in "xyz":
                want += ref.spin_product([(where[i], x), (where[j], x)], n, J)
    case.close(H, want, "spin-hamiltonian", atol=1e-10)
    scale = 1 + abs(J) * count
    E = spectrum(case, H)
    # total spin
    sx, sy, sz = TotalSpinMatrices(n)
    for X, name in ((sx, "x"), (1j * sy, "y"), (sz, "z")):
        X = X.toarray()
        case.close(H @ X, X @ H, "conserved-spin-" + name, atol=1e-10 * scale)
        case.obs("conservation")
    _, V = np.linalg.eigh(H + 1e-3 * sz.toarray())
    k = py.randrange(len(E))
    # nondegenerate in most cases: spin quantum numbers of the eigenstate
    E2 = np.linalg.eigvalsh(H + 1e-3 * sz.toarray())
    gap = min([abs(E2[k] - E2[m]) for m in (k - 1, k + 1) if 0 <= m < len(E2)])
    if gap > 1e-6 and terms:
        s2, ax, ay, az = TotalSpinAverages(n)(V[:, k])
        S = (np.sqrt(1 + 4 * s2.real) - 1) / 2
        case.close(2 * S, round(2 * S), "spin-quantum-number", (s2, k), atol=1e-5)
        case.close(2 * az, round(2 * az.real), "spin-projection", az, atol=1e-6)
        case.close([ax, ay], [0, 0], "transverse-spin", atol=1e-6)
        case.close(QuantumAverages(V[:, k], table_matrix(terms, table)), E2[k] - 1e-3 * az.real, "energy-average", atol=1e-8)
    # fermion representation in the singly occupied space
    if n <= 4 and count:
        ftable, fwhere = models.state_table(case, points, (UP, DOWN))
        b = bases(*[([fwhere[k, UP], fwhere[k, DOWN]], 1) for k in range(n)])
        case.equal(len(b), 1 << n, "single-occupancy")
        fterms = [f for term in terms for f in term.Schwinger()]
        case.close(spectrum(case, assemble(fterms, ftable, b)), E, "fermion-representation", atol=1e-9 * scale)
        case.obs("fermion representations")
    case.obs("spin clusters")
    if count:
        case.nontrivial(tag, n, case.index)


def table_matrix(terms, table):
    res = 0
    for term in terms:
        res = res + term.matrix_repr(table)
    return res


def pairing(case):
    py = case.py
    lat, points, vectors, tag, shells = models.cluster(case, 6, top=1, min_points=2)
    n, dim = points.shape
    ts, A = amplitudes(py, 1), flux(case, dim)
    onsite = np.round(case.rng.uniform(-2, 2, size=n), 3)
    h = hopping_matrix(n, shells, ts, A, onsite)
    terms = hopping_terms(case, lat, ts, A, onsite)
    D = np.zeros((n, n), dtype=complex)
    index = {HP.SiteID(p): k for k, p in enumerate(points)}
    for p0, p1, d in bond_pairs(case, lat, 1):
        i, j = index[HP.SiteID(p0)], index[HP.SiteID(p1)]
        if i == j:
            continue
        delta = complex(round(py.uniform(-1, 1), 2), round(py.uniform(-1, 1), 2))
        # delta c+_i c+_j + h.c.
        D[i, j] += delta
        D[j, i] -= delta
        first = HP.PairingFactory(p0, p1, coeff=delta, which=py.choice(["p", "particle"]))
        if py.random() < 0.5:
            second = HP.PairingFactory(p1, p0, coeff=delta.conjugate(), which=py.choice(["h", "hole"]))
        else:
            second = first.dagger()
        terms += [first, second]
    case.note(tag=tag, points=points, vectors=vectors, ts=ts, A=A, onsite=onsite, D=D)
    B = np.block([[h, D], [-D.conj(), -h.conj()]])
    E = np.linalg.eigvalsh(B)
    case.close(E, -E[::-1], "reference", atol=1e-8)
    want = models.signs(E[n:] / 2, np.trace(h).real / 2)
    for _ in range(2):
        table, where = models.state_table(case, points)
        H = assemble(terms, table, bases((sorted(where.values()), -1)))
        case.close(spectrum(case, H), want, "pairing-spectrum", atol=1e-8 * (1 + np.abs(E).sum()), rtol=0)
        case.obs("pairing spectra")
        # parity is conserved, the number is not
        b = bases((sorted(where.values()), -1))
        parity = np.array([(-1) ** bin(int(k)).count("1") for k in b])
        case.close(H * (1 - np.outer(parity, parity)), np.zeros_like(H), "parity")
    if np.abs(D).max() > 0:
        case.nontrivial(tag, n, case.index)


def response(case):
    """Ground state and Green's functions of free fermions, from start to end."""
    py = case.py
    lat, points, vectors, tag, shells = models.cluster(case, 6)
    n, dim = points.shape
    ts, A = amplitudes(py, 2), flux(case, dim)
    onsite = np.round(case.rng.uniform(-2, 2, size=n), 3)
    h = hopping_matrix(n, shells, ts, A, onsite)
    terms = hopping_terms(case, lat, ts, A, onsite)
    table, where = models.state_table(case, points)
    states = sorted(where.values())
    number = py.randrange(0, n + 1)
    case.note(tag=tag, points=points, vectors=vectors, ts=ts, A=A, onsite=onsite, number=number)
    spaces = {m: bases((states, m)) for m in (number - 1, number, number + 1) if 0 <= m <= n}
    H = {m: assemble(terms, table, b) for m, b in spaces.items()}
    E, V = np.linalg.eigh(H[number])
    levels = np.linalg.eigvalsh(h)
    # Lanczos ground state energy
    if len(E) > 1:
        from scipy.sparse import csr_matrix
        start = case.rng.normal(size=len(E)) + 1j * case.rng.normal(size=len(E))
        M = csr_matrix(H[number]) if py.random() < 0.7 else H[number]
        T, vecs = KrylovRepresentation(M, {"start": start}, start, krylov_space_dim=min(len(E), 20))
        ritz = np.linalg.eigvalsh(T)
        scale = 1 + np.abs(levels).sum()
        case.check(ritz[0] >= E[0] - 1e-8 * scale and ritz[-1] <= E[-1] + 1e-8 * scale, "ritz-bounds", (ritz[0], E[0]))
        if len(T) == len(E):
            case.close(ritz, filling(levels, number), "lanczos-spectrum", atol=1e-5 * scale, rtol=0)
        case.close(np.vdot(vecs["start"], T @ vecs["start"]), np.vdot(start, H[number] @ start), "krylov-average",
                   atol=1e-7 * scale * np.vdot(start, start).real)
    case.obs("ground states")
    which = 0 if py.random() < 0.6 else py.randrange(len(E))
    gs = V[:, which]
    # the whole space of the resolvent: all neighbouring sectors
    ms = sorted(spaces)
    total = sum(len(spaces[m]) for m in ms)
    offset = dict(zip(ms, np.cumsum([0] + [len(spaces[m]) for m in ms])))
    HM = np.zeros((total, total), dtype=complex)
    for m in ms:
        HM[offset[m]:offset[m] + len(H[m]), offset[m]:offset[m] + len(H[m])] = H[m]
    excited = {}
    As = [HP.Annihilator(p) for p in points]
    Bs = [HP.Creator(p) for p in points]
    for op in As + Bs:
        m = number + (1 if op.otype == HP.CREATION else -1)
        v = np.zeros(total, dtype=complex)
        if m in spaces:
            v[offset[m]:offset[m] + len(spaces[m])] = op.matrix_repr(table, spaces[number], left_bases=spaces[m]) @ gs
        excited[op] = v
    omegas = np.array([py.uniform(-4, 4) for _ in range(3)])
    eta = py.choice([0.05, 0.2, 1.0])
    G = RGFSolverExactMultiple(omegas, As, Bs, E[which], HM, excited, eta=eta, sign="+")
    for k, w in enumerate(omegas):
        want = np.linalg.inv((w + 1j * eta) * np.eye(n) - h)
        case.close(G[:, :, k], want, "resolvent", (w, eta), atol=1e-8 * (1 + 1 / eta ** 2), rtol=0)
        case.obs("resolvents")
    dens = np.array([[np.vdot(excited[As[j]], excited[As[i]]) for j in range(n)] for i in range(n)])
    case.close(np.trace(dens), number, "occupation", atol=1e-9)
    # dens[i, j] = <c+_j c_i>
    case.close(np.sum(h * dens.T), E[which], "energy-from-density", atol=1e-8 * (1 + np.abs(levels).sum()))
    case.nontrivial(tag, n, number, case.index)


def orbital_table(case, points, spins, orbits):
    labels = [(k, s, o) for k in range(len(points)) for s in spins for o in orbits]
    case.py.shuffle(labels)
    start = case.py.choice([0, 0, 1, 64 - len(labels)])
    table = IndexTable([StateID(gen.noisy_container(case.py, points[k]), spin=s, orbit=o) for k, s, o in labels],
                       start=start)
    return table, {label: start + n for n, label in enumerate(labels)}


def term_symbols(number, U, J):
    """Levels of the rotationally invariant atom with three orbitals:
    (U - 3 J) N (N - 1) / 2 - 2 J S (S + 1) - J L (L + 1) / 2 + 5 J N / 2."""
    symbols = {0: [(0, 0)], 1: [(0.5, 1)], 2: [(1, 1), (0, 2), (0, 0)], 3: [(1.5, 0), (0.5, 2), (0.5, 1)]}
    res = []
    for S, L in symbols[min(number, 6 - number)]:
        energy = (U - 3 * J) * number * (number - 1) / 2 - 2 * J * S * (S + 1) - J * L * (L + 1) / 2 + 2.5 * J * number
        res += [energy] * round((2 * S + 1) * (2 * L + 1))
    return np.sort(res)


def orbitals(case):
    """Several orbitals on every site."""
    py, rng = case.py, case.rng
    orbits = tuple(py.sample(range(7), 3))
    if case.index % 2 == 0:
        U, J = round(py.uniform(-6, 6), 2), py.choice([0, 0.25, round(py.uniform(-2, 2), 2)])
        site = gen.site(py, py.choice([1, 2, 3]))
        table, where = orbital_table(case, [site], (UP, DOWN), orbits)
        case.note(U=U, J=J, orbits=orbits, site=site)

        def c(spin, orbit):
            return HP.Creator(site, spin=spin, orbit=orbit)

        def a(spin, orbit):
            return HP.Annihilator(site, spin=spin, orbit=orbit)

        terms = [HP.HubbardFactory(site, orbit=m, coeff=U) for m in orbits]
        for i, m in enumerate(orbits):
            for k in orbits[i + 1:]:
                for s in (UP, DOWN):
                    terms.append(HP.CoulombFactory(site, site, spin0=s, spin1=s, orbit0=m, orbit1=k, coeff=U - 3 * J))
                    terms.append(HP.CoulombFactory(site, site, spin0=s, spin1=UP + DOWN - s, orbit0=m, orbit1=k,
                                                   coeff=U - 2 * J))
                flip = J * (c(UP, m) * c(DOWN, k) * a(DOWN, m) * a(UP, k))
                pair = J * (c(UP, m) * c(DOWN, m) * a(DOWN, k) * a(UP, k))
                terms += [flip, flip.dagger(), pair, pair.dagger()]
        whole = []
        for number in range(7):
            want = term_symbols(number, U, J)
            E = spectrum(case, assemble(terms, table, bases((sorted(where.values()), number))))
            case.close(E, want, "atom-with-orbitals", number, atol=1e-9)
            whole.append(want)
            case.obs("orbital levels", len(want))
        if py.random() < 0.3:
            E = spectrum(case, assemble(terms, table, bases((sorted(where.values()), -1))))
            case.close(E, np.sort(np.concatenate(whole)), "atom-with-orbitals-whole", atol=1e-9)
        case.nontrivial("atom", U, J)
        return
    # hybridised orbitals of one spin on several sites
    n = py.choice([1, 2, 2, 3])
    used = orbits[:2] if n == 3 else orbits
    sites = gen.distinct_sites(py, n)
    spin = py.choice([0, 1, 3])
    table, where = orbital_table(case, sites, (spin,), used)
    order = sorted(where, key=where.get)
    size = len(order)
    h = gen.random_hermitian(rng, size, py.random() < 0.7)
    case.note(sites=sites, orbits=used, spin=spin, h=h)
    terms = []
    for i, (p, _, l) in enumerate(order):
        if p == 0 and py.random() < 0.3:
            terms.append(float(h[i, i].real) * HP.NumberOperator(sites[p], spin=spin, orbit=l))
        else:
            terms.append(HP.CPFactory(sites[p], spin=spin, orbit=l, coeff=float(h[i, i].real)))
        for k, (q, _, m) in enumerate(order[:i]):
            kw = {} if l == m and py.random() < 0.5 else {"orbit1": m}
            hop = HP.HoppingFactory(sites[p], sites[q], spin0=spin, orbit0=l, coeff=complex(h[i, k]), **kw)
            terms += [hop, hop.dagger()]
    got = assemble(terms, table, bases((sorted(where.values()), 1)))
    case.close(got, h, "orbital-matrix", atol=1e-10)
    sectors(case, lambda t, b: assemble(terms, t, b), table, where, h, "orbital-spectrum")
    case.nontrivial("orbitals", n, case.index)
    case.obs("orbital models")


SECTIONS = [
    Section("free", free, 60, 2500),
    Section("again", again, 60, 2500),
    Section("hubbard", hubbard, 50, 1500),
    Section("bipartite", bipartite, 20, 1000),
    Section("exact", exact, 120, 6000),
    Section("spins", spins, 60, 1500),
    Section("pairing", pairing, 60, 2500),
    Section("response", response, 60, 2500),
    Section("orbitals", orbitals, 60, 2500),
]
