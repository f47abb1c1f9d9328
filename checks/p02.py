"""P02: the matrix of any operator string on any pair of bases."""
import numpy as np
from scipy.sparse import issparse

import HamiltonianPy as HP
from HamiltonianPy import ParticleTerm
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function

from vlib import fermi, gen, ref
from vlib.fermi import ANNIHILATION, CREATION, System, dense
from vlib import history as past
from vlib.harness import Section

PID = "P02"
RULE = ("operator strings of length 1..8 (repeated states allowed) on random sub-bases, particle and spin sectors "
        "and scattered bit positions up to 63, with left bases that contain exactly, more than, or all but one of "
        "the images; non-trivial when the matrix has at least one non-zero entry or a missing image is refused")
ASSUMPTIONS = ["bases are strictly ascending uint64 arrays as documented"]
MUST = {"non-zero entries compared": 3000, "missing image refused": 60, "rectangular": 40, "bit 63 used": 3, "entries of huge matrices": 500}


def random_string(py, positions, length, ket=None):
    """Mostly non-vanishing string [(pos, otype)], leftmost acts last."""
    if ket is None:
        ket = 0
        for p in positions:
            if py.random() < 0.5:
                ket |= 1 << p
    res = []
    for _ in range(length):
        p = py.choice(positions)
        occupied = (ket >> p) & 1
        otype = ANNIHILATION if occupied else CREATION
        if py.random() < 0.08:
            otype = CREATION + ANNIHILATION - otype
        res.append((p, otype))
        ket ^= 1 << p
    return res[::-1]


def setup(case, max_active=7):
    """A system plus active positions, anywhere in the 64 bits."""
    py = case.py
    k = py.randrange(1, max_active + 1)
    mode = py.randrange(3)
    if mode == 0:
        system = System(case, k)
        active, background = list(range(k)), 0
    elif mode == 1:
        start = py.randrange(0, 65 - k)
        system = System(case, k, start=start)
        active, background = list(range(start, start + k)), 0
        if start and py.random() < 0.5:
            background = py.getrandbits(start)
    else:
        active = gen.positions(py, k)
        system = System(case, 64, dim=2)
        background = py.getrandbits(64)
        for p in active:
            background &= ~(1 << p)
    by_pos = {pos: label for label, pos in system.index.items()}
    return system, active, background, by_pos


def evaluate(case, system, by_pos, string, coeff, right, left, how):
    """All the public ways to get the matrix, as a dense array."""
    shape = (len(right if left is None else left), len(right))
    to_csr = how % 2 == 0
    kwargs = {} if left is None else {"left_bases": left}
    if how < 4:
        aocs = [system.aoc(by_pos[p], o) for p, o in string]
        if how < 2:
            term = ParticleTerm(aocs, coeff=coeff)
        else:
            term = coeff * aocs[0]
            for x in aocs[1:]:
                term = term * x
        if how % 4 < 2 and case.py.random() < 0.3:
            # the coefficient comes with the evaluation, whatever the term had
            term.coeff = gen.coeff(case, allow_zero=True)
            kwargs["coeff"] = coeff
        res = term.matrix_repr(system.table, right, to_csr=to_csr, **kwargs)
    else:
        res = matrix_function(string, right, coeff=coeff, to_csr=to_csr, **kwargs)
    if to_csr:
        case.check(issparse(res), "type", "not a sparse matrix")
        case.equal(tuple(res.shape), shape, "shape")
        if coeff != 0:
            case.equal(int(np.count_nonzero(res.data)), int(res.nnz), "explicit-zero", "stored zeros")
    else:
        values, (rows, cols) = res
        case.check(len(values) == len(rows) == len(cols), "entries")
        if coeff != 0:
            case.check(np.all(np.asarray(values) != 0), "explicit-zero", "zero in the entries form")
        case.equal(len(set(zip(map(int, rows), map(int, cols)))), len(values), "entries", "repeated entries")
        if len(values):
            case.check(min(rows) >= 0 and max(rows) < shape[0] and min(cols) >= 0 and max(cols) < shape[1], "entries", "out of shape")
    return dense(res, shape)


def strings(case):
    py = case.py
    system, active, background, by_pos = setup(case)
    full = fermi.bases_of(active, background)
    length = py.randrange(1, 9)
    string = random_string(py, active, length)
    coeff = gen.coeff(case, allow_zero=True)
    # right basis: everything or a random ascending part
    if py.random() < 0.4:
        right = full
    else:
        keep = np.array([py.random() < 0.6 for _ in full])
        right = full[keep]
        if len(right) == 0:
            right = full[:1]
    images = set(ref.images(string, right))
    mode = py.randrange(4)
    if mode == 0 and images <= set(map(int, right)):
        left = None
    elif mode == 1 and images:
        left = np.array(sorted(images), dtype=np.uint64)
    elif mode == 2:
        extra = {int(k) for k in full if py.random() < 0.5}
        extra |= {py.getrandbits(64) for _ in range(py.randrange(3))}
        left = np.array(sorted(images | extra or {0}), dtype=np.uint64)
    else:
        left = full
    want = ref.term_matrix(string, right, left, coeff)
    case.note(string=string, coeff=coeff, right=[hex(int(k)) for k in right[:8]], left=None if left is None else [hex(int(k)) for k in left[:8]])
    how = py.randrange(6)
    got = evaluate(case, system, by_pos, string, coeff, right, left, how)
    scale = gen.size(coeff)
    case.close(got, want, "matrix", "string {0} how {1}".format(string, how), atol=1e-13 * scale, rtol=1e-13)
    nz = int(np.count_nonzero(want))
    case.obs("non-zero entries compared", nz)
    if left is not None and len(left) != len(right):
        case.obs("rectangular")
    case.peak("longest string", length)
    if max(active) == 63:
        case.obs("bit 63 used")
    if nz:
        case.nontrivial(string, right.tobytes(), None if left is None else left.tobytes())


def sectors(case):
    """Particle-number and spin sectors generated by the package."""
    py = case.py
    n_up, n_down = py.randrange(1, 5), py.randrange(1, 5)
    n = n_up + n_down
    system = System(case, n)
    perm = py.sample(range(n), n)
    ups, downs = perm[:n_up], perm[n_up:]
    N_up, N_down = py.randrange(n_up + 1), py.randrange(n_down + 1)
    right = HP.base_vectors([ups, N_up], [downs, N_down])
    by_pos = {pos: label for label, pos in system.index.items()}
    start = int(py.choice(list(right)))
    string = random_string(py, list(range(n)), py.randrange(1, 6), start)
    d_up = sum((1 if o == CREATION else -1) for p, o in string if p in ups)
    d_down = sum((1 if o == CREATION else -1) for p, o in string if p in downs)
    if not (0 <= N_up + d_up <= n_up and 0 <= N_down + d_down <= n_down):
        string = string[:1]
        d_up = sum((1 if o == CREATION else -1) for p, o in string if p in ups)
        d_down = sum((1 if o == CREATION else -1) for p, o in string if p in downs)
        if not (0 <= N_up + d_up <= n_up and 0 <= N_down + d_down <= n_down):
            return
    left = HP.base_vectors([ups, N_up + d_up], [downs, N_down + d_down])
    coeff = gen.coeff(case)
    case.note(ups=ups, downs=downs, N=(N_up, N_down), string=string)
    want = ref.term_matrix(string, right, left, coeff)
    for how in (py.randrange(2), 2 + py.randrange(2), 4 + py.randrange(2)):
        got = evaluate(case, system, by_pos, string, coeff, right, left, how)
        case.close(got, want, "sector", "how {0}".format(how), atol=1e-13 * gen.size(coeff), rtol=1e-13)
    if d_up == 0 and d_down == 0:
        got = evaluate(case, system, by_pos, string, coeff, right, None, py.randrange(6))
        case.close(got, want, "sector", "square", atol=1e-13 * gen.size(coeff), rtol=1e-13)
    if len(left) != len(right):
        case.obs("rectangular")
    nz = int(np.count_nonzero(want))
    case.obs("non-zero entries compared", nz)
    if nz:
        case.nontrivial(ups, downs, N_up, N_down, string)


def missing(case):
    """Exactly one image is not in the left basis: an error, never a matrix."""
    py = case.py
    system, active, background, by_pos = setup(case, 6)
    full = fermi.bases_of(active, background)
    string = random_string(py, active, py.randrange(1, 6))
    right = full
    images = sorted(set(ref.images(string, right)))
    if not images:
        string = [(active[0], CREATION)]
        images = sorted(set(ref.images(string, right)))
    where = py.choice(["first", "last", "middle", "beyond", "before", "empty"])
    victim = {"first": images[0], "last": images[-1]}.get(where, py.choice(images))
    base = set(images) if py.random() < 0.5 else {int(k) for k in full}
    if where == "beyond":      # every image is larger than every left ket
        base = {k for k in map(int, full) if k < images[0]}
    elif where == "before":    # every image is smaller than every left ket
        base = {k for k in map(int, full) if k > images[-1]}
    elif where == "empty":
        base = set()
    base.discard(victim)
    left = np.array(sorted(base), dtype=np.uint64)
    case.note(string=string, missing=hex(victim), where=where, left=[hex(int(k)) for k in left[:8]])
    coeff = gen.coeff(case)
    for how in range(6):
        case.raises(Exception, lambda: evaluate(case, system, by_pos, string, coeff, right, left, how),
                    "missing-image-accepted", "{0} how {1}".format(where, how))
        case.obs("missing image refused")
    # afterwards a correct call still works
    got = evaluate(case, system, by_pos, string, coeff, right, full, py.randrange(6))
    case.close(got, ref.term_matrix(string, right, full, coeff), "after-error", atol=1e-13 * gen.size(coeff), rtol=1e-13)
    # and a right basis without the offending kets is fine on that left basis
    ok = np.array([k for k in right if set(ref.images(string, [k])) <= base], dtype=np.uint64)
    if len(ok) and len(left):
        got = evaluate(case, system, by_pos, string, coeff, ok, left, py.randrange(6))
        case.close(got, ref.term_matrix(string, ok, left, coeff), "partial", atol=1e-13 * gen.size(coeff), rtol=1e-13)
    if max(active) == 63:
        case.obs("bit 63 used")
    case.nontrivial(string, victim, where, left.tobytes())


def square_missing(case):
    """left_bases omitted: the right basis must be closed, otherwise an error."""
    py = case.py
    system, active, background, by_pos = setup(case, 6)
    full = fermi.bases_of(active, background)
    string = random_string(py, active, py.randrange(1, 5))
    right = full[np.array([py.random() < 0.7 for _ in full])]
    if len(right) == 0:
        right = full[-1:]
    closed = set(ref.images(string, right)) <= set(map(int, right))
    coeff = gen.coeff(case)
    how = py.randrange(6)
    case.note(string=string, right=[hex(int(k)) for k in right[:8]], closed=closed)
    if closed:
        got = evaluate(case, system, by_pos, string, coeff, right, None, how)
        want = ref.term_matrix(string, right, None, coeff)
        case.close(got, want, "square", atol=1e-13 * gen.size(coeff), rtol=1e-13)
        case.obs("non-zero entries compared", np.count_nonzero(want))
    else:
        case.raises(Exception, lambda: evaluate(case, system, by_pos, string, coeff, right, None, how), "missing-image-accepted", "square")
        case.obs("missing image refused")
    case.nontrivial(string, right.tobytes())


def reuse(case):
    """One term object, many bases, tables and coefficients in sequence."""
    py = case.py
    n = py.randrange(2, 6)
    system = System(case, n)
    systems = [system, system.retable(), system.retable(py.randrange(1, 60))]
    labels = [py.choice(system.labels) for _ in range(py.randrange(1, 5))]
    otypes = [py.choice([CREATION, ANNIHILATION]) for _ in labels]
    term = ParticleTerm([system.aoc(l, o) for l, o in zip(labels, otypes)], coeff=gen.coeff(case))
    for step in range(8):
        sy = py.choice(systems)
        kwargs = {}
        if py.random() < 0.4:
            term.coeff = gen.coeff(case)
        elif py.random() < 0.4:
            # given with the evaluation, as documented it replaces the old one
            kwargs["coeff"] = gen.coeff(case, allow_zero=True)
            case.obs("coefficient given with the evaluation")
        string = [(sy.index[l], o) for l, o in zip(labels, otypes)]
        full = fermi.all_bases(n, sy.start)
        right = full[np.array([py.random() < 0.8 for _ in full])]
        if len(right) == 0:
            right = full
        coeff = kwargs.get("coeff", term.coeff)
        want = ref.term_matrix(string, right, full, coeff)
        res = term.matrix_repr(sy.table, right, left_bases=full, to_csr=py.random() < 0.5, **kwargs)
        case.close(dense(res, want.shape), want, "reuse", "step {0}".format(step), atol=1e-13 * gen.size(coeff), rtol=1e-13)
        data = res[0] if isinstance(res, tuple) else res.data
        data[...] = 99
        case.obs("non-zero entries compared", np.count_nonzero(want))
    case.nontrivial(labels, otypes)


def large(case):
    n = 12 if case.tier == "quick" else 14
    system = System(case, n)
    by_pos = {pos: label for label, pos in system.index.items()}
    N = case.py.randrange(4, 8)
    right = HP.base_vectors([n, N])
    string = random_string(case.py, list(range(n)), case.py.randrange(2, 7), int(case.py.choice(list(right))))
    change = sum(1 if o == CREATION else -1 for _, o in string)
    left = HP.base_vectors([n, N + change])
    case.note(string=string, N=N)
    coeff = gen.coeff(case)
    term = ParticleTerm([system.aoc(by_pos[p], o) for p, o in string], coeff=coeff)
    res = term.matrix_repr(system.table, right, left_bases=left)
    rows, cols, signs = ref.term_entries(string, right, left)
    case.equal(res.shape, (len(left), len(right)), "shape")
    coo = res.tocoo()
    order = np.argsort(coo.col)
    case.check(np.array_equal(coo.col[order], cols) and np.array_equal(coo.row[order], rows), "large-structure")
    case.close(coo.data[order], coeff * signs, "large-values", rtol=1e-13, atol=0)
    case.obs("non-zero entries compared", len(signs))
    if len(left) != len(right):
        case.obs("rectangular")
    case.nontrivial(string, N)


def huge(case):
    """Spaces of more states than the numbers of 16 bits can count."""
    py, rng = case.py, case.rng
    n = 17
    table = HP.IndexTable([HP.StateID((k,)) for k in range(n)])
    full = np.arange(1 << n, dtype=np.uint64)
    right = full if case.index % 3 == 0 else np.sort(rng.choice(full[:1 << py.choice([12, 14, 16, 17])], size=3000, replace=False))
    string = random_string(py, [16, 15, py.randrange(15), py.randrange(15)], py.randrange(1, 6), int(py.choice(list(right[:3000]))))
    coeff = gen.coeff(case)
    case.note(string=string, right=len(right))
    ket, sign, alive = right.astype(np.int64), np.ones(len(right)), np.ones(len(right), dtype=bool)
    for pos, otype in reversed(string):
        alive &= ((ket >> pos) & 1) == (0 if otype == CREATION else 1)
        below = ket & ((1 << pos) - 1)
        for shift in (16, 8, 4, 2, 1):
            below ^= below >> shift
        sign *= 1 - 2 * (below & 1)
        ket = ket ^ (1 << pos)
    term = ParticleTerm([HP.AoC(o, (p,)) for p, o in string], coeff=coeff)
    left = full
    got = term.matrix_repr(table, right, left_bases=left if len(right) < len(full) or py.random() < 0.5 else None)
    entries, (rows, cols) = term.matrix_repr(table, right, left_bases=left, to_csr=False)
    case.equal(got.shape, (len(left), len(right)), "huge-shape")
    coo = got.tocoo()
    for r, c, v, how in ((coo.row, coo.col, coo.data, "csr"), (rows, cols, entries, "entries")):
        order = np.argsort(c)
        case.check(np.array_equal(np.asarray(c)[order], np.nonzero(alive)[0]), "huge-columns", how)
        case.check(np.array_equal(np.asarray(r)[order], ket[alive]), "huge-rows", how)
        case.close(np.asarray(v)[order], coeff * sign[alive], "huge-values", how, rtol=1e-13, atol=0)
    case.obs("entries of huge matrices", int(alive.sum()))
    case.nontrivial(string, len(right))


SECTIONS = [
    past.section(past.term, past.operator, quick=28, thorough=560),
    Section("strings", strings, 1500, 40000),
    Section("sectors", sectors, 500, 15000),
    Section("missing", missing, 250, 8000),
    Section("square-missing", square_missing, 400, 10000),
    Section("reuse", reuse, 150, 5000),
    Section("large", large, 15, 100),
    Section("huge", huge, 9, 60),
]
