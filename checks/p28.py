"""P28: compiled kernels stay inside their arrays."""
import json
import os
import subprocess
import sys

import numpy as np

from HamiltonianPy.quantumoperator.matrixrepr import matrix_function

from vlib import fermi, gen, harness, ref
from vlib.fence import Fenced
from vlib.fermi import dense
from vlib.harness import Section
from checks import p02

PID = "P28"
RULE = ("operator strings of every kind (general, hopping, number, Coulomb, single operators, labelled terms) on bases "
        "in memory between inaccessible pages with write-protected data, on slices of larger arrays with hostile "
        "neighbours (for instance the missing image right behind the end), on strided, read-only and memory-mapped views, with missing images at "
        "both ends and in between, and the same strings in a build with bounds checks in a separate process; "
        "non-trivial when at least one image exists")
ASSUMPTIONS = ["bases are aligned, strictly ascending uint64 arrays"]
MUST = {"fenced evaluations": 500, "neighbour contents": 900, "views": 700, "read-only views": 200, "memory-mapped views": 40, "missing image refused": 300,
        "missing image behind the end": 60, "missing image before the start": 60, "missing image in between": 40,
        "bounds-checked evaluations": 300, "valid evaluations after a refusal": 300}


def pick(case):
    """(string, kind, right, left or None, way to evaluate)."""
    py = case.py
    system, active, background, by_pos = p02.setup(case, max_active=6)
    full = fermi.bases_of(active, background)
    kind = py.choice(["general", "general", "hopping", "number", "Coulomb", "single"])
    if len(active) < 2 and kind in ("hopping", "Coulomb"):
        kind = "general"
    C, A = p02.CREATION, p02.ANNIHILATION
    if kind == "general":
        string = p02.random_string(py, active, py.randrange(1, 7))
    elif kind == "single":
        string = [(py.choice(active), py.choice([C, A]))]
    elif kind == "number":
        i = py.choice(active)
        string = [(i, C), (i, A)]
    else:
        i, j = py.sample(active, 2)
        string = [(i, C), (j, A)] if kind == "hopping" else [(i, C), (i, A), (j, C), (j, A)]
    if py.random() < 0.6:
        right = full
    else:
        right = full[[py.random() < 0.6 for _ in full]]
        if len(right) == 0:
            right = full[-1:]
    return system, by_pos, string, kind, right, active, full


def evaluator(case, system, by_pos, string, kind, left_needed):
    """A function (right, left) -> dense matrix, always the same way."""
    py = case.py
    how = py.choice([0, 2, 3]) if left_needed else py.randrange(4)
    to_csr = py.random() < 0.5

    if how == 0 or len(string) == 0:
        tag = kind if kind in ("hopping", "number", "Coulomb") and py.random() < 0.7 else "general"

        def f(right, left=None):
            kwargs = {} if left is None else {"left_bases": left}
            return matrix_function(string, right, to_csr=to_csr, special_tag=tag, **kwargs)
    else:
        aocs = [system.aoc(by_pos[p], o) for p, o in string]
        if len(string) == 1 and how == 1:
            term = aocs[0]
        elif kind == "number" and how == 1:
            term = system.number(by_pos[string[0][0]])
        elif kind in ("hopping", "number", "Coulomb") and how < 3:
            term = fermi.ParticleTerm(aocs, classification=kind)
        else:
            term = fermi.ParticleTerm(aocs)

        def f(right, left=None):
            kwargs = {} if left is None else {"left_bases": left}
            return term.matrix_repr(system.table, right, to_csr=to_csr, **kwargs)

    def g(right, left=None):
        return dense(f(right, left), (len(right if left is None else left), len(right)))
    return g


def spaces(case, string, right, full):
    """A left basis that holds all the images (None: the right one)."""
    py = case.py
    images = sorted(set(ref.images(string, right)))
    if set(images) <= set(map(int, right)) and py.random() < 0.5:
        return None, images
    if images and py.random() < 0.4:
        return np.array(images, dtype=np.uint64), images
    more = set(images) | {int(k) for k in full if py.random() < 0.4} | {py.getrandbits(64) for _ in range(py.randrange(3))}
    return np.array(sorted(more or {1}), dtype=np.uint64), images


def compare(case, got, want, where):
    case.close(got, want, "matrix-" + where, atol=1e-13)


def fenced(case):
    py = case.py
    system, by_pos, string, kind, right, active, full = pick(case)
    left, images = spaces(case, string, right, full)
    f = evaluator(case, system, by_pos, string, kind, left is not None)
    want = ref.term_matrix(string, right, left)
    case.note(string=string, kind=kind, right=len(right), left=None if left is None else len(left))
    if py.random() < 0.1:
        # several pages
        more = np.unique(np.concatenate([right, np.array([py.getrandbits(63) for _ in range(py.choice([510, 511, 512, 1500]))], dtype=np.uint64)]))
        try:
            ref.term_entries(string, more, left)
        except LookupError:
            left = np.unique(np.concatenate([more, np.array(ref.images(string, more), dtype=np.uint64)]))
        right = more
        rows, cols, signs = ref.term_entries(string, right, left)
        want = np.zeros((len(right if left is None else left), len(right)))
        want[rows, cols] = signs
    for at_end in (True, False):
        r = Fenced(right, at_end, fill=py.choice([0, 2**64 - 1]))
        l = None if left is None else Fenced(left, py.random() < 0.5, fill=py.choice([0, 2**64 - 1, int(left[-1])]))
        try:
            got = f(r.array, None if l is None else l.array)
            compare(case, got, want, "fenced")
            case.check(np.array_equal(r.array, right), "basis-changed")
        finally:
            r.close()
            if l is not None:
                l.close()
        case.obs("fenced evaluations")
    if images:
        case.nontrivial(string, right.tobytes(), None if left is None else left.tobytes())


def neighbours(case):
    """The same basis as part of larger arrays."""
    py = case.py
    system, by_pos, string, kind, right, active, full = pick(case)
    left, images = spaces(case, string, right, full)
    f = evaluator(case, system, by_pos, string, kind, left is not None)
    want = ref.term_matrix(string, right, left)
    case.note(string=string, kind=kind, right=len(right))

    def embed(values):
        values = np.asarray(values, dtype=np.uint64)
        before, after = py.randrange(0, 4), py.randrange(0, 4)
        big = np.array([py.choice([0, 2**64 - 1, py.getrandbits(64), int(py.choice(full)), int(values[0]), int(values[-1])])
                        for _ in range(before + len(values) + after)], dtype=np.uint64)
        big[before:before + len(values)] = values
        return big, big[before:before + len(values)]
    for _ in range(3):
        big_r, r = embed(right)
        old_r = big_r.copy()
        big_l, l = (None, None) if left is None else embed(left)
        old_l = None if left is None else big_l.copy()
        compare(case, f(r, l), want, "slice")
        case.check(np.array_equal(big_r, old_r), "neighbour-changed", "right")
        if left is not None:
            case.check(np.array_equal(big_l, old_l), "neighbour-changed", "left")
        case.obs("neighbour contents")
    if images:
        case.nontrivial(string, right.tobytes())


def views(case):
    """Strided views instead of contiguous arrays."""
    py = case.py
    system, by_pos, string, kind, right, active, full = pick(case)
    left, images = spaces(case, string, right, full)
    f = evaluator(case, system, by_pos, string, kind, left is not None)
    want = ref.term_matrix(string, right, left)
    case.note(string=string, kind=kind)

    def view(values):
        values = np.asarray(values, dtype=np.uint64)
        n = len(values)
        mode = py.randrange(5)
        if mode == 0:
            step = py.randrange(2, 5)
            big = np.array([py.choice([0, 2**64 - 1, py.getrandbits(64), int(values[-1])]) for _ in range(n * step)], dtype=np.uint64)
            start = py.randrange(step)
            v = big[start::step][:n]
        elif mode == 1:
            big = np.zeros((n, 3), dtype=np.uint64) + np.uint64(py.getrandbits(64))
            start = py.randrange(3)
            v = big[:, start]
        elif mode == 2:
            big = np.zeros((n, 3), dtype=np.uint64, order="F")
            start = 1
            v = big[:, start]
        elif mode == 3:
            big = np.zeros(n, dtype=np.uint64)
            v = big[::-1]
        else:
            big = np.zeros(n, dtype=[("a", np.uint64), ("b", np.uint64)])
            v = big["b"]
        v[...] = values
        if py.random() < 0.4:
            v = v[...]
            v.flags.writeable = False
            case.obs("read-only views")
        elif py.random() < 0.15 and n:
            path = os.path.join(os.environ.get("VP_WORK", "."), "p28-{0}.npy".format(os.getpid()))
            np.save(path, big)
            # the same strides on the pages of the file
            mapped = np.load(path, mmap_mode="r")
            os.remove(path)
            big = mapped
            v = (mapped[start::step][:n] if mode == 0 else mapped[:, start] if mode in (1, 2) else
                 mapped[::-1] if mode == 3 else mapped["b"])
            case.obs("memory-mapped views")
        return big, v
    for _ in range(2):
        big_r, r = view(right)
        old = big_r.copy()
        big_l, l = (None, None) if left is None else view(left)
        compare(case, f(r, l), want, "view")
        case.check(np.array_equal(big_r, old), "neighbour-changed", "view")
        compare(case, f(right, left), want, "fresh")
        case.obs("views")
    if images:
        case.nontrivial(string, right.tobytes())


def missing(case):
    """One image is not there: refused, wherever it would have been."""
    py = case.py
    system, by_pos, string, kind, right, active, full = pick(case)
    f = evaluator(case, system, by_pos, string, kind, True)
    images = sorted(set(ref.images(string, right)))
    if not images:
        raise harness.Skip("nothing to miss")
    gone = py.choice([images[0], images[-1], py.choice(images)])
    kept = [k for k in images if k != gone]
    mode = py.randrange(3)
    others = set(kept)
    if mode == 0:
        others |= {k for k in map(int, full) if k < gone}      # it would come last
    elif mode == 1:
        others |= {k for k in map(int, full) if k > gone}      # it would come first
    else:
        others |= {int(k) for k in full if int(k) != gone and py.random() < 0.7} | {0, 2**64 - 1} - {gone}
    left = np.array(sorted(others), dtype=np.uint64)
    case.note(string=string, kind=kind, gone=hex(gone), left=[hex(int(k)) for k in left[:6]])
    # the missing image lies right next to the array
    n = len(left)
    buf = np.full(n + 4, gone, dtype=np.uint64)
    buf[2:2 + n] = left
    fence = Fenced(left, py.random() < 0.5) if n else None
    candidates = [left, buf[2:2 + n]] + ([fence.array] if n else [])
    where = "behind the end" if not n or gone > int(left[-1]) else ("before the start" if gone < int(left[0]) else "in between")
    good_left = np.array(sorted(others | set(images)), dtype=np.uint64)
    want = ref.term_matrix(string, right, good_left)
    try:
        for k, l in enumerate(candidates):
            case.raises(KeyError, lambda l=l: f(right, l), "missing-image-accepted", "{0} is {1}".format(hex(gone), where))
            case.obs("missing image refused")
            case.obs("missing image " + where)
            compare(case, f(right, good_left), want, "after-refusal")
            case.obs("valid evaluations after a refusal")
    finally:
        if fence is not None:
            fence.close()
    case.nontrivial(string, gone, left.tobytes())


WORKER = "bounds"
BODIES = {"fenced": fenced, "neighbours": neighbours, "views": views, "missing": missing}


def bounds_checked(case):
    """A separate process with bounds checks compiled in and an empty cache."""
    count = 40 if case.tier == "quick" else 400
    env = dict(os.environ)
    env["NUMBA_BOUNDSCHECK"] = "1"
    env["NUMBA_CACHE_DIR"] = os.path.join(os.environ["VP_WORK"], "numba-bounds")
    env["NUMBA_FULL_TRACEBACKS"] = "0"
    code = ("import sys; sys.path[:0] = {0!r}; from checks import p28; p28.worker({1}, {2}, {3!r}, {4})").format(
        [harness.VERIF, harness.REPO], count, case.run.seed, case.tier, case.index)
    done = subprocess.run([sys.executable, "-P", "-c", code], env=env, capture_output=True, text=True, timeout=700)
    lines = [x for x in done.stdout.splitlines() if x.startswith("{")]
    case.note(count=count, returncode=done.returncode)
    case.check(done.returncode == 0 and lines, "bounds-checked-crash", (done.returncode, done.stderr[-800:]))
    data = json.loads(lines[-1])
    case.check(data["active"], "bounds checks are not active")
    case.check(not data["failures"], "bounds-checked", data["failures"][:2])
    case.obs("bounds-checked evaluations", data["evaluations"])
    case.run.oracle_calls += data["oracles"]
    case.nontrivial("bounds", case.index)


def worker(count, seed, tier, index):
    import numba

    @numba.njit
    def probe(a, k):
        return a[k]
    try:
        probe(np.arange(3), 5)
        active = False
    except IndexError:
        active = True
    run = harness.Run(PID, tier, seed)
    failures = []
    for name, body in BODIES.items():
        for k in range(count):
            case = harness.Case(run, "bounds-{0}-{1}".format(name, index), k)
            try:
                body(case)
            except harness.Skip:
                pass
            except Exception as exc:
                failures.append([name, k, repr(exc)[:300]])
    print(json.dumps({"active": active, "failures": failures, "oracles": run.oracle_calls,
                      "evaluations": sum(run.observed.get(n, 0) for n in (
                          "fenced evaluations", "neighbour contents", "views", "missing image refused"))}))


SECTIONS = [
    Section("fenced", fenced, 500, 12000),
    Section("neighbours", neighbours, 500, 12000),
    Section("views", views, 500, 12000),
    Section("missing", missing, 300, 8000),
    Section("bounds-checked", bounds_checked, 1, 4),
]
