"""P43: interrupted calls leave everything as it was."""
import os
import sys
import tempfile

import mkl
import numpy as np
import scipy.sparse as sp

import HamiltonianPy as HP
from HamiltonianPy.tools.runtimeenv import RunTimeEnv

from vlib import gen
from vlib.harness import REPO, Section
from vlib.objects import KINDS, Recipe
from vlib.world import PARTS, World, canon, library_constants, same

PID = "P43"
RULE = ("exceptions (keyboard interrupts, lack of memory, errors of arguments supplied by the caller) are raised at every line, or byte "
        "code, of the package that a call goes through; afterwards arguments, objects, constants and process state are compared with "
        "those before the call, and every query of the catalogue is asked again; non-trivial when the exception hit a running call")
ASSUMPTIONS = ["a coefficient given to matrix_repr may have been stored or not"]
MUST = {"interrupted calls": 3500, "places of interruptions": 450, "later answers": 6000, "arguments compared": 8000, "interrupted constructions": 300,
        "failing arguments": 250, "interrupted environments": 60, "interrupted first uses": 1500}

TOOL = 4
ROOT = os.path.join(REPO, "HamiltonianPy") + os.sep
SKIP = os.path.join(ROOT, "tests") + os.sep
places, struck = set(), set()
state = {"registered": False}


class Trouble(Exception):
    """An error of the caller's own making."""


class Stop(BaseException):
    """Not an Exception, like a keyboard interrupt."""


class Fault:
    """Raises an exception at the k-th step inside of the package; counts the steps when k is 0."""

    def __init__(self, k, kind, level="line"):
        self.k, self.kind, self.level = k, kind, level
        self.steps, self.place = 0, None
        self.seen = {}

    def step(self, code, where):
        if not code.co_filename.startswith(ROOT) or code.co_filename.startswith(SKIP):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.k == 0:
            self.seen.setdefault((code.co_filename, code.co_qualname, where), [self.steps, 0])[1] = self.steps
        if self.steps == self.k:
            self.place = (code.co_filename, code.co_qualname, where)
            raise self.kind("at step {0}".format(self.k))
        return None

    def __enter__(self):
        mon = sys.monitoring
        if not state["registered"]:
            mon.use_tool_id(TOOL, "vp-fault")
            state["registered"] = True
        self.event = mon.events.LINE if self.level == "line" else mon.events.INSTRUCTION
        mon.register_callback(TOOL, self.event, self.step)
        mon.restart_events()
        mon.set_events(TOOL, self.event)
        return self

    def stop(self):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.register_callback(TOOL, self.event, None)

    def __exit__(self, *exc):
        self.stop()


def process():
    return [sorted(np.geterr().items()), str(np.get_printoptions()), np.random.get_state()[1].sum(), os.getcwd(),
            id(sys.stdout), id(sys.stderr), sys.getrecursionlimit(), mkl.get_max_threads()]


def frozen(x):
    """What an argument looks like, with the flags of its arrays."""
    flags = []

    def visit(y, depth=0):
        if isinstance(y, np.ndarray):
            flags.append((y.flags.writeable, y.dtype.str, y.shape, y.strides))
        elif sp.issparse(y):
            for name in ("data", "indices", "indptr"):
                if hasattr(y, name):
                    visit(getattr(y, name))
            flags.append((type(y).__name__, getattr(y, "has_sorted_indices", None)))
        elif isinstance(y, dict) and depth < 4:
            flags.append([repr(k) for k in y])
            for v in y.values():
                visit(v, depth + 1)
        elif isinstance(y, (list, tuple)) and depth < 4:
            for v in y:
                visit(v, depth + 1)
    visit(x)
    return [canon(x), flags]


def alike(a, b):
    return same(a[0], b[0], 0) and a[1] == b[1]


def spots(py, number, most):
    """Steps at which the call is interrupted."""
    if number <= most:
        return list(range(1, number + 1))
    return sorted({1, number, *[py.randrange(1, number + 1) for _ in range(most - 2)]})


def strike(case, func, k, kind, level):
    """Interrupt a call; the fault and what came out of it."""
    fault = Fault(k, kind, level)
    try:
        with fault:
            res = func()
    except kind as exc:
        # the harness stops cases that last too long in the same way
        case.check(fault.place is not None, "fails", repr(exc))
        return fault, None
    return fault, ("answer", res)


def note_hit(case, fault):
    case.obs("interrupted calls", fault.place is not None)
    if fault.place is not None and fault.place not in places:
        places.add(fault.place)
        case.obs("places of interruptions")


def inputs(world):
    return {**{("built", k): frozen(v) for k, v in world.built.items()}, **{("input", k): frozen(v) for k, v in world.inputs.items()}}


def queries(case):
    py = case.py
    seed = case.seed % (1 << 40)
    parts = [PARTS[case.index % len(PARTS)]]
    if py.random() < 0.5:
        parts.append(py.choice([p for p in PARTS if p != parts[0]]))
    style = py.choice(["plain", "plain", "readonly"])
    twin = World(seed, parts, style)
    wanted = [(name, canon(query())) for name, query in twin.queries]
    constants = {k: frozen(v) for k, v in library_constants().items()}
    world = World(seed, parts, style)
    before = inputs(world)
    around = process()
    level = py.choice(["line", "line", "line", "code"])
    case.note(seed=seed, parts=parts, style=style, level=level)
    fresh = World(seed, parts, style)
    count = len(world.queries)
    hit = 0
    for q in py.sample(range(count), min(count, 12)):
        name, query = world.queries[q]
        counter = Fault(0, Stop, level)
        with counter:
            canon(fresh.queries[q][1]())
        for k in spots(py, counter.steps, 6):
            kind = py.choice([KeyboardInterrupt, MemoryError, Trouble, Stop])
            case.note(query=name, step=k, kind=kind.__name__)
            fault, res = strike(case, lambda: canon(query()), k, kind, level)
            note_hit(case, fault)
            if fault.place is not None:
                hit += 1
                case.nontrivial(fault.place, kind.__name__)
            if res is not None:
                # it was done before, or got over it
                case.check(same(res[1], wanted[q][1]), "answer-" + name, lambda: "{0} instead of {1}".format(res[1], wanted[q][1]))
            after = inputs(world)
            for key, value in before.items():
                case.check(alike(after[key], value), "argument-changed", lambda: "{0} by {1}: {2} -> {3}".format(key, name, value, after[key]))
            case.obs("arguments compared", len(before))
            now = process()
            case.check(now == around, "process-changed", lambda: "{0}: {1} -> {2}".format(name, around, now))
            if py.random() < 0.3:
                case.check(same(canon(query()), wanted[q][1]), "later-" + name, lambda: "after an interruption at {0}".format(fault.place))
                case.obs("later answers")
    if not hit:
        return
    order = list(range(count))
    py.shuffle(order)
    for q in order:
        name, query = world.queries[q]
        got = canon(query())
        case.check(same(got, wanted[q][1]), "later-" + name, lambda: "{0} instead of {1}".format(got, wanted[q][1]))
        case.obs("later answers")
    for k, v in library_constants().items():
        case.check(alike(frozen(v), constants[k]), "constant-changed", k)


def constructions(case):
    """Constructors and the objects they are given."""
    py = case.py
    seed = case.seed % (1 << 40)
    level = py.choice(["line", "line", "code"])
    if py.random() < 0.5:
        parts = [py.choice(PARTS)]
        style = py.choice(["plain", "readonly"])

        def make():
            w = World.__new__(World)
            return w, lambda: w.__init__(seed, parts, style)
        twin, go = make()
        with Fault(0, Stop, level) as counter:
            go()
        # what the constructors were given, before any query
        whole = inputs(twin)
        for k in spots(py, counter.steps, 5):
            kind = py.choice([KeyboardInterrupt, MemoryError, Trouble, Stop])
            world, go = make()
            around = process()
            case.note(parts=parts, style=style, step=k, kind=kind.__name__)
            fault, _ = strike(case, go, k, kind, level)
            note_hit(case, fault)
            case.obs("interrupted constructions", fault.place is not None)
            for key, value in inputs(world).items():
                case.check(alike(value, whole[key]), "argument-changed", lambda: "{0}: {1} -> {2}".format(key, whole[key], value))
                case.obs("arguments compared")
            case.check(process() == around, "process-changed", lambda: "{0} -> {1}".format(around, process()))
            case.nontrivial(fault.place)
        again, go = make()
        go()
        wanted = World(seed, parts, style)
        for (name, query), (_, other) in zip(again.queries, wanted.queries):
            case.check(same(canon(query()), canon(other())), "later-" + name, "after interrupted constructions")
            case.obs("later answers")
        return
    # methods of single objects
    kind = KINDS[case.index % len(KINDS)]
    first = Recipe(kind, seed)
    want = first.answers(first.object)
    recipe = Recipe(kind, seed)
    with Fault(0, Stop, level) as counter:
        first.answers(first.object)
    case.note(kind=kind, level=level)
    for k in spots(py, counter.steps, 8):
        fault, res = strike(case, lambda: recipe.answers(recipe.object), k, py.choice([KeyboardInterrupt, MemoryError, Stop]), level)
        note_hit(case, fault)
        case.nontrivial(fault.place)
    case.obs("interrupted constructions")
    got = recipe.answers(recipe.object)
    case.check(same(got, want), "object-changed", lambda: [(k, want[k], got[k]) for k in want if not same(want[k], got[k])])
    case.obs("later answers", len(want))


def firsts(case):
    """The first use of new objects, interrupted at every line it goes through."""
    py = case.py
    seed = case.seed % (1 << 40)
    if py.random() < 0.25:
        what = KINDS[case.index % len(KINDS)]

        def make():
            recipe = Recipe(what, seed)
            return [("answers", lambda: recipe.answers(recipe.object))]
        part = what
    else:
        part = PARTS[case.index % len(PARTS)]

        def make():
            return World(seed, [part]).queries
    twin = make()
    wanted = [canon(query()) for _, query in twin]
    names = sorted({name for name, _ in twin})
    # all names in turn
    turn = case.index // len(PARTS) * 3
    chosen = {names[(turn + i) % len(names)] for i in range(3)}
    for name in sorted(chosen):
        best = None
        for q in [i for i, (n, _) in enumerate(twin) if n == name]:
            query = make()[q][1]
            with Fault(0, Stop) as counter:
                canon(query())
            if best is None or len(counter.seen) + py.random() > best[0]:
                best = (len(counter.seen) + py.random(), q, counter.seen)
        _, q, seen = best
        # every line when it is reached for the first and for the last time
        steps = {}
        for where, pair in seen.items():
            for k in set(pair):
                steps[k] = (name, where) in struck
        steps = sorted(steps, key=lambda k: (steps[k], py.random()))[:60]
        struck.update((name, where) for where, pair in seen.items() if set(pair) & set(steps))
        for k in steps:
            kind = py.choice([KeyboardInterrupt, MemoryError, Trouble, Stop])
            case.note(part=part, seed=seed, query=name, step=k, kind=kind.__name__)
            world = make()
            fault, _ = strike(case, lambda: canon(world[q][1]()), k, kind, "line")
            note_hit(case, fault)
            case.obs("interrupted first uses", fault.place is not None)
            case.nontrivial(fault.place)
            others = [i for i in range(len(world)) if i != q]
            ask = [q] + py.sample(others, min(len(others), 6))
            # the same method with other arguments, too
            ask += [i for i in others if world[i][0] == name]
            if py.random() < 0.5:
                py.shuffle(ask)
            for i in ask:
                got = canon(world[i][1]())
                case.check(same(got, wanted[i]), "later-" + world[i][0], lambda: "{0} instead of {1}; interrupted {2} at {3}".format(got, wanted[i], name, fault.place))
                case.obs("later answers")


class Flaky:
    """A matrix of the caller whose k-th product fails."""

    def __init__(self, M, k):
        self.M, self.k = M, k
        self.shape = M.shape
        self.calls = 0

    def dot(self, v):
        self.calls += 1
        if self.calls == self.k:
            raise Trouble("product {0}".format(self.k))
        return self.M.dot(v)

    __matmul__ = dot


def arguments(case):
    """Iterators and matrices of the caller that fail in the middle."""
    py, rng = case.py, case.rng
    labels = gen.state_labels(py, 5)
    objects = [HP.StateID(*x) for x in labels]
    at = py.randrange(6)

    def broken(items):
        for k, x in enumerate(items):
            if k == at:
                raise Trouble(k)
            yield x
        raise Trouble("end")
    n = py.randrange(3, 8)
    M = gen.random_hermitian(rng, n, py.random() < 0.5)
    vectors = {"a": rng.normal(size=n), "b": rng.normal(size=n)}
    flaky = Flaky(M, py.randrange(1, 4))
    aocs = [HP.AoC(py.choice([0, 1]), *x) for x in labels[:3]]
    term = HP.ParticleTerm(aocs, 0.5)
    table, rest = HP.IndexTable(objects), HP.IndexTable(objects[3:])
    bases = np.arange(32, dtype=np.uint64)
    left = np.arange(1, dtype=np.uint64)
    spin = HP.SpinInteraction([HP.SpinOperator("x", labels[0][0]), HP.SpinOperator("z", labels[1][0])], 1.5)
    where = HP.IndexTable([HP.SiteID((99.0,) * len(labels[0][0]))])
    calls = [
        ("IndexTable", lambda: HP.IndexTable(broken(objects)), [objects]),
        ("KrylovRepresentation", lambda: HP.KrylovRepresentation(flaky, vectors, vectors["a"]), [M, vectors]),
        ("ParticleTerm.matrix_repr-table", lambda: term.matrix_repr(rest, bases), [bases]),
        ("ParticleTerm.matrix_repr-image", lambda: HP.ParticleTerm(aocs[:1], 0.5).matrix_repr(table, bases, left_bases=left), [bases, left]),
        ("SpinInteraction.matrix_repr-table", lambda: spin.matrix_repr(where), []),
    ]
    for name, call, given in calls:
        before = [frozen(x) for x in given]
        around = process()
        case.note(call=name, at=at)
        try:
            call()
        except Trouble:
            case.obs("failing arguments")
        except (KeyError, TypeError, ValueError):
            case.obs("failing arguments", "Krylov" not in name and name != "IndexTable")
            case.check("Krylov" not in name and name != "IndexTable", "other-error", name)
        else:
            # the Krylov space may be exhausted, and the operators cancel
            case.check(name.startswith(("Krylov", "Particle")), "no-error", name)
        for x, b in zip(given, before):
            case.check(alike(frozen(x), b), "argument-changed", name)
            case.obs("arguments compared")
        case.check(process() == around, "process-changed", name)
    good = HP.ParticleTerm(aocs, 0.5)
    case.check(same(canon(term), canon(good)), "object-changed", "term")
    case.check(same(canon(term.matrix_repr(table, bases)), canon(good.matrix_repr(table, bases))), "object-changed", "matrix of the term")
    case.nontrivial(at, flaky.k, len(aocs))


def environments(case):
    """The work inside of a run-time environment is interrupted."""
    py = case.py
    seed = case.seed % (1 << 40)
    part = py.choice(PARTS)
    fresh = World(seed, [part])
    q = py.randrange(len(fresh.queries))
    with Fault(0, Stop) as counter:
        canon(fresh.queries[q][1]())
    world = World(seed, [part])
    threads = py.choice([None, 1, 2])
    with tempfile.TemporaryDirectory() as folder:
        for k in spots(py, counter.steps, 3):
            kind = py.choice([KeyboardInterrupt, MemoryError, Trouble, Stop])
            around, stdout = process(), sys.stdout
            case.note(query=fresh.queries[q][0], step=k, kind=kind.__name__)
            fault = Fault(k, kind)
            raised = False
            try:
                with RunTimeEnv(rd=py.random() < 0.7, path=folder, threads_num=threads):
                    with fault:
                        canon(world.queries[q][1]())
            except kind:
                raised = True
            case.check(raised == (fault.place is not None), "swallowed", fault.place)
            case.check(sys.stdout is stdout and process() == around, "process-changed", lambda: "{0} -> {1}".format(around, process()))
            case.obs("interrupted environments", raised)
            note_hit(case, fault)
            case.nontrivial(fault.place, kind.__name__)


SECTIONS = [
    Section("queries", queries, 200, 3000),
    Section("constructions", constructions, 240, 4000),
    Section("firsts", firsts, 100, 3000),
    Section("arguments", arguments, 120, 1500),
    Section("environments", environments, 90, 1200),
]
