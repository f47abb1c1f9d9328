"""P35: concurrent read-only use."""
import os
import pickle
import random
import subprocess
import sys
import tempfile
import time

from vlib import threads
from vlib.harness import REPO, VERIF, Section
from vlib.world import PARTS, World, canon, library_constants, same

PID = "P35"
RULE = ("2 to 8 threads answer queries of the catalogue on shared worlds (cold or warm); the turn is passed at random lines "
        "or byte codes of the repository (controlled schedules) or by the interpreter at the smallest switch interval; every "
        "answer is compared with the serial one of an equal world, then every query is asked again serially; single calls are "
        "stopped at each of their places while another thread runs whole queries; non-trivial when calls of different "
        "threads overlapped")
ASSUMPTIONS = ["no attribute is assigned and nothing is drawn while the threads run (as the property says)"]
MUST = {"answers compared": 8000, "overlapping calls": 1500, "handoffs": 10000, "later answers": 3000,
        "threads": 250, "kinds of queries": 60, "fresh processes": 2, "interrupted calls": 1000,
        "places of interruptions": 120}

seen_kinds = set()
seen_schedules = set()
seen_places = set()


def compare(case, key, value, exc, answers, where):
    name = key[1]
    if exc is not None:
        case.fail("call-fails-" + name, "{0}: {1!r}".format(where, exc))
    got = canon(value)
    want = answers[key]
    case.check(same(got, want), "answer-" + name, lambda: "{0}: got={1} want={2}".format(where, got, want))


def concurrent(case, level):
    py = case.py
    number = py.choice([2, 2, 3, 4, 8])
    worlds, answers, pool = [], {}, []
    for w in range(py.choice([1, 1, 2])):
        parts = py.sample(PARTS, py.randrange(1, 4))
        if py.random() < 0.25 and "lattice" not in parts:
            parts.append("lattice")
        style = py.choice(["plain", "plain", "readonly"])
        seed = (case.seed >> w) % (1 << 40)
        twin = World(seed, parts, style)
        for k, (name, query) in enumerate(twin.queries):
            answers[w, name, k] = canon(query())
        world = World(seed, parts, style)
        if py.random() < 0.35:         # warm caches
            for name, query in world.queries:
                if py.random() < 0.5:
                    query()
        worlds.append(world)
        pool += [((w, name, k), query) for k, (name, query) in enumerate(world.queries)]
    constants = {k: canon(v) for k, v in library_constants().items()}
    inputs = [{k: canon(v) for k, v in w.inputs.items()} for w in worlds]
    size = 25 if level == "opcode" else 40
    convoy = py.random() < 0.4
    if convoy:                     # everybody asks the same in the same order
        job = [py.choice(pool) for _ in range(size // 2)]
        jobs = [list(job) for _ in range(number)]
    elif py.random() < 0.3:        # few different queries
        few = py.sample(pool, min(4, len(pool)))
        jobs = [[py.choice(few) for _ in range(size // 2)] for _ in range(number)]
    else:
        jobs = [[py.choice(pool) for _ in range(size)] for _ in range(number)]
    if level == "free":
        schedule = threads.Free(py.choice([1e-6, 1e-5, 1e-4]))
    else:
        schedule = threads.Turns(case.seed, number, "line" if level == "line" else "opcode",
                                 py.choice([0.01, 0.05, 0.2, 0.6]) * (0.3 if level == "opcode" else 1))
    case.note(level=level, number=number, convoy=convoy, parts=[len(w.queries) for w in worlds])
    results, overlaps, stuck = threads.run(schedule, jobs)
    case.check(not stuck, "threads-do-not-end", stuck)
    for me, res in enumerate(results):
        case.equal([key for key, _, _ in res], [key for key, _ in jobs[me]], "calls-lost", me)
        for key, value, exc in res:
            compare(case, key, value, exc, answers, "thread {0} of {1}".format(me, number))
            case.obs("answers compared")
            seen_kinds.add(key[1])
    # the state left behind
    py.shuffle(pool)
    for key, query in pool:
        compare(case, key, query(), None, answers, "afterwards")
        case.obs("later answers")
    for old, w in zip(inputs, worlds):
        for k, v in w.inputs.items():
            case.check(same(canon(v), old[k], 0.0), "argument-modified", k)
    for k, v in library_constants().items():
        case.check(same(canon(v), constants[k], 0.0), "constant-modified", k)
    case.obs("threads", number)
    case.obs("overlapping calls", overlaps)
    case.obs("handoffs", schedule.handoffs)
    case.obs("monitored steps", schedule.steps)
    case.obs("threads that lost patience", schedule.impatient)
    case.peak("places of handoffs in one schedule", len(schedule.places))
    seen_schedules.add(schedule.digest.hexdigest())
    case.run.observed["kinds of queries"] = len(seen_kinds)
    case.run.observed["distinct controlled schedules"] = len(seen_schedules)
    if overlaps:
        case.nontrivial(level, number, convoy, schedule.digest.hexdigest(), case.index)


def interrupted(case):
    """One call is stopped at a chosen place, another thread asks several
    questions about the same objects, then the call goes on."""
    py = case.py
    part = py.choice(PARTS + ["lattice"] * 4)
    seed = case.seed % (1 << 40)
    twin = World(seed, [part])
    answers = {(0, name, k): canon(query()) for k, (name, query) in enumerate(twin.queries)}
    keys = sorted(answers, key=lambda key: key[2])
    level = py.choice(["line", "line", "opcode"])
    constants = {k: canon(v) for k, v in library_constants().items()}
    for _ in range(2):
        asked = py.choice(keys)
        # the number of steps of a first call
        query = World(seed, [part]).queries[asked[2]][1]
        with threads.Interrupt(level, -1, ()) as count:
            query()
        if count.steps == 0:
            continue
        places = range(1, count.steps + 1)
        if len(places) > 14:
            places = sorted(py.sample(places, 14))
        for place in places:
            world = World(seed, [part])
            visitors = [asked] if py.random() < 0.5 else []
            alike = [key for key in keys if key[1] == asked[1]]
            visitors += [py.choice(alike if py.random() < 0.6 else keys) for _ in range(3)]
            visitor = [(key, world.queries[key[2]][1]) for key in visitors]
            error = value = None
            with threads.Interrupt(level, place, visitor) as schedule:
                try:
                    value = world.queries[asked[2]][1]()
                except Exception as exc:
                    error = exc
            case.note(part=part, asked=asked, visitors=visitors, place=schedule.place, step=place, level=level)
            if schedule.place is None:
                case.obs("calls that ended before")
                compare(case, asked, value, error, answers, "alone")
                continue
            case.check(schedule.results is not None, "threads-do-not-end", schedule.place)
            compare(case, asked, value, error, answers, "interrupted at {0}".format(schedule.place))
            for key, got, exc in schedule.results:
                compare(case, key, got, exc, answers, "while a call is at {0}".format(schedule.place))
                case.obs("answers compared")
                seen_kinds.add(key[1])
            for key in [asked, py.choice(visitors), py.choice(keys)]:
                compare(case, key, world.queries[key[2]][1](), None, answers, "after the interruption at {0}".format(
                    schedule.place))
            case.obs("interrupted calls")
            case.obs("visitors that had to wait", schedule.waited)
            seen_places.add(schedule.place)
            case.nontrivial(asked, schedule.place, case.index)
    for k, v in library_constants().items():
        case.check(same(canon(v), constants[k], 0.0), "constant-modified", k)
    case.run.observed["places of interruptions"] = len(seen_places)


def fresh(case):
    """The very first calls of a process are concurrent ones."""
    py = case.py
    seed = case.seed % (1 << 40)
    parts = py.sample(PARTS, 5)
    number = py.choice([2, 4, 8])
    level = py.choice(["free", "line"])
    slow = case.index % 2 == 0
    if slow and "fermions" not in parts:
        parts[0] = "fermions"
    case.note(parts=parts, number=number, level=level, slow=slow)
    world = World(seed, parts)
    answers = {(0, name, k): canon(query()) for k, (name, query) in enumerate(world.queries)}
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "out")
        code = "import checks.p35 as p; p.child({0!r}, {1!r}, {2!r}, {3!r}, {4!r}, {5!r})".format(
            seed, parts, number, level, slow, out)
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([VERIF, REPO]))
        res = subprocess.run([sys.executable, "-c", code], env=env, cwd=tmp, capture_output=True, text=True, timeout=300)
        case.equal(res.returncode, 0, "process-fails", res.stderr[-1500:])
        with open(out, "rb") as f:
            results, overlaps, stuck = pickle.load(f)
    case.check(not stuck, "threads-do-not-end", stuck)
    for me, res in enumerate(results):
        for key, got, text in res:
            if text is not None:
                case.fail("call-fails-" + key[1], text)
            case.check(same(got, answers[key]), "answer-" + key[1], lambda: "fresh process, thread {0}: {1} != {2}".format(
                me, got, answers[key]))
            case.obs("answers compared")
    case.obs("overlapping calls", overlaps)
    case.obs("fresh processes")
    case.nontrivial(parts, number, level, case.index)


class SlowTypes(dict):
    """The registry of argument types of the compiler, with a delay."""

    def get(self, key, default=None):
        res = dict.get(self, key, default)
        time.sleep(0.005)
        return res


def child(seed, parts, number, level, slow, out):
    if slow:
        # first calls of compiled functions: other threads get in between
        try:
            from numba.core.types import abstract
            abstract._typecache = SlowTypes(abstract._typecache)
        except (ImportError, AttributeError):
            pass
    py = random.Random(seed)
    world = World(seed, parts)
    pool = [((0, name, k), query) for k, (name, query) in enumerate(world.queries)]
    job = list(pool)
    py.shuffle(job)
    if slow:
        job.sort(key=lambda item: "matrix" not in item[0][1])
    jobs = [list(job) for _ in range(number)]
    schedule = threads.Free(1e-6) if level == "free" else threads.Turns(seed, number, "line", 0.02)
    results, overlaps, stuck = threads.run(schedule, jobs)
    plain = [[(key, canon(value) if exc is None else None, None if exc is None else repr(exc)) for key, value, exc in res]
             for res in results]
    with open(out, "wb") as f:
        pickle.dump((plain, overlaps, stuck), f)


SECTIONS = [
    Section("interrupted", interrupted, 120, 6000),
    Section("lines", lambda case: concurrent(case, "line"), 45, 4000),
    Section("opcodes", lambda case: concurrent(case, "opcode"), 20, 1500),
    Section("free", lambda case: concurrent(case, "free"), 40, 4000),
    Section("fresh", fresh, 3, 40),
]
