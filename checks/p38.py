"""P38: copies, pickles and other processes."""
import copy
import os
import pickle
import struct
import subprocess
import sys

import numpy as np

import HamiltonianPy as HP

from vlib import green
from vlib.harness import Section, REPO, VERIF
from vlib.objects import KEYS, KINDS, Recipe
from vlib.world import PARTS, World, canon, same

PID = "P38"
RULE = ("objects of every kind, fresh or used before, are copied, deeply copied or pickled with every protocol, alone and in "
        "containers keyed by them, and sent to a second process with another hash seed; the copies answer all identifying "
        "questions, are found in sets and dictionaries of newly made objects and the other way round, and stay independent; "
        "whole catalogues of queries are answered in both processes; non-trivial when answers of a copy or of the other process "
        "were compared")
ASSUMPTIONS = ["lattices are pickled with protocols 2 to 5 (scipy's trees cannot be pickled with older ones)"]
MUST = {"copies": 400, "sent objects": 120, "answers of the other process": 1500, "lookups": 200, "independent copies": 60,
        "kinds": 15, "green's functions": 15, "tables": 15, "ways": 15}

WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    WAYS["pickle {0}".format(_p)] = lambda x, p=_p: pickle.loads(pickle.dumps(x, p))
SEEN = {"kinds": set(), "ways": set()}


def saw(case, what, value):
    SEEN[what].add(value)
    case.run.observed[what] = len(SEEN[what])


def ways(py, kind):
    names = [w for w in WAYS if not (kind == "Lattice" and w in ("pickle 0", "pickle 1"))]
    chosen = [py.choice(names)]
    if py.random() < 0.3:
        chosen.append(py.choice(names))
    return chosen


def copies(case):
    py = case.py
    kind = KINDS[case.index % len(KINDS)]
    seed = case.seed % (1 << 40)
    chosen = ways(py, kind)
    used = py.choice(["fresh", "hashed", "used"])
    case.note(kind=kind, ways=chosen, used=used)
    want = Recipe(kind, seed)
    answers = want.answers(want.object)
    again = Recipe(kind, seed)
    x = again.object
    if used == "used":
        again.answers(x)
    if used != "fresh" and kind in KEYS:
        hash(x)
    container = None
    place = py.choice(["alone", "list", "dict", "both"])
    y = x
    for way in chosen:
        if place == "alone" or way == "copy":
            y = WAYS[way](y)
        elif place == "list":
            y = WAYS[way]([y, (y,)])
            case.check(y[1][0] is y[0] or canon(y[1][0]) == canon(y[0]) or same(canon(y[1][0]), canon(y[0])), "shared-object", way)
            y = y[0]
        elif place == "dict" and kind in KEYS:
            container = WAYS[way]({y: 3, "other": y})
            y = container["other"]
        else:
            y = WAYS[way]({"x": y, "table": again.table})
            y = y["x"]
        saw(case, "ways", (way, place))
    saw(case, "kinds", kind)
    case.check(type(y) is type(x), "type", type(y))
    got = again.answers(y)
    for key, value in answers.items():
        case.check(same(got.get(key), value), "copy-differs", lambda: "{0} of {1}: {2} != {3}".format(key, kind, got.get(key), value))
    if kind in KEYS:
        mine = want.object
        for a, b in ((y, x), (x, y), (y, mine), (mine, y)):
            case.check(a == b and not a != b, "copy-unequal", (a, b))
            case.check(hash(a) == hash(b), "copy-hash", (a, b))
        case.check(y in {x} and x in {y} and {y: 1}.get(mine) == 1 and len({x, y, mine}) == 1, "copy-lookup", y)
        if container is not None:
            case.check(container.get(y) == 3 and container.get(mine) == 3, "copy-lookup", container)
        case.obs("lookups")
        if kind in ("StateID", "AoC", "NumberOperator"):
            case.check(again.table(getattr(y, "state", y)) == again.table(getattr(x, "state", x)), "copy-index", y)
        if kind in ("SiteID", "StateID", "AoC", "NumberOperator"):
            case.check(not y < x and not y > x and y <= x and y >= x, "copy-order", y)
    if kind in ("ParticleTerm", "FactoryTerm", "SpinInteraction"):
        # a new coefficient for one of them
        one, other = (x, y) if py.random() < 0.5 else (y, x)
        table, extra = (again.site_table, ()) if kind == "SpinInteraction" else (again.table, (again.bases,))
        old = other.coeff
        before = canon(other.matrix_repr(table, *extra))
        M = one.matrix_repr(table, *extra, coeff=4.5)
        case.check(one.coeff == 4.5, "new-coefficient", one.coeff)
        case.check(other.coeff == old and same(canon(other.matrix_repr(table, *extra)), before), "copy-not-independent", chosen)
        if old:
            case.close(M.toarray() * old, before[2] * 4.5, "new-coefficient", chosen)
        case.obs("independent copies")
    elif kind == "Lattice" and "copy" not in chosen:
        # whatever one of them learns does not change the other
        for n in range(4, -1, -1):
            y.neighbor_distance(n)
        y.bonds(3)
        case.check(same(again.answers(x), answers), "copy-not-independent", chosen)
        case.obs("independent copies")
    case.obs("copies")
    case.nontrivial(kind, chosen, used, place, case.index)


class Worker:
    """The other process; it starts with another hash seed."""

    def __init__(self):
        seed = (int(os.environ.get("PYTHONHASHSEED", "0")) + 77) % 4000000000
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([VERIF, REPO]), PYTHONHASHSEED=str(seed))
        self.process = subprocess.Popen([sys.executable, os.path.join(VERIF, "checks", "p38_worker.py")], env=env,
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, case, request, args, protocol=pickle.HIGHEST_PROTOCOL):
        data = pickle.dumps((request, args), protocol)
        try:
            self.process.stdin.write(struct.pack("<Q", len(data)) + data)
            self.process.stdin.flush()
            head = self.process.stdout.read(8)
            data = self.process.stdout.read(struct.unpack("<Q", head)[0])
        except (OSError, struct.error) as exc:
            case.fail("process-fails", "{0!r}, return code {1}".format(exc, self.process.poll()))
        status, value = pickle.loads(data)
        case.check(status == "ok", "process-fails", "{0}: {1}".format(request, value))
        return value


WORKER = []


def worker():
    if not WORKER:
        WORKER.append(Worker())
    return WORKER[0]


def sent(case):
    py = case.py
    kind = KINDS[case.index % len(KINDS)]
    seed = case.seed % (1 << 40)
    want = Recipe(kind, seed)
    answers = want.answers(want.object)
    again = Recipe(kind, seed)
    x = again.object
    used = py.choice(["fresh", "hashed", "used"])
    if used == "used":
        again.answers(x)
    if used != "fresh" and kind in KEYS:
        hash(x)
    case.note(kind=kind, used=used)
    container, mapping = ({x, "other"}, {x: 9}) if kind in KEYS else (None, None)
    res, back = worker().ask(case, "object", (kind, seed, x, container, mapping), py.choice([2, 3, 4, 5]))
    case.check(same(res["own"], answers), "process-differs", lambda: [k for k in answers if not same(res["own"][k], answers[k])])
    case.check(same(res["answers"], answers), "sent-differs", lambda: [k for k in answers if not same(res["answers"][k], answers[k])])
    case.check(same(again.answers(back), answers), "returned-differs", kind)
    if kind in KEYS:
        case.equal(res["equal"], (True, True, True), "sent-unequal", x)
        case.check(res["hash"], "sent-hash", x)
        case.equal(res["in set"], (True,) * 4, "sent-lookup", x)
        case.equal(res["in dict"], (9, 9, 5), "sent-lookup", x)
        case.equal(res["size"], (2, 1, 2), "sent-lookup", x)
        case.check(res["order"] in (None, (False, False)), "sent-order", x)
        case.check(back == want.object and hash(back) == hash(want.object) and back in {x}, "returned-differs", x)
        case.obs("lookups")
    case.obs("sent objects")
    case.obs("answers of the other process", len(answers))
    saw(case, "kinds", kind)
    case.nontrivial(kind, used, case.index)


def programs(case):
    """Whole catalogues of queries."""
    seed = case.seed % (1 << 40)
    part = PARTS[case.index % len(PARTS)]
    parts = [part, case.py.choice([p for p in PARTS if p != part])]
    case.note(parts=parts)
    answers = [(name, canon(query())) for name, query in World(seed, parts).queries]
    theirs = worker().ask(case, "world", (seed, parts))
    case.equal([n for n, _ in theirs], [n for n, _ in answers], "catalogue")
    for (name, mine), (_, other) in zip(answers, theirs):
        case.check(same(mine, other), "process-differs", lambda: "{0}: {1} != {2}".format(name, mine, other))
        case.obs("answers of the other process")
    case.nontrivial(parts, case.index)


def greens(case):
    """Green's functions of arguments that were sent away, and tables with
    dictionaries inside."""
    py = case.py
    setup = green.fermion_setup(case) if py.random() < 0.6 else green.spin_setup(case)
    ops = py.sample(setup.ops, min(2, len(setup.ops)))
    As, Bs = ops, [op.dagger() for op in ops]
    omegas = np.array([py.uniform(-2, 2) for _ in range(2)])
    states = setup.states
    lanczos = py.random() < 0.5 and all(np.linalg.norm(v) > 1e-3 for v in states.values())
    name = py.choice(["GFSolver", "RGFSolver"]) + ("Lanczos" if lanczos else "Exact") + "Multiple"
    if lanczos:
        args = HP.MultiKrylov(setup.HM, states, krylov_space_dim=py.choice([1, 3, 200]))
    else:
        args = (setup.HM, states)
    kwargs = {"eta": py.uniform(0.1, 1), "structure": py.choice(["array", "dict"])}
    case.note(name=name, ops=ops, kwargs=kwargs)
    for op in states:
        hash(op)
    call = (omegas, As, Bs, setup.GE) + tuple(args)
    mine = canon(getattr(HP, name)(*call, **kwargs))
    theirs = worker().ask(case, "greens", (name, call, kwargs))
    case.check(same(mine, theirs), "sent-differs", lambda: "{0} != {1}".format(theirs, mine))
    case.obs("green's functions")
    # a table, and new keys for it
    recipe = Recipe("IndexTable", case.seed % (1 << 40))
    for table, keys in ((recipe.table, recipe.states), (recipe.site_table, [HP.SiteID(s) for s in recipe.sites])):
        indices = [table(k) for k in keys]
        fresh = Recipe("IndexTable", case.seed % (1 << 40))
        keys = fresh.states if table is recipe.table else [HP.SiteID(s) for s in fresh.sites]
        got, size = worker().ask(case, "table", (table, keys), py.choice([2, 3, 4, 5]))
        case.equal(got, indices, "sent-lookup", "table")
        case.equal(size, len(indices), "sent-lookup", "table")
        case.obs("tables")
    case.nontrivial(name, case.index)


SECTIONS = [
    Section("copies", copies, 900, 30000),
    Section("sent", sent, 300, 8000),
    Section("programs", programs, 24, 600),
    Section("greens", greens, 40, 1500),
]
