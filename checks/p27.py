"""P27: no modification, no aliasing, no dependence on history."""
import numpy as np
import scipy.sparse as sp

from vlib import history, world
from vlib.harness import Section
from vlib.world import PARTS, World, abuse, canon, library_constants, same

PID = "P27"
RULE = ("two worlds from one recipe: the first answers every query of the catalogue once in order; in the second the "
        "constructor arguments are overwritten after construction and the queries run in random order, repeatedly and "
        "interleaved, while every returned array, list and dictionary is overwritten; after every call the arguments and "
        "the answer are compared; non-trivial when answers were compared after results had been overwritten")
MUST = {"queries": 8000, "results overwritten": 5000, "arguments compared": 8000, "constructor arguments overwritten": 300,
        "kinds of queries": 60, "answers after a history": 5000, "coefficients set": 60, "requests repeated": 1000, "objects changed": 500}


def scramble(value, depth=0):
    """Overwrite a constructor argument the caller still owns."""
    if isinstance(value, np.ndarray):
        if value.flags.writeable and value.size:
            value[...] = value * 3 + 1
            return 1
        if isinstance(value.base, np.ndarray) and value.base.flags.writeable and value.size:
            # a read-only view of an array of the caller
            value.base[...] = value.base * 3 + 1
            return 1
        return 0
    if isinstance(value, list):
        n = sum(scramble(v, depth + 1) for v in value if isinstance(v, (list, np.ndarray)))
        value.reverse()
        if value:
            value.append(value[0])
        if depth == 0 and len(value) > 2:
            value.pop(1)
        return n + 1
    return 0


def run(case):
    py = case.py
    parts = py.sample(PARTS, py.randrange(2, 5))
    style = py.choice(["plain", "plain", "readonly"])
    seed = case.seed % (1 << 40)
    case.note(parts=parts, style=style)
    constants = {k: v.copy() for k, v in library_constants().items()}
    first = World(seed, parts, style)
    answers = []
    for name, query in first.queries:
        answers.append(canon(query()))
    built = {k: canon(v) for k, v in first.built.items()}
    # constructors and queries leave their arguments alone
    second = World(seed, parts, style)
    for key, value in second.built.items():
        case.check(same(canon(value), built[key]), "constructor-modified", key)
    for key, value in second.built.items():
        case.obs("constructor arguments overwritten", scramble(value))
    inputs = {k: canon(v) for k, v in second.inputs.items()}
    for k, v in first.inputs.items():
        case.check(same(canon(v), inputs[k], 0.0), "query-modified", k)
    number = len(second.queries)
    case.equal([n for n, _ in second.queries], [n for n, _ in first.queries], "catalogue")
    order = list(range(number)) + [py.randrange(number) for _ in range(number // 2)]
    py.shuffle(order)
    overwritten = 0
    for step, k in enumerate(order):
        name, query = second.queries[k]
        result = query()
        got = canon(result)
        case.check(same(got, answers[k]), "answer-" + name, lambda: "after {0} calls, {1}: {2} != {3}".format(
            step, [second.queries[i][0] for i in order[max(0, step - 4):step]], got, answers[k]))
        for key, value in second.inputs.items():
            case.run.oracle_calls += 1
            if not same(canon(value), inputs[key], 0.0):
                case.fail("query-modified", "{0} changed {1}".format(name, key))
        case.obs("arguments compared", len(inputs))
        if name not in ("constants", "rotation constants", "published"):
            n = abuse_result(result)
            overwritten += n
            case.obs("results overwritten", n)
        case.obs("queries")
        kinds.add(name)
        for key, value in second.inputs.items():
            if not same(canon(value), inputs[key], 0.0):
                case.fail("result-aliases-argument", "{0}: {1}".format(name, key))
    for k, v in library_constants().items():
        case.check(np.array_equal(v, constants[k]), "constant-changed", k)
    case.run.observed["kinds of queries"] = len(kinds)
    if overwritten:
        case.nontrivial(tuple(sorted(parts)), style, case.index)


kinds = set()


def abuse_result(result):
    """Overwrite the returned containers; objects of the library are used
    through their own accessors only."""
    n = abuse(result)
    return n


def edit(value):
    """Change an argument in place; twice gives the original."""
    if isinstance(value, np.ndarray):
        turned = np.flip(value).copy()
        if value.dtype.kind in "fc" and np.array_equal(turned, value):
            turned = -value
        value[...] = turned
    elif sp.issparse(value):
        value.data[...] = -value.data
    elif isinstance(value, dict):
        for v in value.values():
            edit(v)
    elif isinstance(value, list):
        if value and all(isinstance(v, np.ndarray) for v in value):
            for v in value:
                edit(v)
        else:
            value.reverse()


def outcome(query):
    try:
        return canon(query())
    except Exception as err:
        return "raised", type(err).__name__


def reuse(case):
    """The same containers and arrays, filled with other values."""
    py = case.py
    parts = py.sample(PARTS, py.randrange(2, 5))
    seed = case.seed % (1 << 40)
    case.note(parts=parts)
    worlds = [World(seed, parts) for _ in range(3)]
    used, plain, edited = worlds
    for value in edited.inputs.values():
        edit(value)
    want = [[outcome(q) for _, q in plain.queries], [outcome(q) for _, q in edited.queries]]
    order = list(range(len(used.queries)))
    py.shuffle(order)
    changed = 0
    for k in order:
        name, query = used.queries[k]
        for state in (0, 1, 0):
            got = outcome(query)
            case.check(same(got, want[state][k]), "stale-" + name, lambda: "the arguments were changed in place: {0} != {1}".format(
                got, want[state][k]))
            if state != 0 or got is None:
                changed += not same(want[0][k], want[1][k])
            for value in used.inputs.values():
                edit(value)
        # three edits leave the second state
        for value in used.inputs.values():
            edit(value)
        case.obs("queries of reused arguments")
    case.obs("answers changed with the arguments", changed)
    if changed:
        case.nontrivial("reuse", tuple(sorted(parts)), case.index)


def histories(case):
    history.past(case, history.KINDS[case.index % len(history.KINDS)])


SECTIONS = [
    Section("histories", histories, 140, 3000),
    Section("factories", history.independent, 25, 500),
    Section("run", run, 160, 3000),
    Section("reuse", reuse, 100, 2000),
]
