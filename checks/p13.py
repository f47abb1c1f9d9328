"""P13: index tables."""
from fractions import Fraction

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, IndexTable, NumberOperator, SiteID, SpinOperator, StateID

from vlib import gen
from vlib import history as past
from vlib.harness import Section

PID = "P13"
RULE = ("tables of 1..60 distinct objects (numbers, strings, tuples, sites, states, operators) given as list, tuple, "
        "generator, set, dict or array with starts from -100 to 2**70; all indices and objects queried both ways, "
        "duplicates and foreign types planted at every position; non-trivial from two objects on")
MUST = {"lookups": 6000, "duplicates planted": 300, "foreign objects planted": 300, "unknown keys": 1500}
KINDS = ("int", "str", "tuple", "frozenset", "site", "state", "aoc", "number", "spin", "float", "same hash")


class Key:
    """An object of the user; many different ones share a hash value."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Key) and self.name == other.name

    def __hash__(self):
        return self.name % 3

    def __repr__(self):
        return "Key({0})".format(self.name)


def objects(py, kind, n):
    if kind == "same hash":
        if n > 6 or py.random() < 0.3:
            return [Key(k) for k in py.sample(range(1000), n)]
        # integers whose hash values coincide
        pool = py.choice([[-1, -2, 0, 2 ** 61 - 1, 1, 2 ** 61], [(-1,), (-2,), (0, 0), (0, 2 ** 61 - 1), (3, -1), (3, -2)]])
        return py.sample(pool, n)
    if kind == "int":
        return py.sample(range(-1000, 1000), n)
    if kind == "float":
        return [x / 8 for x in py.sample(range(-1000, 1000), n)]
    if kind == "str":
        return ["s{0}".format(k) for k in py.sample(range(1000), n)]
    if kind == "tuple":
        return [(k % 7, k // 7) for k in py.sample(range(1000), n)]
    if kind == "frozenset":
        return [frozenset((k, k + 1, -k)) for k in py.sample(range(1, 1000), n)]
    labels = gen.state_labels(py, n)
    if kind == "state":
        return [StateID(s, spin=p, orbit=o) for s, p, o in labels]
    if kind == "aoc":
        return [AoC(py.choice([HP.CREATION, HP.ANNIHILATION]), s, spin=p, orbit=o) for s, p, o in labels]
    if kind == "number":
        return [NumberOperator(s, spin=p, orbit=o) for s, p, o in labels]
    sites = gen.distinct_sites(py, n)
    if kind == "site":
        return [SiteID(s) for s in sites]
    return [SpinOperator(py.choice("xyzpm"), s) for s in sites]


def twin(py, obj):
    """An equal object that is not the same object."""
    if isinstance(obj, StateID):
        return StateID(np.array(obj.coordinate, dtype=float), spin=obj.spin, orbit=obj.orbit)
    if isinstance(obj, SiteID):
        return SiteID([float(c) + 1e-13 * (1 if c >= 0 else -1) for c in obj.coordinate])
    if isinstance(obj, AoC):
        return AoC(obj.otype, list(obj.coordinate), spin=obj.spin, orbit=obj.orbit)
    if isinstance(obj, NumberOperator):
        return NumberOperator(list(obj.coordinate), spin=obj.spin, orbit=obj.orbit)
    if isinstance(obj, SpinOperator):
        return SpinOperator(obj.otype, list(obj.coordinate))
    if isinstance(obj, Key):
        return Key(obj.name)
    return obj


def feed(py, objs):
    kind = py.randrange(5)
    if kind == 0:
        return list(objs)
    if kind == 1:
        return tuple(objs)
    if kind == 2:
        return (o for o in objs)
    if kind == 3:
        return dict.fromkeys(objs)
    return iter(objs)


def foreign(py, kind):
    pool = {"int": 3.5, "str": "foreign", "tuple": (99, 99, 99), "site": SiteID((77,)), "aoc": AoC(1, (77,)),
            "spin": SpinOperator("x", (77,)), "number": NumberOperator((77,)), "none": None,
            "frozenset": frozenset((5000,)), "bytes": b"x"}
    if kind == "same hash":
        pool.pop("tuple")
    if kind in ("int", "float", "same hash"):
        pool.pop("int")
    if kind == "state":
        # SiteID is the base class, so it is foreign for states
        pass
    if kind == "site":
        pool.pop("site")
    pool.pop(kind, None)
    return py.choice(list(pool.values()))


def bijection(case):
    py = case.py
    kind = KINDS[case.index % len(KINDS)]
    n = py.choice([1, 1, 2, 3, 5, 8, 20, 60])
    start = py.choice([0, 0, 1, -1, 5, -100, 2 ** 31, 2 ** 63, 2 ** 70])
    objs = objects(py, kind, n)
    table = IndexTable(feed(py, objs), start=start) if (start or py.random() < 0.5) else IndexTable(feed(py, objs))
    case.note(kind=kind, n=n, start=start)
    if n > 1:
        case.nontrivial(kind, n, start, case.index)
    for round_ in range(2):
        case.equal(len(table), n, "length")
        case.check(table.object_type is type(objs[0]), "object-type")
        case.equal(list(table.indices()), list(range(start, start + n)), "indices")
        seen = list(table.objects())
        case.check(len(seen) == n and all(a is b or a == b for a, b in zip(seen, objs)), "objects", seen)
        pairs = list(table)
        case.equal([i for i, _ in pairs], list(range(start, start + n)), "iteration")
        case.check(all(a == b for (_, a), b in zip(pairs, objs)), "iteration-objects", pairs)
        order = list(range(n))
        py.shuffle(order)
        for k in order:
            key = twin(py, objs[k])
            case.equal(table(key), start + k, "lookup", key)
            case.equal(table.query_index(objs[k]), start + k, "lookup", objs[k])
            got = table.query_object(start + k)
            case.check(got == objs[k] and type(got) is type(objs[k]), "reverse-lookup", (k, got))
            case.equal(table(table.query_object(start + k)), start + k, "inverse")
            if hasattr(objs[k], "getIndex"):
                case.equal(objs[k].getIndex(table), start + k, "getIndex")
            case.obs("lookups")
        text = str(table).splitlines()
        if not any("\n" in repr(o) for o in objs):
            case.check(len(text) >= n and all(repr(o) in line for o, line in zip(objs, text[-n:])), "text")
        for bad in (start - 1, start + n, start + n + 5, -start - n - 7 if start >= 0 else 10 ** 6):
            if start <= bad < start + n:
                continue
            case.raises(KeyError, lambda: table.query_object(bad), "unknown-index", bad)
            case.obs("unknown keys")
        for bad in ("0", None, float(start), (start,), 0.5):
            case.raises((TypeError, KeyError), lambda: table.query_object(bad), "index-type", bad)
            case.obs("unknown keys")
        # an unknown key of the right type
        for _ in range(20):
            new = objects(py, kind, 1)[0]
            if isinstance(new, type(objs[0])) and all(not new == o for o in objs) and not (
                    kind in ("site", "state", "aoc", "number", "spin") and any(
                        len(new.coordinate) == len(o.coordinate) and
                        all(abs(a - b) < 5e-4 for a, b in zip(new.coordinate, o.coordinate)) for o in objs)):
                case.raises(KeyError, lambda: table(new), "unknown-key", new)
                case.raises(KeyError, lambda: table.query_index(new), "unknown-key", new)
                case.obs("unknown keys")
                break
        for _ in range(3):
            bad = foreign(py, kind)
            case.raises((TypeError, KeyError), lambda: table(bad), "key-type", bad)
            case.obs("unknown keys")
        case.raises((TypeError, KeyError), lambda: table([]), "unhashable")
        # equal numbers of another type are no objects of the table
        if kind in ("int", "float"):
            for o in py.sample(objs, min(n, 3)):
                for make in (float, np.int64, Fraction, complex) if kind == "int" else (np.float32, Fraction, complex):
                    bad = make(o)
                    case.raises((TypeError, KeyError), lambda: table(bad), "equal-key-type", bad)
                    case.raises((TypeError, KeyError), lambda: table.query_index(bad), "equal-key-type", bad)
                    case.obs("unknown keys")


def independent(case):
    """Tables do not influence each other or their source."""
    py = case.py
    kind = py.choice(KINDS)
    objs = objects(py, kind, py.randrange(2, 12))
    source = list(objs)
    first = IndexTable(source)
    other = list(objs)
    py.shuffle(other)
    start = py.randrange(1, 50)
    second = IndexTable(other, start=start)
    source.append(objs[0])
    source[0] = objs[-1]
    source.reverse()
    del source[1:]
    for k, o in enumerate(objs):
        case.equal(first(o), k, "first", o)
        case.equal(second(o), start + other.index(o), "second", o)
        case.obs("lookups", 2)
    case.equal(len(first), len(objs), "length")
    if kind in ("site", "state"):
        # the answer depends on the table, not on the object
        o = py.choice(objs)
        case.equal([o.getIndex(first), o.getIndex(second), o.getIndex(first)],
                   [objs.index(o), start + other.index(o), objs.index(o)], "getIndex-tables")
    if kind in ("aoc", "number"):
        states = []
        for o in objs:
            s = StateID(o.coordinate, o.spin, o.orbit)
            if s not in states:
                states.append(s)
        t1, t2 = IndexTable(states), IndexTable(states[::-1], start=3)
        for o in objs:
            k = states.index(StateID(o.coordinate, o.spin, o.orbit))
            case.equal((o.getStateIndex(t1), o.getStateIndex(t2), o.getStateIndex(t1)),
                       (k, 3 + len(states) - 1 - k, k), "getStateIndex", o)
            case.obs("lookups")
    if kind == "spin":
        sites = [SiteID(o.coordinate) for o in objs]
        t1, t2 = IndexTable(sites), IndexTable(sites[::-1], start=3)
        for k, o in enumerate(objs):
            case.equal((o.getSiteIndex(t1), o.getSiteIndex(t2), o.getSiteIndex(t1)),
                       (k, 3 + len(sites) - 1 - k, k), "getSiteIndex", o)
            case.obs("lookups")
    case.nontrivial(kind, case.index)


def rejected(case):
    py = case.py
    kind = KINDS[case.index % len(KINDS)]
    n = py.randrange(1, 9)
    objs = objects(py, kind, n)
    start = py.choice([0, 0, 1, -n, -1, 7])
    case.note(kind=kind, objs=objs, start=start)
    for k in range(n):
        for pos in range(n + 1):
            bad = list(objs)
            bad.insert(pos, twin(py, objs[k]))
            case.raises(ValueError, lambda: IndexTable(iter(bad), start=start), "duplicate", (k, pos))
            case.obs("duplicates planted")
    for pos in range(n + 1):
        other = foreign(py, kind)
        bad = list(objs)
        bad.insert(pos, other)
        if pos == 0 and isinstance(objs[0], type(other)):
            # subclass instances belong to the type of the first object
            continue
        case.raises(TypeError, lambda: IndexTable(iter(bad), start=start), "foreign", (pos, other))
        case.obs("foreign objects planted")
    # still usable
    table = IndexTable(objs, start=start)
    case.equal([table(o) for o in objs], list(range(start, start + n)), "after-rejection")
    case.nontrivial(kind, n, start, case.index)


SECTIONS = [
    past.section(past.table, quick=14, thorough=280),
    Section("bijection", bijection, 250, 10000),
    Section("independent", independent, 100, 4000),
    Section("rejected", rejected, 120, 5000),
]
