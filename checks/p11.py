"""P11: identity, hash and order of sites, states and operators."""
import itertools
import operator

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, NumberOperator, SiteID, SpinOperator, StateID
from HamiltonianPy.quantumoperator import quantumstate

from vlib import gen
from vlib import history as past
from vlib.harness import Section

PID = "P11"
RULE = ("pools of identifiers with deliberately close coordinates (one to three units of the configured precision, "
        "float noise, all container and number types, 0-8 digits) are compared in all pairs and triples with a "
        "fixed-point model; non-trivial when a pool contains both equal and different members")
ASSUMPTIONS = [
    "coordinates are grid values of the configured precision plus noise below 1e-4 of its unit, or lie strictly "
    "inside one interval of kept digits; numbers on both sides of a truncation or rounding boundary are not judged",
]
MUST = {"pairs compared": 20000, "triples compared": 20000, "equal pairs": 1500, "derived objects": 1000,
        "precisions": 100, "sorted lists": 200, "layouts compared": 8000}


class Label:
    """What is known about one identifier: integer grid coordinates and tags."""

    def __init__(self, kind, grid, tags):
        self.kind = kind
        self.grid = tuple(grid)
        self.tags = tuple(tags)

    @property
    def key(self):
        return (self.kind, self.grid, self.tags)


def spell(py, g, digits):
    """A float (or other number) that means the grid value g * 10**-digits."""
    unit = 10.0 ** -digits
    base = g / 10 ** digits
    kind = py.randrange(7)
    if kind == 0:
        return base
    if kind == 1:
        return np.float64(base)
    if kind == 2:
        return float(g) * unit
    if kind == 3:
        # accumulated round-off
        return base + py.choice([-1, 1]) * min(4e-16 * max(1.0, abs(base)) * py.randrange(1, 5), 1e-5 * unit)
    if kind == 4 and g % (10 ** digits) == 0:
        return py.choice([int, float, np.int64, np.int32])(g // 10 ** digits)
    if kind == 5:
        return (base * 3 + 7) / 3 - 7 / 3 if digits <= 6 else base
    # digits beyond the kept ones (inside the interval for truncation and for
    # rounding; away from zero)
    if g != 0:
        return base + (1 if g > 0 else -1) * unit * py.choice([0.1, 0.25, 0.4])
    return base


def container(py, coords):
    kind = py.randrange(5)
    if kind == 0:
        return tuple(coords)
    if kind == 1:
        return list(coords)
    if kind == 2:
        return np.array([float(c) for c in coords])
    if kind == 3:
        return np.array([[float(c), -1.0] for c in coords])[:, 0]
    return tuple(coords)


def build(py, label, digits):
    site = container(py, [spell(py, g, digits) for g in label.grid])
    t = label.tags
    if label.kind == "site":
        return SiteID(site)
    if label.kind == "state":
        return StateID(site, spin=t[0], orbit=t[1])
    if label.kind == "aoc":
        return AoC(t[2], site, spin=t[0], orbit=t[1])
    if label.kind == "number":
        return NumberOperator(site, spin=t[0], orbit=t[1])
    return SpinOperator(t[0], site)


def random_label(py, kind, digits, dim=None):
    dim = dim or py.choice([1, 2, 3])
    big = 10 ** digits
    grid = []
    for _ in range(dim):
        grid.append(py.choice([
            0, 1, -1, 2, py.randrange(-5, 6) * big, py.randrange(-12, 13) * (big // 4 or 1),
            py.randrange(-3 * big - 9, 3 * big + 10), big // 3, -(2 * big) // 3, 10 * big + 1,
            py.choice([-1, 1]) * py.randrange(2 ** 31, 2 ** 34) if digits >= 2 else 5,
        ]))
    if kind == "site":
        tags = ()
    elif kind in ("state", "number"):
        tags = (py.randrange(3), py.randrange(3))
    elif kind == "aoc":
        tags = (py.randrange(3), py.randrange(3), py.choice([HP.CREATION, HP.ANNIHILATION]))
    else:
        tags = (py.choice("xyzpm"),)
    return Label(kind, grid, tags)


def neighbour(py, label, digits=4):
    """A label that differs in exactly one respect."""
    grid, tags = list(label.grid), list(label.tags)
    what = py.randrange(4)
    if what == 0 or (what in (1, 2) and not tags):
        k = py.randrange(len(grid))
        # two units at least: neighbouring units on both sides of zero may share
        # their kept digits when the sign is dropped by truncation
        grid[k] += py.choice([-5, -3, -2, 2, 3, 7, 10, 100] * 2 + ([2 ** 16, 2 ** 31, -2 ** 32] if digits >= 2 else []))
    elif what == 1 or what == 2:
        k = py.randrange(len(tags))
        if isinstance(tags[k], str):
            tags[k] = py.choice([t for t in "xyzpm" if t != tags[k]])
        elif label.kind == "aoc" and k == 2:
            tags[k] = 1 - tags[k]
        else:
            tags[k] = (tags[k] + py.choice([1, 2])) % 3
    else:
        if len(grid) == 1:
            grid.append(0)
        elif len(grid) == 3:
            grid.pop()
        else:
            grid = grid + [0] if py.random() < 0.5 else grid[:1]
    return Label(label.kind, grid, tags)


def far_enough(a, b):
    """Labels whose identity the precision leaves no doubt about."""
    if a.tags != b.tags or len(a.grid) != len(b.grid) or a.grid == b.grid:
        return True
    return any(abs(x - y) >= 2 for x, y in zip(a.grid, b.grid))


KINDS = ("site", "state", "aoc", "number", "spin")


def pool(case, kind, digits, size):
    py = case.py
    labels = [random_label(py, kind, digits)]
    while len(labels) < size:
        old = py.choice(labels)
        r = py.random()
        new = old if r < 0.3 else neighbour(py, old, digits) if r < 0.8 else random_label(py, kind, digits)
        if all(far_enough(new, l) for l in labels):
            labels.append(new)
    py.shuffle(labels)
    return labels, [build(py, l, digits) for l in labels]


def compare(case, labels, objs, digits):
    n = len(labels)
    lt = {}
    for i, j in itertools.product(range(n), repeat=2):
        a, b = objs[i], objs[j]
        same = labels[i].key == labels[j].key
        what = "{0!r} and {1!r} at {2} digits".format(a, b, digits)
        case.equal(a == b, same, "equality", what)
        case.equal(a != b, not same, "inequality", what)
        if same:
            case.equal(hash(a), hash(b), "hash", what)
            case.obs("equal pairs")
        less, more = a < b, a > b
        for v in (less, more):
            case.check(isinstance(v, (bool, np.bool_)), "boolean", what)
        case.equal(int(less) + int(more) + int(same), 1, "trichotomy", what)
        case.equal(a <= b, less or same, "less-equal", what)
        case.equal(a >= b, more or same, "greater-equal", what)
        lt[i, j] = bool(less)
        case.obs("pairs compared")
    for i, j in itertools.combinations(range(n), 2):
        case.equal(lt[i, j], objs[j] > objs[i], "mirror", (i, j))
    for i, j, k in itertools.product(range(n), repeat=3):
        if lt[i, j] and lt[j, k]:
            case.check(lt[i, k], "transitivity", lambda: "{0!r} < {1!r} < {2!r}".format(objs[i], objs[j], objs[k]))
        case.obs("triples compared")
    distinct = len({l.key for l in labels})
    case.equal(len(set(objs)), distinct, "set-size", digits)
    case.equal(len(dict.fromkeys(objs)), distinct, "dict-size", digits)
    if distinct < n and distinct > 1:
        case.nontrivial(digits, tuple(l.key for l in labels))
    # sorting is reproducible from any initial order
    want = sorted(objs)
    again = list(objs)
    case.py.shuffle(again)
    case.check(all(a == b for a, b in zip(sorted(again), want)), "sorting", digits)
    case.check(all(not (b < a) for a, b in zip(want, want[1:])), "sorted", digits)
    case.obs("sorted lists")
    return lt


def identity(case):
    kind = KINDS[case.index % 5]
    labels, objs = pool(case, kind, 4, 11)
    case.note(kind=kind, objs=objs)
    lt = compare(case, labels, objs, 4)
    if kind == "aoc":
        # the documented order: creations first and ascending, annihilations descending
        for i, j in itertools.product(range(len(objs)), repeat=2):
            a, b = objs[i], objs[j]
            if a.otype != b.otype:
                want = a.otype == HP.CREATION
            elif a.otype == HP.CREATION:
                want = a.state < b.state
            else:
                want = a.state > b.state
            case.equal(lt[i, j], bool(want), "documented-order", (a, b))


def precision(case):
    py = case.py
    kind = py.choice(KINDS)
    digits = py.choice([0, 1, 2, 3, 5, 6, 7, 8])
    quantumstate.set_float_point_precision(*[digits][case.index % 2:], **{"precision": digits for _ in range(case.index % 2)})
    try:
        labels, objs = pool(case, kind, digits, 8)
        case.note(kind=kind, digits=digits, objs=objs)
        compare(case, labels, objs, digits)
        case.obs("precisions")
    finally:
        # the default is four digits
        quantumstate.set_float_point_precision(*case.py.choice([(), (4,)]))
    # back to the default
    labels, objs = pool(case, kind, 4, 5)
    compare(case, labels, objs, 4)


def attributes(py, obj, kind):
    if kind == "site":
        return (obj.coordinate,)
    if kind == "state":
        return (obj.coordinate, obj.spin, obj.orbit)
    if kind == "aoc":
        return (obj.coordinate, obj.spin, obj.orbit, obj.otype)
    if kind == "number":
        return (obj.coordinate, obj.spin, obj.orbit)
    return (obj.coordinate, obj.otype)


def derived(case):
    py = case.py
    kind = KINDS[case.index % 5]
    label = random_label(py, kind, 4)
    coords = tuple(spell(py, g, 4) for g in label.grid)
    t = label.tags

    def make(coords, tags):
        if kind == "site":
            return SiteID(coords)
        if kind == "state":
            return StateID(coords, spin=tags[0], orbit=tags[1])
        if kind == "aoc":
            return AoC(tags[2], coords, spin=tags[0], orbit=tags[1])
        if kind == "number":
            return NumberOperator(coords, spin=tags[0], orbit=tags[1])
        return SpinOperator(tags[0], coords)

    obj = make(coords, t)
    before = (attributes(py, obj, kind), hash(obj), repr(obj))
    case.note(kind=kind, obj=obj)
    # attributes are those given
    case.equal(tuple(obj.coordinate), coords, "coordinate")
    case.equal(tuple(np.asarray(obj.site, dtype=float)), tuple(float(c) for c in coords), "site")
    if kind in ("state", "aoc", "number"):
        case.equal((obj.spin, obj.orbit), t[:2], "spin-orbit")
        if kind != "state":
            case.check(obj.state == StateID(coords, spin=t[0], orbit=t[1]), "state", obj)
    if kind == "aoc":
        case.equal(obj.otype, t[2], "otype")
    if kind == "spin":
        case.equal(obj.otype, t[0], "otype")
        case.check(obj.site_id == SiteID(coords), "site-id", obj)
    if kind in ("aoc", "number", "spin"):
        other_dim = py.choice([1, 2, 3])
        new_coords = tuple(float(py.randrange(-5, 6)) + 20 for _ in range(other_dim))
        options = {"site": new_coords}
        if kind != "spin":
            options.update(spin=py.randrange(5), orbit=py.randrange(5))
        if kind == "aoc":
            options["otype"] = py.choice([HP.CREATION, HP.ANNIHILATION])
        if kind == "spin":
            options["otype"] = py.choice("xyzpm")
        for mask in range(1 << len(options)):
            chosen = {k: v for b, (k, v) in enumerate(options.items()) if (mask >> b) & 1}
            res = obj.derive(**chosen)
            case.check(type(res) is type(obj), "derived-type", chosen)
            for name in ("otype", "spin", "orbit"):
                if hasattr(obj, name):
                    case.equal(getattr(res, name), chosen.get(name, getattr(obj, name)), "derived-" + name, chosen)
            case.equal(tuple(res.coordinate), tuple(chosen.get("site", obj.coordinate)), "derived-site", chosen)
            unchanged = all(
                (tuple(v) == tuple(coords)) if k == "site" else v == getattr(obj, k) for k, v in chosen.items())
            case.equal(res == obj, unchanged, "derived-equality", chosen)
            if unchanged:
                case.equal(hash(res), hash(obj), "derived-hash", chosen)
            case.obs("derived objects")
        dag = obj.dagger()
        case.check(type(dag) is type(obj), "adjoint-type")
        want_type = None
        if kind == "aoc":
            want_type = HP.ANNIHILATION if t[2] == HP.CREATION else HP.CREATION
        elif kind == "spin":
            want_type = {"p": "m", "m": "p"}.get(t[0], t[0])
        if want_type is not None:
            case.equal(dag.otype, want_type, "adjoint-otype")
        if kind != "spin":
            case.equal((dag.spin, dag.orbit), (obj.spin, obj.orbit), "adjoint-labels")
        case.equal(tuple(dag.coordinate), tuple(obj.coordinate), "adjoint-site")
        case.check(dag.dagger() == obj and hash(dag.dagger()) == hash(obj), "adjoint-twice")
        # relations with another operator
        for _ in range(6):
            if py.random() < 0.4:
                lab2 = label
            else:
                lab2 = neighbour(py, label)
            if not far_enough(lab2, label):
                continue
            obj2 = build(py, lab2, 4)
            same_grid = lab2.grid == label.grid
            if kind == "aoc":
                same_state = same_grid and lab2.tags[:2] == label.tags[:2]
                case.equal(obj.same_state(obj2), same_state, "same-state", (obj, obj2))
                case.equal(obj.conjugate_of(obj2), same_state and lab2.tags[2] != label.tags[2],
                           "conjugate", (obj, obj2))
                case.equal(obj.conjugate_of(obj2), obj == obj2.dagger(), "conjugate-adjoint", (obj, obj2))
            elif kind == "spin":
                case.equal(obj.same_site(obj2), same_grid, "same-site", (obj, obj2))
                case.equal(obj.conjugate_of(obj2), same_grid and
                           {"p": "m", "m": "p"}.get(t[0], t[0]) == lab2.tags[0], "conjugate", (obj, obj2))
            case.obs("pairs compared")
        if kind in ("aoc", "spin"):
            for bad in (None, 3, "x", SiteID((0,))):
                case.raises(TypeError, lambda: obj.conjugate_of(bad), "foreign", bad)
                case.raises(TypeError, lambda: getattr(obj, "same_state" if kind == "aoc" else "same_site")(bad), "foreign", bad)
        case.nontrivial(kind, label.key)
    # nothing above changed the object
    case.equal((attributes(py, obj, kind), hash(obj), repr(obj)), before, "unchanged")
    # foreign objects are different, not comparable
    for other in (None, 0, "x", coords, object()):
        case.check((obj == other) is False, "foreign-equality", other)
        case.check((obj != other) is True, "foreign-equality", other)
        for compare in (operator.lt, operator.gt, operator.le, operator.ge):
            case.raises(TypeError, lambda: compare(obj, other), "foreign-order", other)
            case.raises(TypeError, lambda: compare(other, obj), "foreign-order", other)


def cross(case):
    """Objects of different classes are never confused as keys."""
    py = case.py
    coords = tuple(spell(py, py.randrange(-30000, 30000), 4) for _ in range(py.choice([1, 2, 3])))
    objs = [SiteID(coords), StateID(coords), AoC(HP.CREATION, coords), AoC(HP.ANNIHILATION, coords),
            NumberOperator(coords)] + [SpinOperator(a, coords) for a in "xyzpm"]
    for i, j in itertools.combinations(range(len(objs)), 2):
        case.check(not objs[i] == objs[j], "class-confusion", (objs[i], objs[j]))
        case.check(objs[i] != objs[j], "class-confusion", (objs[i], objs[j]))
        case.obs("pairs compared")
    case.equal(len(set(objs)), len(objs), "class-confusion", objs)
    # the same numbers distributed differently over coordinates, spin and orbit
    unit = 10.0 ** -4
    k = py.choice([1, 1, 1, 2])
    head = tuple(py.choice([0, 1, 2, 0.5, -0.25, py.randrange(-9, 10)]) for _ in range(k))
    spin, orbit, flag = py.randrange(3), py.randrange(3), py.randrange(2)
    small = lambda n: py.choice([n * unit, np.float64(n / 10 ** 4)])    # noqa: E731
    objs = [StateID(head, spin=spin, orbit=orbit), SiteID(head), AoC(flag, head, spin=spin, orbit=orbit),
            NumberOperator(head, spin=spin, orbit=orbit)] + [SpinOperator(a, head) for a in "xyzpm"]
    tails = [(spin,), (orbit,), (flag,), (spin, orbit), (orbit, spin), (flag, spin)]
    for tail in tails:
        for site in (head + tuple(small(n) for n in tail), tuple(small(n) for n in tail) + head):
            if len(site) > 3:
                continue
            objs += [SiteID(site), AoC(flag, site, spin=spin, orbit=orbit), StateID(site, spin=spin, orbit=orbit),
                     NumberOperator(site, spin=orbit, orbit=spin), SpinOperator(py.choice("xyzpm"), site)]
    key = lambda o: (type(o).__name__, tuple(round(float(x) * 10 ** 4) for x in o.site),      # noqa: E731
                     getattr(o, "spin", None), getattr(o, "orbit", None), getattr(o, "otype", None))
    keys = [key(o) for o in objs]
    for i, j in itertools.product(range(len(objs)), repeat=2):
        same = keys[i] == keys[j]
        case.check((objs[i] == objs[j]) is same, "layout-confusion", lambda: (objs[i], objs[j]))
        case.check((objs[i] != objs[j]) is (not same), "layout-confusion", lambda: (objs[i], objs[j]))
        case.obs("layouts compared")
    case.equal(len(set(objs)), len(set(keys)), "layout-confusion", "set")
    case.nontrivial(coords)


def refused(case):
    py = case.py
    for bad in ((), (1, 2, 3, 4), ("a",), (1j,), (None, 0)):
        case.raises((AssertionError, TypeError, ValueError), lambda: SiteID(bad), "site", bad)
        case.raises((AssertionError, TypeError, ValueError), lambda: SpinOperator("x", bad), "site", bad)
        case.raises((AssertionError, TypeError, ValueError), lambda: AoC(HP.CREATION, bad), "site", bad)
    for bad in (-1, 0.5, "0", None, 1j):
        case.raises((AssertionError, TypeError, ValueError), lambda: StateID((0,), spin=bad), "spin", bad)
        case.raises((AssertionError, TypeError, ValueError), lambda: StateID((0,), orbit=bad), "orbit", bad)
        case.raises((AssertionError, TypeError, ValueError), lambda: NumberOperator((0,), spin=bad), "spin", bad)
        case.raises((AssertionError, TypeError, ValueError), lambda: AoC(HP.CREATION, (0,), orbit=bad), "orbit", bad)
    for bad in (2, -1, "c", None):
        case.raises((AssertionError, TypeError, ValueError), lambda: AoC(bad, (0,)), "otype", bad)
        case.raises((AssertionError, TypeError, ValueError), lambda: SpinOperator(bad, (0,)), "otype", bad)
    for bad in (-1, 1.5, None):
        case.raises((AssertionError, TypeError, ValueError),
                    lambda: quantumstate.set_float_point_precision(bad), "precision", bad)
    case.check(SiteID((0.12,)) != SiteID((0.1203,)), "precision-after-refusal")
    case.check(SiteID((0.12,)) == SiteID((0.1200000001,)), "precision-after-refusal")


SECTIONS = [
    past.section(past.operator, past.spin_operator, quick=28, thorough=560),
    Section("identity", identity, 150, 6000),
    Section("precision", precision, 110, 3000),
    Section("derived", derived, 250, 8000),
    Section("cross", cross, 30, 500),
    Section("refused", refused, 1, 1, fixed=True),
]
