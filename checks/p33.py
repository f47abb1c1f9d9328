"""P33: printed forms."""
import contextlib
import doctest
import importlib
import io
import itertools
import re

import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import (AoC, Bond, IndexTable, Lattice, Line2D, NumberOperator, ParticleTerm, SiteID, SpinInteraction,
                           SpinOperator, StateID)
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace

from vlib import gen
from vlib import history as past
from vlib.harness import Section
from vlib.world import PARTS, World

PID = "P33"
RULE = ("random objects of every printable kind; the official form is evaluated and compared with the object (equality, "
        "hash, coordinates, bases), all pairs of different objects print differently, and LaTeX and descriptive forms "
        "are parsed and compared with the data; non-trivial when an object was rebuilt from its printed form or a form "
        "was parsed")
MUST = {"rebuilt": 3000, "pairs printed": 4000, "latex parsed": 3000, "terms parsed": 400, "lines of tables": 800,
        "descriptions": 500, "documented examples": 300,
        "long terms": 30, "long tables": 6, "many states": 5}

NAMESPACE = {"SiteID": SiteID, "StateID": StateID, "AoC": AoC, "NumberOperator": NumberOperator, "SpinOperator": SpinOperator,
             "Bond": Bond, "Line2D": Line2D, "HilbertSpace": HilbertSpace, "SimpleHilbertSpace": SimpleHilbertSpace,
             "CREATION": HP.CREATION, "ANNIHILATION": HP.ANNIHILATION, "array": np.array, "np": np, "inf": np.inf}


def rebuild(case, obj):
    text = repr(obj)
    case.equal(repr(obj), text, "repr-changes")
    try:
        new = eval(text, dict(NAMESPACE))
    except Exception as exc:
        case.fail("repr-not-evaluable", "{0}: {1!r}".format(text, exc))
    case.check(type(new) is type(obj), "repr-type", text)
    case.equal(repr(new), text, "repr-unstable")
    case.obs("rebuilt")
    return new


def distinct(case, objects):
    """Different objects print differently, equal ones alike."""
    texts = [(repr(o), str(o)) for o in objects]
    for (i, a), (j, b) in itertools.combinations(enumerate(objects), 2):
        if type(a) is type(b) and a != b:
            case.check(texts[i][0] != texts[j][0], "repr-ambiguous", texts[i][0])
            case.check(texts[i][1] != texts[j][1], "str-ambiguous", texts[i][1])
            case.obs("pairs printed")


def awkward(py, dim):
    """Coordinates that are hard to print."""
    return tuple(py.choice([0, -0.0, 1e-3, -1e-4, 123456.7891, 1 / 3, -2.00005, 5e4, 0.1 + 0.2, -7, 1e-12, 99999.99995,
                            py.uniform(-10, 10)]) for _ in range(dim))


def objects(case):
    py = case.py
    dim = py.choice([1, 2, 3])
    sites = gen.distinct_sites(py, py.randrange(2, 5), dim)
    if py.random() < 0.4:
        sites.append(awkward(py, dim))
    case.note(sites=sites)
    pool = []
    for s in sites:
        given = gen.as_container(py, s)
        pool.append((SiteID(given), s, None, None, None))
        for _ in range(3):
            spin, orbit = py.choice([0, 1, 0, 1, 2, 11]), py.choice([0, 1, 2, 10])
            otype = py.choice([HP.CREATION, HP.ANNIHILATION])
            pool.append((StateID(given, spin=spin, orbit=orbit), s, spin, orbit, None))
            pool.append((AoC(otype, given, spin=spin, orbit=orbit), s, spin, orbit, otype))
            pool.append((NumberOperator(given, spin=spin, orbit=orbit), s, spin, orbit, None))
        a = py.choice("xyzpm")
        pool.append((SpinOperator(a, given), s, None, None, a))
    for obj, s, spin, orbit, otype in pool:
        new = rebuild(case, obj)
        case.check(new == obj and not new != obj, "repr-not-equal", repr(obj))
        case.equal(hash(new), hash(obj), "repr-hash", repr(obj))
        case.equal(tuple(map(float, new.coordinate)), tuple(map(float, s)), "repr-coordinate", repr(obj))
        case.equal(len({new, obj}), 1, "repr-set", repr(obj))
        if spin is not None:
            case.equal((new.spin, new.orbit), (spin, orbit), "repr-labels", repr(obj))
        if otype is not None:
            case.equal(new.otype, otype, "repr-otype", repr(obj))
        case.equal(str(obj), repr(obj), "str")
    distinct(case, [p[0] for p in pool])
    case.nontrivial(sites)


def geometry(case):
    py = case.py
    dim = py.choice([1, 2, 3])
    points = gen.distinct_sites(py, 4, dim)
    bonds = []
    for a, b in itertools.permutations(points, 2):
        for directional in (True, False):
            if py.random() < 0.5:
                bonds.append((Bond(gen.as_container(py, a), gen.as_container(py, b), directional=directional), a, b, directional))
    for bond, a, b, directional in bonds:
        new = rebuild(case, bond)
        case.check(new == bond, "repr-not-equal", repr(bond))
        case.equal(hash(new), hash(bond), "repr-hash", repr(bond))
        case.equal(bool(new.directional), directional, "repr-directional", repr(bond))
        got = [tuple(map(float, p)) for p in new.endpoints]
        case.equal(got, [tuple(map(float, a)), tuple(map(float, b))], "repr-endpoints", repr(bond))
        # the description
        text = str(bond)
        case.obs("descriptions")
        fields = dict(re.split(r"\s*:\s*", line, maxsplit=1) for line in re.sub(r"\s*\n\s+(?=[-\d\]])", " ", text).split("\n"))
        numbers = lambda s: [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", s)]
        case.close(numbers(fields["P0"]), np.array(a, dtype=float), "bond-description", text, atol=1e-6, rtol=1e-6)
        case.close(numbers(fields["P1"]), np.array(b, dtype=float), "bond-description", text, atol=1e-6, rtol=1e-6)
        length = np.linalg.norm(np.array(a, dtype=float) - np.array(b, dtype=float))
        case.close(float(fields["Length"]), length, "bond-description", text, atol=1e-6, rtol=1e-8)
        if directional:
            case.close(numbers(fields["Displace"]), np.array(b, dtype=float) - np.array(a, dtype=float), "bond-description", text, atol=1e-6, rtol=1e-6)
        else:
            case.equal(fields["Displace"], "Undefined", "bond-description", text)
    distinct(case, [b[0] for b in bonds])
    p, q = np.array(gen.distinct_sites(py, 2, 2), dtype=float)
    line = Line2D(p, q)
    new = rebuild(case, line)
    t = np.array([-1.0, 0.0, 0.3, 1.0, 2.0])
    case.check(np.array_equal(new.PointsFactory(t), line.PointsFactory(t)), "repr-not-equal", repr(line))
    case.close(new.PointsFactory(t), p + np.outer(t, q - p), "repr-line", repr(line), atol=1e-9)
    case.note(points=points, line=(p, q))
    case.nontrivial(points)


def spaces(case):
    py = case.py
    states = py.sample(range(10), py.randrange(2, 8))
    if case.index % 15 == 4:
        return many_states(case)
    cut = py.randrange(1, len(states))
    n = py.randrange(-1, len(states) + 1)
    simple = SimpleHilbertSpace(states, n)
    space = HilbertSpace([states[:cut], py.randrange(-1, cut + 1)], [states[cut:], py.randrange(-1, len(states) - cut + 1)])
    case.note(simple=repr(simple), space=repr(space))
    for obj in (simple, space):
        new = rebuild(case, obj)
        case.check(np.array_equal(new.base_vectors(), obj.base_vectors()), "repr-not-equal", repr(obj))
    new = eval(repr(simple), dict(NAMESPACE))
    case.equal((new.single_particle_states, new.particle_number, new.state_number),
               (simple.single_particle_states, simple.particle_number, simple.state_number), "repr-attributes")
    new = eval(repr(space), dict(NAMESPACE))
    case.equal(new.subspace_number, 2, "repr-attributes")
    text = str(simple)
    numbers = [int(x) for x in re.findall(r"-?\d+", text)]
    case.equal(sorted(numbers[-len(states):]), sorted(states), "description", text)
    case.check(len(states) in numbers[:2], "description", text)
    case.obs("descriptions")
    # other specifications print differently
    others = {repr(SimpleHilbertSpace(states, m)) for m in range(len(states) + 1)}
    case.equal(len(others), len(states) + 1, "repr-ambiguous")
    text = str(space)
    case.check("2" in text.split("\n")[0] and all(str(s) in text for s in states), "description", text)
    case.nontrivial(states, n)


def many_states(case):
    """Specifications with many states and many subspaces; only the bases of
    a few particles are made."""
    py = case.py
    count = py.randrange(20, 60)
    states = py.sample(range(62), count)
    n = py.choice([0, 1, 2])
    simple = SimpleHilbertSpace(states, n)
    cuts = sorted(py.sample(range(1, count), py.randrange(5, count - 5)))
    pieces = [states[a:b] for a, b in zip([0] + cuts, cuts + [count])]
    space = HilbertSpace(*[[piece, 1 if len(piece) == 2 and py.random() < 0.3 else 0] for piece in pieces])
    for obj in (simple, space):
        new = rebuild(case, obj)
        case.check(np.array_equal(new.base_vectors(), obj.base_vectors()), "repr-not-equal", repr(obj))
    new = eval(repr(simple), dict(NAMESPACE))
    case.equal((new.single_particle_states, new.particle_number, new.state_number),
               (simple.single_particle_states, simple.particle_number, simple.state_number), "repr-attributes")
    case.equal(eval(repr(space), dict(NAMESPACE)).subspace_number, len(pieces), "repr-attributes")
    numbers = [int(x) for x in re.findall(r"-?\d+", str(simple))]
    case.equal(sorted(numbers[-count:]), sorted(states), "description", str(simple))
    numbers = [int(x) for x in re.findall(r"-?\d+", str(space))]
    case.check(set(states) <= set(numbers) and len(numbers) >= count, "description", str(space))
    case.obs("descriptions")
    case.obs("many states")
    case.nontrivial(states)


# ------------------------------------------------------------------- LaTeX
def site_form(case, text, site, ndigits):
    """The rounded coordinates in parentheses."""
    case.check(text.startswith("(") and text.endswith(")"), "latex-site", text)
    parts = text[1:-1].split(",")
    case.equal(len(parts), len(site), "latex-site", text)
    for part, c in zip(parts, site):
        case.check(part == part.strip() and re.fullmatch(r"-?\d+(\.\d+)?(e[-+]?\d+)?", part), "latex-number", text)
        value = float(part)
        case.check(abs(value - float(c)) <= 0.5 * 10.0 ** -ndigits * (1 + 1e-9) + 1e-12 * abs(float(c)), "latex-rounding", (text, site, ndigits))
        # no more digits than asked for
        case.check(abs(value * 10.0 ** ndigits - round(value * 10.0 ** ndigits)) < 1e-6 * max(1, abs(value)), "latex-digits", (text, ndigits))


def split_state(text):
    """'(1,2),arrow,0' or '7,arrow,0' -> site, rest."""
    if text.startswith("("):
        k = text.index(")") + 1
        return text[:k], text[k + 1:].split(",") if len(text) > k else []
    site, *rest = text.split(",")
    return site, rest


def state_form(case, text, label, kwargs, site_index):
    s, spin, orbit = label
    site, rest = split_state(text)
    if site_index is None:
        site_form(case, site, s, kwargs.get("ndigits", 4))
    else:
        case.equal(site, str(site_index), "latex-index", text)
    if spin is None:
        case.equal(rest, [], "latex-extra", text)
        return
    arrows = {0: r"\downarrow", 1: r"\uparrow"}
    want = arrows.get(spin, str(spin)) if kwargs.get("spin_one_half", True) else str(spin)
    case.equal(rest[0].replace("$", ""), want, "latex-spin", text)
    if kwargs.get("suppress_orbit", True):
        case.equal(len(rest), 1, "latex-orbit", text)
    else:
        case.equal(rest[1:], [str(orbit)], "latex-orbit", text)


def options(py):
    kwargs = {}
    if py.random() < 0.5:
        kwargs["ndigits"] = py.randrange(0, 8)
    if py.random() < 0.5:
        kwargs["spin_one_half"] = py.random() < 0.5
    if py.random() < 0.5:
        kwargs["suppress_orbit"] = py.random() < 0.5
    return kwargs


TOKEN = re.compile(r"(c|n|S)_\{(.*?)\}(?:\^\{(.*?)\})?(?=$|[cnS]_)")


def operator_form(case, text, kind, label, kwargs, site_index, mark):
    case.check(text.startswith("$") and text.endswith("$") and text.count("$") == 2, "latex-dollars", text)
    m = TOKEN.fullmatch(text[1:-1])
    case.check(m is not None, "latex-operator", text)
    case.equal(m.group(1), kind, "latex-kind", text)
    case.equal(m.group(3), mark, "latex-mark", text)
    state_form(case, m.group(2), label, kwargs, site_index)


def latex(case):
    py = case.py
    long = case.index % 10 == 7
    labels = gen.state_labels(py, py.randrange(12, 40) if long else py.randrange(1, 6), max_spin=py.choice([2, 4]))
    start = py.choice([0, 1, 10])
    ids = list(dict.fromkeys(SiteID(s) for s, _, _ in labels))
    table = IndexTable(ids, start=start)
    order = []
    for s, _, _ in labels:
        if s not in order:
            order.append(s)
    number = {s: start + k for k, s in enumerate(order)}
    case.note(labels=labels)
    for label in labels:
        s, spin, orbit = label
        for mode in range(3):
            kwargs = options(py)
            index = [None, number[s], py.choice([0, 3, 17])][mode]
            extra = {} if mode == 0 else {"site_index": [None, table, index if py.random() < 0.5 else np.int64(index)][mode]}
            state_form(case, SiteID(s).tolatex(**extra, **kwargs), (s, None, None), kwargs, index)
            state_form(case, StateID(s, spin, orbit).tolatex(**extra, **kwargs), label, kwargs, index)
            for otype in (HP.CREATION, HP.ANNIHILATION):
                operator_form(case, AoC(otype, s, spin, orbit).tolatex(**extra, **kwargs), "c", label, kwargs, index,
                              r"\dagger" if otype == HP.CREATION else None)
            operator_form(case, NumberOperator(s, spin, orbit).tolatex(**extra, **kwargs), "n", label, kwargs, index, None)
            a = py.choice("xyzpm")
            operator_form(case, SpinOperator(a, s).tolatex(**extra, **{k: v for k, v in kwargs.items() if k == "ndigits"}), "S",
                          (s, None, None), kwargs, index, a)
            case.obs("latex parsed", 6)
    # terms: coefficient, then the operators in order
    for _ in range(3):
        kwargs = options(py)
        chosen = [py.choice(labels) for _ in range(py.randrange(10, 60) if long else py.randrange(1, 5))]
        coeff = py.choice([1, 2, -3, 0.5, -1.25, 1j, 2 - 0.5j, np.float64(0.75), 1 / 3, py.uniform(-9, 9), 0.1 + 0.2,
                           complex(py.uniform(-1, 1), py.uniform(-1, 1)), -1e-12 / 3, 2.5e17 / 3, 10 ** 9 + 7])
        with_table = py.random() < 0.5
        args = (table,) if with_table else ()
        types = [py.choice([HP.CREATION, HP.ANNIHILATION]) for _ in chosen]
        term = ParticleTerm([AoC(t, *l) for t, l in zip(types, chosen)], coeff=coeff)
        spins = [py.choice("xyzpm") for _ in chosen]
        sites = order[:]
        py.shuffle(sites)
        spin_labels = [(s, None, None) for s in sites[:len(spins)]]
        spin_term = SpinInteraction([SpinOperator(a, s) for a, (s, _, _) in zip(spins, spin_labels)], coeff=coeff)
        for t, kind, marks, ls, kw in ((term, "c", [r"\dagger" if x == HP.CREATION else None for x in types], chosen, kwargs),
                                       (spin_term, "S", spins, spin_labels, {k: v for k, v in kwargs.items() if k == "ndigits"})):
            text = t.tolatex(*args, **kw)
            case.check(text.startswith("$") and text.endswith("$") and text.count("$") == 2, "latex-dollars", text)
            body = text[1:-1]
            first = re.search(r"[cS]_\{", body)
            case.equal(complex(body[:first.start()]), complex(coeff), "latex-coefficient", text)
            tokens = list(TOKEN.finditer(body[first.start():]))
            case.equal("".join(m.group(0) for m in tokens), body[first.start():], "latex-term", text)
            parts = list(zip(tokens, ls, marks))
            case.equal(len(tokens), len(t.components), "latex-term", text)
            if kind == "S":
                # the operators of a product on different sites may be reordered
                comps = t.components
                parts = [(m, (tuple(c.coordinate), None, None), c.otype) for m, c in zip(tokens, comps)]
            for m, label, mark in parts:
                case.equal(m.group(1), kind, "latex-kind", text)
                case.equal(m.group(3), mark, "latex-mark", text)
                index = None
                if with_table:
                    near = [v for k, v in number.items() if np.allclose(k, label[0])]
                    index = near[0]
                state_form(case, m.group(2), label, kw, index)
            # description
            lines = str(t).split("\n")
            case.equal(complex(lines[0].split(":")[1].strip()), complex(coeff), "term-description", str(t))
            listed = [eval(x.strip(), dict(NAMESPACE)) for x in lines[2:]]
            case.equal(tuple(listed), tuple(t.components), "term-description", str(t))
            case.obs("terms parsed")
            case.obs("descriptions")
            if len(t.components) > 9:
                case.obs("long terms")
    case.nontrivial(labels)


def tables(case):
    py = case.py
    start = py.choice([0, 1, 5, -3])
    labels = gen.state_labels(py, py.randrange(1, 12))
    if case.index % 25 == 9:
        labels = [((x, py.choice([0.5, 1])), 0, o) for x in range(py.randrange(30, 700)) for o in range(2)]
    objects = [StateID(s, spin=p, orbit=o) for s, p, o in labels]
    if py.random() < 0.3:
        objects = [SiteID(s) for s in dict.fromkeys(s for s, _, _ in labels)]
    table = IndexTable(objects, start=start)
    lines = [x for x in str(table).split("\n") if re.match(r"\s*-?\d+\s", x)]
    case.equal(len(lines), len(objects), "table-description", str(table))
    seen = {}
    for x in lines:
        index, text = x.split(None, 1)
        seen[int(index)] = eval(text, dict(NAMESPACE))
        case.obs("lines of tables")
    case.equal(seen, {start + k: o for k, o in enumerate(objects)}, "table-description", str(table))
    points, vectors = gen.random_lattice_data(case)
    if case.index % 25 == 9:
        n = py.randrange(30, 1200)
        points, vectors = np.array([[k, (k % 7) / 8] for k in range(n)]), np.array([[n, 0.0], [0.0, 2.0]])
        case.obs("long tables")
    lat = Lattice(points, vectors, "name")
    text = str(lat)
    numbers = lambda s: [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", s)]
    head = dict(x.split(": ") for x in text.split("\n") if re.match(r"\w[\w ]*: \d+$", x))
    case.equal({k.lower(): int(v) for k, v in head.items()},
               {"point number": len(points), "space dimension": points.shape[1], "translation dimension": len(vectors)}, "lattice-description", text)
    body = text[text.index("Points:"):]
    got = numbers(body)
    want = np.concatenate([points.ravel(), vectors.ravel(), lat.bs.ravel()])
    case.close(got, want, "lattice-description", text, atol=1e-6, rtol=1e-6)
    case.obs("descriptions")
    case.note(objects=len(objects), points=points)
    case.nontrivial(labels, points.tobytes())


MODULES = ["bond", "hilbertspace", "indextable", "line2d", "quantumoperator.factory", "quantumoperator.particlesystem",
           "quantumoperator.quantumstate", "quantumoperator.spinsystem", "lattice.lattice", "lattice._lattice_database", "lanczos",
           "rotation3d", "polygon", "averages", "GreenFunction._GFSolver", "tools.PandC", "tools.TotalSpin"]


def examples(case):
    """The examples of the documentation print what they promise, whatever
    was called before."""
    py = case.py
    seed = case.seed % (1 << 40)
    for name in py.sample(MODULES, len(MODULES)):
        if py.random() < 0.4:
            for _, query in World(seed, [py.choice(PARTS)]).queries:
                query()
        try:
            module = importlib.import_module("HamiltonianPy." + name)
        except ImportError:
            continue
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            result = doctest.testmod(module, optionflags=doctest.NORMALIZE_WHITESPACE | doctest.ELLIPSIS)
        case.run.oracle_calls += result.attempted
        case.obs("documented examples", result.attempted)
        case.equal(result.failed, 0, "example", out.getvalue()[:1500])
    case.nontrivial(case.index)


SECTIONS = [
    past.section(past.term, past.operator, past.interaction, past.bond, quick=28, thorough=560),
    Section("examples", examples, 4, 40),
    Section("objects", objects, 120, 2500),
    Section("geometry", geometry, 150, 3000),
    Section("spaces", spaces, 150, 3000),
    Section("latex", latex, 150, 3000),
    Section("tables", tables, 200, 4000),
]
