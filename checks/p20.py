"""P20: neighbour distances."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import Lattice
from HamiltonianPy.lattice import lattice as lattice_module

from vlib import gen, lattices, ref
from vlib import history as past
from vlib.harness import Section, Skip

PID = "P20"
RULE = ("published, random and re-described lattices in 1-3 dimensions (partial periodicity, skewed vectors); distances "
        "asked in random order, repeatedly, between bond queries; compared with a brute-force enumeration of the infinite "
        "lattice; non-trivial when at least three distances were compared")
ASSUMPTIONS = ["distances of the generated lattices differ by at least 1e-3"]
MUST = {"distances compared": 2500, "lattices with a distance on a rounding edge": 15, "lattices": 150, "large or remote lattices": 8, "lattices of short or unsigned integers": 8, "descriptions compared": 50, "histories": 150, "elongated cells": 25, "distances of high order": 60}


def ask(case, lat, want, count, mechanism, history=True):
    py = case.py
    order = list(range(count + 1)) + [py.randrange(count + 1) for _ in range(4)]
    style = py.randrange(4)
    if style == 0:
        order.sort()
    elif style == 1:
        order.sort(reverse=True)
    else:
        py.shuffle(order)
    seen = {}
    for nth in order:
        if history and py.random() < 0.1 and lat.point_num <= 6 and lat.trans_dim < 3:
            lat.bonds(min(nth, 3), only=py.random() < 0.5)
        if history and py.random() < 0.1:
            lat.decompose(lat.getSite(0) + lat.vectors[0])
        got = float(lat.neighbor_distance(nth))
        case.close(got, want[nth], mechanism, "distance {0} in order {1}".format(nth, order), atol=1.01e-4, rtol=0)
        if nth in seen:
            case.equal(got, seen[nth], mechanism + "-repeated", nth)
        seen[nth] = got
        case.obs("distances compared")
    values = [seen[k] for k in range(count + 1)]
    case.equal(values[0], 0.0, mechanism + "-zeroth")
    case.check(all(a < b for a, b in zip(values, values[1:])), mechanism + "-increasing", values)
    case.obs("histories")
    return values


def distances(case):
    py = case.py
    lat, points, vectors, tag = lattices.make(case)
    case.note(tag=tag, points=points, vectors=vectors)
    d = len(vectors)
    count = py.randrange(3, {1: 13, 2: 11, 3: 7}[d])
    points, vectors = np.asarray(points, dtype=float), np.asarray(vectors, dtype=float)
    want = lattices.groups(points, vectors, count)
    ask(case, lat, want, count, "distance")
    if count >= 3:
        case.nontrivial(tag, count, case.index)
    case.obs("lattices")
    case.peak("largest order", count)
    # a second object of the same data, asked once for the largest order
    again = Lattice(points.copy(), vectors.copy())
    case.close(again.neighbor_distance(count), want[count], "fresh", count, atol=1.01e-4, rtol=0)


def descriptions(case):
    """Supercells, other representatives, other vectors: the same distances."""
    py, rng = case.py, case.rng
    _, points, vectors, tag = lattices.make(case)
    points, vectors = np.asarray(points, dtype=float), np.asarray(vectors, dtype=float)
    if len(points) > 6:
        raise Skip("too big")
    count = py.randrange(3, {1: 10, 2: 8, 3: 5}[len(vectors)])
    want = lattices.groups(points, vectors, count)
    case.note(tag=tag, points=points, vectors=vectors, count=count)
    base = ask(case, Lattice(points, vectors), want, count, "distance")
    for _ in range(3):
        p, v = lattices.other_description(case, points, vectors)
        if py.random() < 0.5:
            k = py.randrange(len(v))
            m = py.choice([2, 3])
            p = np.concatenate([p + j * v[k] for j in range(m)])
            v = v.copy()
            v[k] *= m
        got = ask(case, Lattice(p, v), want, count, "description", history=False)
        case.close(got, base, "description-same", (p, v), atol=1.01e-4, rtol=0)
        case.obs("descriptions compared")
    # a rotated copy
    if points.shape[1] >= 2:
        q, _ = np.linalg.qr(rng.normal(size=(points.shape[1],) * 2))
        got = ask(case, Lattice(points @ q, vectors @ q), want, count, "rotated", history=False)
        case.close(got, base, "rotated-same", atol=1.01e-4, rtol=0)
    case.nontrivial(tag, case.index)
    case.obs("lattices")


def elongated(case):
    """Cells much longer in one direction than in another."""
    py, rng = case.py, case.rng
    d = py.choice([2, 2, 2, 3])
    t = py.choice([d, d, 2])
    vectors = np.eye(d)[:t] * rng.uniform(0.7, 1.6, size=(t, 1)) + rng.uniform(-0.15, 0.15, size=(t, d))
    n = py.randrange(1, 4)
    ratio = py.uniform(3, 14)
    vectors[py.randrange(t)] *= ratio
    points = np.linspace(0, 1, n, endpoint=False)[:, np.newaxis] * vectors[py.randrange(t)] + rng.uniform(-0.1, 0.1, size=(n, d))
    order = rng.permutation(t)
    vectors = vectors[order]
    if py.random() < 0.3 and t == 2:
        vectors[0] += py.choice([-2, -1, 1, 2]) * vectors[1]
    if py.random() < 0.5:
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        points, vectors = points @ q, vectors @ q
    if np.linalg.svd(vectors, compute_uv=False)[-1] < 0.4:
        raise Skip("nearly dependent vectors")
    count = py.randrange(4, 16 if t == 2 else 8)
    want = lattices.groups(points, vectors, count)
    case.note(points=points, vectors=vectors, count=count)
    case.close(Lattice(points, vectors).neighbor_distance(count), want[count], "elongated", count, atol=1.01e-4, rtol=0)
    ask(case, Lattice(points, vectors), want, count, "elongated", history=False)
    case.obs("elongated cells")
    case.obs("lattices")
    case.nontrivial(case.index, n, count)


def skewed(case):
    """A compact lattice described by strongly sheared vectors."""
    py, rng = case.py, case.rng
    d = py.choice([2, 3])
    compact = np.eye(d) * rng.uniform(0.9, 1.2, size=(d, 1)) + rng.uniform(-0.1, 0.1, size=(d, d)) * (py.random() < 0.7)
    points = rng.uniform(-0.2, 0.2, size=(1, d)) + np.linspace(0, 1, py.choice([1, 1, 2]), endpoint=False)[:, np.newaxis] * compact[0]
    count = py.randrange(2, 7 if d == 2 else 5)
    want = lattices.groups(points, compact, count)
    shear = np.eye(d, dtype=int)
    for k in range(d - 1):
        shear[k + 1, k] = py.choice([-1, 1]) * py.randrange(1, 9 if d == 2 else 6)
    vectors = shear @ compact
    order = rng.permutation(d)
    vectors = vectors[order]
    case.note(points=points, vectors=vectors, count=count)
    for nth in (1, 2):
        case.close(Lattice(points, vectors).neighbor_distance(nth), want[nth], "skewed", nth, atol=1.01e-4, rtol=0)
    ask(case, Lattice(points, vectors), want, count, "skewed", history=False)
    case.peak("largest shear", int(abs(shear).max()))
    case.obs("skewed cells")
    case.nontrivial("skewed", case.index, count)


def published(case):
    """The unit cells of the library, whose distances are known numbers."""
    root = np.sqrt
    known = {
        "chain": [0, 1, 2, 3, 4, 5, 6],
        "square": [0, 1, root(2), 2, root(5), root(8), 3, root(10), root(13), 4],
        "triangle": [0, 1, root(3), 2, root(7), 3, root(12), root(13), 4],
        "honeycomb": [x / root(3) for x in (0, 1, root(3), 2, root(7), 3, root(12), root(13), 4)],
        "kagome": [x / 2 for x in (0, 1, root(3), 2, root(7), 3, root(12), root(13), 4)],
        "cubic": [0, 1, root(2), root(3), 2, root(5), root(6), root(8), 3],
    }
    name = gen.LATTICE_NAMES[case.index % 6]
    want = known[name]
    count = min(len(want) - 1, 6 if name == "cubic" else 8)
    sizes = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 3, 2)][case.index // 6 % 4]
    lat = HP.lattice_generator(name, *sizes)
    ask(case, lat, want, count, "published")
    case.nontrivial(name, sizes)
    case.obs("lattices")
    for alias in {"square": ("cross", "z", "s"), "triangle": ("star",), "honeycomb": ("benzene", "diphenyl", "gear")}.get(
            name, ()):
        ask(case, HP.special_cluster(alias), want, count, "published-special")
        case.obs("lattices")


def precision(case):
    """Other configured precisions, including the default restored afterwards."""
    py = case.py
    digits = py.choice([0, 1, 2, 3, 5, 6, 7])
    points, vectors = gen.random_lattice_data(case, max_points=3)
    if digits < 2:
        # distances in small units, e.g. femtometres
        points, vectors = points * 1000.0, vectors * 1000.0
    want = lattices.groups(points, vectors, 4, gap=max(0.03, 3 * 10.0 ** -digits))
    if py.random() < 0.3:
        factor = (np.floor(want[1] * 10 ** digits * py.uniform(1, 3)) + 0.5) * 10.0 ** -digits / want[1]
        points, vectors = points * factor, vectors * factor
        want = lattices.groups(points, vectors, 4, gap=max(0.03, 3 * 10.0 ** -digits))
        case.obs("lattices with a distance on a rounding edge")
    case.note(digits=digits, points=points, vectors=vectors)
    lattice_module.set_float_point_precision(*[digits][case.index % 2:], **{"precision": digits for _ in range(case.index % 2)})
    try:
        lat = Lattice(points, vectors)
        for nth in py.sample(range(5), 5):
            case.close(lat.neighbor_distance(nth), want[nth], "precision", (digits, nth), atol=0.6 * 10.0 ** -digits,
                       rtol=0)
            case.obs("distances compared")
    finally:
        # the default is four digits
        lattice_module.set_float_point_precision(*case.py.choice([(), (4,)]))
    lat = Lattice(points, vectors)
    ask(case, lat, want, 4, "default-precision")
    case.nontrivial(digits, case.index)


# squares of the distances in units of the lattice constant, by their forms
FORMS = {
    "chain": lambda a, b, c: a * a,
    "square": lambda a, b, c: a * a + b * b,
    "triangle": lambda a, b, c: a * a + a * b + b * b,
    "cubic": lambda a, b, c: a * a + b * b + c * c,
}


def many_shells(case):
    """Many distances of the lattices whose distances are known in closed form."""
    py = case.py
    name = list(FORMS)[case.index % 4]
    d = {"chain": 1, "cubic": 3}.get(name, 2)
    lat = HP.lattice_generator(name, *(py.randrange(1, {1: 20, 2: 4, 3: 3}[d]) for _ in range(d)))
    top = {1: py.choice([80, 400]), 2: 40, 3: 18}[d]
    reach = top + 10 if d == 1 else 30
    values = {FORMS[name](a, b, c) for a in range(reach) for b in range(reach if d > 1 else 1) for c in range(12 if d > 2 else 1)}
    want = np.sqrt(sorted(values))
    unit = np.linalg.norm(HP.lattice_generator(name).vectors[0])
    case.note(name=name, points=lat.point_num)
    orders = py.sample(range(top + 1), 5) + [top]
    py.shuffle(orders)
    for nth in orders:
        case.close(float(lat.neighbor_distance(nth)), unit * want[nth], "many-shells", (name, nth), atol=1.01e-4, rtol=0)
        case.obs("distances of high order")
    case.nontrivial(name, lat.point_num, tuple(orders))


SECTIONS = [
    past.section(past.lattice, quick=14, thorough=280),
    Section("distances", distances, 150, 3000),
    Section("descriptions", descriptions, 50, 1200),
    Section("elongated", elongated, 60, 1500),
    Section("published", published, 24, 24, fixed=True),
    Section("many_shells", many_shells, 12, 120),
    Section("skewed", skewed, 40, 1500),
    Section("precision", precision, 30, 500),
]
