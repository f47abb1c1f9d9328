"""Lattice workloads."""
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import Lattice

from vlib import gen, ref
from vlib.harness import Skip

# Independent definitions of the parent lattices.
ROOT3 = 3 ** 0.5
PARENTS = {
    "chain": ([[1.0]], [[0.0]]),
    "square": ([[1, 0], [0, 1]], [[0, 0]]),
    "triangle": ([[1, 0], [0.5, ROOT3 / 2]], [[0, 0]]),
    "honeycomb": ([[1, 0], [0.5, ROOT3 / 2]], None),
    "kagome": ([[1, 0], [0.5, ROOT3 / 2]], [[0, 0], [0.5, 0], [0.25, ROOT3 / 4]]),
    "cubic": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]]),
}


def published(case, big=False):
    """A lattice of the library with its points and vectors."""
    py = case.py
    if py.random() < 0.4:
        name = py.choice([py.choice(v) for v in gen.SPECIAL.values()])
        lat = HP.special_cluster(name)
        return lat, lat.points, lat.vectors, name
    name = py.choice(gen.LATTICE_NAMES)
    top = 5 if big else 3
    if name == "chain":
        sizes = (py.randrange(1, 9),)
    elif name == "cubic":
        sizes = tuple(py.randrange(1, 3) for _ in range(3))
    else:
        sizes = (py.randrange(1, top), py.randrange(1, top))
    lat = HP.lattice_generator(name, *sizes)
    return lat, lat.points, lat.vectors, "{0}{1}".format(name, sizes)


def generic(case, max_points=5):
    points, vectors = gen.random_lattice_data(case, max_points=max_points)
    return Lattice(points, vectors), points, vectors, "generic"


def reshaped(case):
    """A published lattice described in another way: permuted and translated
    points, sheared and permuted vectors."""
    py, rng = case.py, case.rng
    _, points, vectors, tag = published(case)
    points, vectors = other_description(case, points, vectors)
    return Lattice(points, vectors, tag + "*"), points, vectors, tag + "*"


def unimodular(py, n, steps=3):
    u = np.eye(n, dtype=int)
    if n == 1:
        return u * py.choice([1, -1])
    for _ in range(steps):
        i, j = py.sample(range(n), 2)
        u[i] += py.choice([-1, 1]) * u[j]
    if py.random() < 0.3:
        u = u[py.sample(range(n), n)]
    if py.random() < 0.3:
        u[0] = -u[0]
    return u


def other_description(case, points, vectors, spread=1):
    py, rng = case.py, case.rng
    points = np.array(points, dtype=float)
    vectors = np.array(vectors, dtype=float)
    new = np.array([p + rng.integers(-spread, spread + 1, size=len(vectors)) @ vectors for p in points])
    new = new[py.sample(range(len(new)), len(new))]
    vec = unimodular(py, len(vectors), py.randrange(0, 3)) @ vectors
    if np.linalg.cond(vec) > 12:
        vec = vectors
    if py.random() < 0.3:
        new = new + rng.uniform(-3, 3, size=new.shape[1])
    return new, vec


def on_edge(case):
    """A lattice scaled such that one of its distances lies half way between
    two numbers of four decimals, where round-off decides how it is rounded."""
    py = case.py
    if py.random() < 0.5:
        name = py.choice(["square", "triangle", "honeycomb", "kagome"])
        lat = HP.lattice_generator(name, py.randrange(1, 6), py.randrange(1, 6))
        points, vectors, tag = lat.points, lat.vectors, name
    else:
        _, points, vectors, tag = py.choice([published, generic, reshaped])(case)
    points, vectors = np.array(points, dtype=float), np.array(vectors, dtype=float)
    if len(points) > 26:
        raise Skip("too big")
    value = ref.neighbor_distances(points, vectors, 3)[py.randrange(1, 4)]
    factor = (np.floor(value * py.uniform(0.6, 4) * 1e4) + 0.5) * 1e-4 / value
    points, vectors = points * factor, vectors * factor
    return Lattice(points, vectors, tag + "-edge"), points, vectors, tag + "-edge"


def stored(case, max_points=5):
    """Whole numbers in short or unsigned storage types."""
    py, rng = case.py, case.rng
    for _ in range(1000):
        d = py.choice([1, 2, 2, 3])
        t = d if py.random() < 0.7 else py.randrange(1, d + 1)
        low, high = py.choice([(0, 5), (-4, 5), (0, 4), (0, 120), (-100, 120), (0, 200)])
        vectors = rng.integers(low, high, size=(t, d))
        points = rng.integers(low, high, size=(py.randrange(1, max_points + 1), d))
        sing = np.linalg.svd(vectors, compute_uv=False)
        if sing[-1] < 0.5 or sing[0] / sing[-1] > 9:
            continue
        if inequivalent(points.astype(float), vectors.astype(float)):
            lat = Lattice(gen.storage(py, points), gen.storage(py, vectors))
            return lat, points.astype(float), vectors.astype(float), "stored"
    raise RuntimeError("no lattice found")


def remote(case):
    """A lattice far away from the origin, or a large one with close distances."""
    py, rng = case.py, case.rng
    _, points, vectors, tag = py.choice([published, generic, reshaped])(case)
    points, vectors = np.array(points, dtype=float), np.array(vectors, dtype=float)
    if py.random() < 0.5:
        factor = 10 ** py.uniform(1, 3)
        points, vectors = points * factor, vectors * factor
        if py.random() < 0.6:
            # slightly distorted: distances of the symmetric lattice split
            points = points + rng.uniform(-0.03, 0.03, size=points.shape)
            vectors = vectors + rng.uniform(-0.03, 0.03, size=vectors.shape)
    if py.random() < 0.6:
        points = points + rng.uniform(-1, 1, size=points.shape[1]) * 10 ** py.uniform(1, 4)
    return Lattice(points, vectors, tag + "-remote"), points, vectors, tag + "-remote"


def make(case, max_points=5):
    if case.py.random() < 0.12:
        case.obs("large or remote lattices")
        return remote(case)
    if case.py.random() < 0.08:
        case.obs("lattices of short or unsigned integers")
        return stored(case, max_points)
    if case.py.random() < 0.15:
        case.obs("lattices with a distance on a rounding edge")
        return on_edge(case)
    return case.py.choice([published, generic, generic, reshaped])(case)


def groups(points, vectors, count, gap=1e-3):
    """The first count + 1 distances; refuses cases that the configured
    precision cannot separate."""
    if len(points) * len(vectors) > 200:
        raise Skip("too big")
    values = ref.neighbor_distances(points, vectors, count)
    if any(b - a < gap for a, b in zip(values, values[1:])):
        raise Skip("distances too close for the configured precision")
    return values


def spread_within(points, vectors, values, gap=1e-3):
    """The next distance has to be clearly larger as well."""
    more = ref.neighbor_distances(points, vectors, len(values))
    if more[-1] - values[-1] < gap:
        raise Skip("next distance too close")
    return more


def inequivalent(points, vectors):
    for i in range(len(points)):
        for j in range(i):
            if ref.reduced(vectors, points[i] - points[j]) is not None:
                return False
    return True
