"""P32: figures."""
import contextlib
import io
import itertools
import os
import runpy
import shutil
import sys
import tempfile
from pathlib import Path

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy import AoC, IndexTable, Lattice, Line2D, NumberOperator, ParticleTerm, SiteID, SpinInteraction, SpinOperator
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.tools import Draw2DLattice

from vlib import figures, gen
from vlib.harness import Section

PID = "P32"
RULE = ("the axes are read when a figure is shown or saved and compared with points, vectors and neighbours computed "
        "from the data; random lattices in one and two dimensions, Brillouin zones, lines, polygons, sketches with all "
        "options, operators and terms; non-trivial when the figure holds at least two points or one text")
MUST = {"figures": 500, "points compared": 8000, "bonds compared": 3000, "files": 25, "bisectors": 300, "texts": 150, "commands": 20}


@contextlib.contextmanager
def scratch():
    folder = Path(tempfile.mkdtemp(dir=os.environ.get("VP_WORK", "/tmp")))
    here = os.getcwd()
    os.chdir(folder)
    try:
        yield folder
    finally:
        os.chdir(here)
        shutil.rmtree(folder)


def only(case, watch, shown=1):
    case.equal(len(watch.shown), shown, "shown", "number of show calls")
    case.obs("figures")
    if shown:
        case.equal(len(watch.shown[0]), 1, "figures", "number of figures")
        case.equal(len(watch.shown[0][0]), 1, "axes", "number of axes")
        return watch.shown[0][0][0]


def inside(case, axes, points):
    lo = np.array([min(axes.xlim), min(axes.ylim)])
    hi = np.array([max(axes.xlim), max(axes.ylim)])
    case.check(np.all(points >= lo - 1e-9) and np.all(points <= hi + 1e-9), "outside-the-view", (axes.xlim, axes.ylim))


def same_points(case, got, want, mechanism, message=""):
    case.run.oracle_calls += 1
    case.obs("points compared", len(got))
    diff = figures.same_set(got, want)
    if diff:
        case.fail(mechanism, "{0} {1}".format(message, diff))


def lattice(case):
    py = case.py
    d = py.choice([1, 2, 2])
    points, vectors = gen.random_lattice_data(case, max_points=5, space_dim=d)
    name = py.choice(["", "my lattice", "A1", "l.x", "size 1.5", "a.png", "x(2,3)"])
    lat = Lattice(points, vectors, name)
    scope = py.choice([0, 0, 1, 2])
    save = py.random() < 0.25
    case.note(points=points, vectors=vectors, scope=scope, save=save)
    with scratch() as folder, figures.watching() as watch, contextlib.redirect_stdout(io.StringIO()) as out:
        kwargs = {} if scope == 0 and py.random() < 0.5 else {"scope": scope}
        if save or py.random() < 0.3:
            kwargs["savefig"] = save
        other = None
        if save and py.random() < 0.5:
            # a figure of the caller
            other = plt.figure()
        lat.show(**kwargs)
        if save:
            case.equal(len(watch.saved), 1, "saved")
            axes = only(case, watch, 0) or watch.saved[0][1][0]
            files = list(folder.iterdir())
            case.equal([f.name for f in files], ["{0},scope={1}.png".format(lat.name, scope)], "file")
            case.check(files[0].read_bytes()[:8] == b"\x89PNG\r\n\x1a\n", "file-content")
            case.check(str(files[0].resolve()) in out.getvalue(), "announced", out.getvalue())
            case.obs("files")
            if other is None:
                case.equal(plt.get_fignums(), [], "figure-open")
            else:
                case.equal(plt.get_fignums(), [other.number], "figure-open", "the figure of the caller")
        else:
            axes = only(case, watch)
            case.equal(len(watch.saved), 0, "saved")
            case.equal(list(folder.iterdir()), [], "file")
    shifts = [np.array(c) @ vectors for c in itertools.product(range(-scope, scope + 1), repeat=len(vectors))]
    want = np.concatenate([points + s for s in shifts])
    if d == 1:
        want = np.column_stack([want[:, 0], np.zeros(len(want))])
    same_points(case, axes.points, want, "sites", "scope {0}".format(scope))
    case.equal(axes.paths, [], "superfluous", "lines")
    case.equal(axes.others, [], "superfluous")
    inside(case, axes, want)
    case.close(axes.xlim[1] - axes.xlim[0], axes.ylim[1] - axes.ylim[0], "view", "not square", atol=1e-9, rtol=1e-9)
    case.check(axes.aspect in ("equal", 1, 1.0), "aspect")
    case.equal(axes.title, "{0},scope={1}".format(lat.name, scope), "title")
    if len(want) > 1:
        case.nontrivial(points.tobytes(), vectors.tobytes(), scope)


def refused(case):
    py = case.py
    points, vectors = gen.random_lattice_data(case, space_dim=3)
    with figures.watching() as watch:
        case.raises((RuntimeError, NotImplementedError, ValueError), lambda: Lattice(points, vectors).show(), "accepted", "3D")
        lat = HP.lattice_generator("square")
        for bad in (-1, 1.0, "1", None):
            case.raises((AssertionError, ValueError, TypeError), lambda: lat.show(scope=bad), "accepted", bad)
        for bad in ([[1, 0], [0, 1]], np.eye(3), np.ones((1, 2)), np.ones(2)):
            case.raises((AssertionError, ValueError, TypeError), lambda: HP.ShowFirstBZ(bad), "accepted", bad)
        case.raises((KeyError, ValueError), lambda: Draw2DLattice.show("cubic", 1, 1, save=False), "accepted")
        case.equal(watch.shown, [], "shown")
    case.nontrivial(case.index)


def zone(case):
    py, rng = case.py, case.rng
    if py.random() < 0.4:
        As = np.array(py.choice([HP.SQUARE_CELL_AS, HP.TRIANGLE_CELL_AS, HP.HONEYCOMB_CELL_AS, HP.KAGOME_CELL_AS])) * py.choice([1, 0.5, 3])
    else:
        while True:
            As = rng.normal(size=(2, 2)) * 2
            if abs(np.linalg.det(As)) > 0.5:
                break
    scale = py.choice([1, 1, 0.5, 2, 3.7])
    case.note(As=As, scale=scale)
    given = As.copy()
    with figures.watching() as watch:
        HP.ShowFirstBZ(As, **({} if scale == 1 else {"scale": scale}))
        axes = only(case, watch)
    case.check(np.array_equal(given, As), "argument-changed")
    # b_i . a_j = 2 pi delta_ij, from cross products
    (ax, ay), (bx, by) = As
    det = ax * by - ay * bx
    b1 = 2 * np.pi / det * np.array([by, -bx])
    b2 = 2 * np.pi / det * np.array([-ay, ax])
    G = {(i, j): i * b1 + j * b2 for i in (-1, 0, 1) for j in (-1, 0, 1)}
    same_points(case, axes.points, list(G.values()), "reciprocal-points")
    labels = {t[0].replace(" ", ""): np.array(t[1], dtype=float) for t in axes.texts}
    case.equal(len(axes.texts), 9, "labels")
    for k, g in G.items():
        key = str(k).replace(" ", "")
        case.check(key in labels and np.allclose(labels[key], g), "labels", (k, labels))
    left = {k: g for k, g in G.items() if k != (0, 0)}
    case.equal(len(axes.paths), 8, "bisectors", "number")
    for xy, *_ in axes.paths:
        found = None
        for k, g in left.items():
            if np.allclose((xy[0] + xy[-1]) / 2, g / 2, atol=1e-8) and np.all(np.abs(xy @ g - g @ g / 2) < 1e-7 * (1 + (1 + scale) * (g @ g))):
                found = k
        case.check(found is not None, "bisectors", xy)
        g = left.pop(found)
        case.close(np.linalg.norm(xy[0] - xy[-1]), 2 * scale * np.linalg.norm(g), "bisector-length", found, rtol=1e-8)
        case.obs("bisectors")
    case.check(axes.aspect in ("equal", 1, 1.0), "aspect")
    case.nontrivial(As.tobytes(), scale)


def formula(case, title, p0, p1):
    """The formula in the title holds for both points."""
    if title.startswith("x = "):
        value = float(title[4:])
        case.check(all(abs(p[0] - value) < 6e-5 for p in (p0, p1)), "formula", title)
        return
    case.check(title.startswith("y = "), "formula", title)
    body = title[4:]
    if "x" in body:
        slope, _, rest = body.partition("x")
        slope, icept = float(slope), float(rest.replace(" ", "").replace("+-", "-").replace("+", ""))
    else:
        slope, icept = 0.0, float(body)
    for p in (p0, p1):
        case.check(abs(p[1] - slope * p[0] - icept) < 6e-5 * (2 + abs(p[0])), "formula", (title, p))


def line(case):
    py = case.py
    p0 = np.array([py.choice([0, 1, -2.5, py.uniform(-5, 5)]) for _ in range(2)], dtype=float)
    while True:
        p1 = np.array([py.choice([0, 1, -2.5, py.uniform(-5, 5), p0[k]]) for k in range(2)], dtype=float)
        if np.linalg.norm(p1 - p0) > 0.1:
            break
    q = np.array([py.uniform(-5, 5), py.uniform(-5, 5)])
    obj = Line2D(p0, p1)
    case.note(p0=p0, p1=p1)
    for which in (0, 1):
        with figures.watching() as watch:
            obj.ShowLine() if which == 0 else obj.ShowLocationRelation(q)
            axes = only(case, watch)
            case.equal(plt.get_fignums(), [], "figure-open")
        d = p1 - p0
        case.equal(len(axes.paths), 1, "line", "number of lines")
        xy = axes.paths[0][0]
        t = (xy - p0) @ d / (d @ d)
        case.check(np.max(np.abs(xy - (p0 + np.outer(t, d)))) < 1e-8 * (1 + np.max(np.abs(xy))), "line", "not on the line")
        case.check(t.min() <= 1e-9 and t.max() >= 1 - 1e-9, "line", "does not reach the points")
        if which == 0:
            same_points(case, axes.points, [p0, p1], "line-points")
            labels = sorted((t[0], tuple(t[1])) for t in axes.texts)
            case.equal(labels, [("$p_0$", tuple(p0)), ("$p_1$", tuple(p1))], "line-labels")
        else:
            same_points(case, axes.points, [q], "line-points")
            case.equal([(t[0], tuple(t[1])) for t in axes.texts], [("p", tuple(q))], "line-labels")
        formula(case, axes.title, p0, p1)
        formula(case, str(obj), p0, p1)
        case.equal(axes.others, [], "superfluous")
    case.nontrivial(p0.tobytes(), p1.tobytes())


def polygon(case):
    py, rng = case.py, case.rng
    n = py.randrange(3, 9)
    angles = np.sort(rng.uniform(0, 2 * np.pi, size=n))
    if np.min(np.diff(angles)) < 0.05:
        angles = np.linspace(0, 2 * np.pi, n, endpoint=False)
    v = np.column_stack([np.cos(angles), np.sin(angles)]) * py.uniform(0.5, 3) + rng.uniform(-2, 2, size=2)
    q = rng.uniform(-3, 3, size=2)
    obj = Polygon(v)
    case.note(vertices=v)
    for which in (0, 1):
        with figures.watching() as watch:
            obj.ShowPolygon() if which == 0 else obj.ShowLocationRelation(q)
            axes = only(case, watch)
            case.equal(plt.get_fignums(), [], "figure-open")
        same_points(case, axes.points, list(v) + ([q] if which else []), "vertices")
        got = sorted(sorted([tuple(np.round(a, 9)), tuple(np.round(b, 9))]) for a, b in axes.segments())
        want = sorted(sorted([tuple(np.round(v[k], 9)), tuple(np.round(v[(k + 1) % n], 9))]) for k in range(n))
        case.equal(len(got), n, "edges")
        case.check(np.allclose(np.array(got), np.array(want), atol=1e-8), "edges", (got, want))
        case.equal(axes.others, [], "superfluous")
    case.nontrivial(v.tobytes())


SKETCH = {
    "square": ([[0, 0]], [[1, 0], [0, 1]]),
    "triangle": ([[0, 0]], [[1, 0], [0.5, 3 ** 0.5 / 2]]),
    "honeycomb": ([[0, 0], [0, 3 ** -0.5]], [[1, 0], [0.5, 3 ** 0.5 / 2]]),
    "kagome": ([[0, 0], [0.25, 3 ** 0.5 / 4], [0.5, 0]], [[1, 0], [0.5, 3 ** 0.5 / 2]]),
}
NEIGHBOUR = {"square": 1.0, "triangle": 1.0, "honeycomb": 3 ** -0.5, "kagome": 0.5}


def command(case, which, n0, n1, kwargs):
    """The same from the command line."""
    py = case.py
    argv = [which]
    if (n0, n1) != (8, 8):
        argv += ["--scope", str(n0), str(n1)]
    for option, value in kwargs.items():
        if option in ("mc", "ms", "lc", "lw", "ls", "path", "name"):
            argv += ["--" + option, str(value)]
    argv += [py.choice(["-l", "--link"])] * kwargs["link"] + ["--trim"] * kwargs["trim"] + ["--nosave"] * (not kwargs["save"])
    path = os.path.join(os.environ["VP_REPO"], "HamiltonianPy", "tools", "Draw2DLattice.py")
    old = sys.argv
    sys.argv = [path] + argv
    try:
        runpy.run_path(path, run_name="__main__")
    except SystemExit as exc:
        case.fail("command-fails", (argv, exc))
    finally:
        sys.argv = old


def sketch(case):
    py = case.py
    full = py.choice(list(SKETCH))
    which = py.choice([full, full[0]])
    n0, n1 = py.randrange(0, 5), py.randrange(1, 5)
    wide = case.index % 40 == 23
    if wide:
        n0, n1 = {"kagome": (9, 14), "honeycomb": (12, 18)}.get(full, (18, 24))
        n0, n1 = py.randrange(n0, n1), py.randrange(n0, n1)
        case.obs("wide sketches")
    link, trim, save = wide or py.random() < 0.7, py.random() < 0.4, py.random() < 0.15
    kwargs = {"link": link, "trim": trim, "save": save}
    mc, lc = py.choice(["black", "red", "#123456"]), py.choice(["gray", "blue"])
    kwargs.update(mc=mc, lc=lc, ms=py.choice([6, 3.5]), lw=py.choice([2, 0.5]), ls=py.choice(["solid", "dashed"]))
    case.note(which=which, scope=(n0, n1), **kwargs)
    points, vectors = (np.array(x, dtype=float) for x in SKETCH[full])
    want = np.concatenate([points + i * vectors[0] + j * vectors[1] for i in range(-n0, n0 + 1) for j in range(-n1, n1 + 1)])
    with scratch() as folder, figures.watching() as watch:
        where = folder
        if save:
            mode = py.randrange(3)
            if mode == 1:
                where = folder / "new" / "place"
                kwargs["path"] = str(where)
            elif mode == 2:
                where = folder / "rel"
                kwargs["path"] = "rel"
            expected = full + ".pdf"
            if py.random() < 0.5:
                kwargs["name"] = py.choice(["drawing.png", "my.pdf", "a b.svg", "v1.2.png", "l.tif", "l.jpg", "l.eps", "plain",
                                            "size 3.pdf", "my.square.pdf"])
                expected = kwargs["name"] if kwargs["name"] != "plain" else "plain.png"
        if py.random() < 0.3:
            command(case, which, n0, n1, kwargs)
            case.obs("commands")
        else:
            Draw2DLattice.show(which, n0, n1, **kwargs)
        axes = only(case, watch)
        case.equal(plt.get_fignums(), [], "figure-open")
        files = [f for f in folder.rglob("*") if f.is_file()]
        if save:
            case.equal([f.resolve() for f in files], [(where / expected).resolve()], "file")
            case.check(files[0].stat().st_size > 500, "file-content")
            case.equal(len(watch.saved), 1, "saved")
            same_points(case, watch.saved[0][1][0].points, want, "saved-sites")
            case.obs("files")
        else:
            case.equal(files, [], "file")
    same_points(case, axes.points, want, "sites", (which, n0, n1))
    case.equal({m[2] for m in axes.markers}, {matplotlib.colors.to_rgba(mc)}, "site-colour")
    case.equal(set(axes.marker_sizes), {float(kwargs["ms"])}, "site-size")
    case.equal(axes.others + axes.texts, [], "superfluous")
    if link:
        d = np.linalg.norm(want[:, None] - want[None], axis=-1)
        i, j = np.nonzero(np.triu(np.abs(d - NEIGHBOUR[full]) < 1e-6, 1))
        ends = lambda p, q: np.concatenate(sorted([tuple(np.round(p, 7) + 0.0), tuple(np.round(q, 7) + 0.0)]))
        bonds = [ends(want[a], want[b]) for a, b in zip(i, j)]
        drawn = [ends(a, b) for a, b in axes.segments()]
        case.equal(len(drawn), len(bonds), "bonds", "number")
        case.run.oracle_calls += 1
        # rounding may order two end points differently: compare both ways round
        both = lambda rows: [np.concatenate([r[2:], r[:2]]) for r in rows] + list(rows)
        diff = figures.same_set(both(drawn), both(bonds), 1e-6)
        if diff:
            case.fail("bonds", diff)
        case.obs("bonds compared", len(bonds))
        case.equal({p[1] for p in axes.paths}, {matplotlib.colors.to_rgba(lc)}, "bond-colour")
        case.equal({float(p[2]) for p in axes.paths}, {float(kwargs["lw"])}, "bond-width")
    else:
        case.equal(axes.paths, [], "superfluous", "bonds")
    if trim:
        span = want.max(axis=0) - want.min(axis=0)
        case.check(axes.xlim[1] - axes.xlim[0] < span[0] * 0.6 + 1 and axes.ylim[1] - axes.ylim[0] < span[1] * 0.6 + 1, "not-trimmed",
                   (axes.xlim, axes.ylim, span))
        case.check(axes.xlim[0] < 0.2 and axes.xlim[1] > -0.2, "not-trimmed", "the middle is lost")
    else:
        inside(case, axes, want)
    case.nontrivial(which, n0, n1, link, trim, save)


def formulas(case):
    """Operators and terms."""
    py = case.py
    labels = gen.state_labels(py, 2)
    table = IndexTable(dict.fromkeys(SiteID(s) for s, _, _ in labels))
    (s0, p0, o0), (s1, p1, o1) = labels
    a, b = AoC(HP.CREATION, s0, p0, o0), AoC(HP.ANNIHILATION, s1, p1, o1)
    x, y = SpinOperator(py.choice("xyzpm"), s0), SpinOperator(py.choice("xyzpm"), s1)
    c = py.choice([1, 0.5, -2, 1j, 0.5 - 1j])
    kwargs = {}
    if py.random() < 0.4:
        kwargs["ndigits"] = py.randrange(0, 5)
    if py.random() < 0.3:
        kwargs["suppress_orbit"] = False
    if py.random() < 0.3:
        kwargs["spin_one_half"] = False
    for obj in (a, b, NumberOperator(s0, p0, o0), x, y):
        kw = dict(kwargs)
        if py.random() < 0.4:
            kw["site_index"] = py.choice([table, 3])
        want = obj.tolatex(**kw)
        with figures.watching(render=py.random() < 0.05) as watch:
            obj.show(**kw)
            axes = only(case, watch)
        case.equal([t[0] for t in axes.texts], [want], "formula-text")
        case.equal((axes.paths, axes.markers, axes.others), ([], [], []), "superfluous")
        case.obs("texts")
    for term in (ParticleTerm([a, b], coeff=c), SpinInteraction([x, y], coeff=c)):
        args = (table,) if py.random() < 0.5 else ()
        want = term.tolatex(*args, **kwargs)
        with figures.watching(render=py.random() < 0.05) as watch:
            term.show(*args, **kwargs)
            axes = only(case, watch)
        case.equal([t[0] for t in axes.texts], [want], "formula-text")
        case.obs("texts")
    case.note(labels=labels, coeff=c)
    case.nontrivial(labels, str(c))


def scripts(case):
    """The drawing scripts of the tools package."""
    with scratch() as folder, figures.watching() as watch, contextlib.redirect_stdout(io.StringIO()):
        module = ["HamiltonianPy.tools.BrillouinZone", "HamiltonianPy.tools.Octahedron"][case.index]
        path = os.path.join(os.environ["VP_REPO"], *module.split(".")) + ".py"
        if case.index == 1:
            runpy.run_path(path)
            files = [f.name for f in folder.iterdir()]
            case.equal(len(files), 1, "file", files)
            case.equal(plt.get_fignums(), [], "figure-open")
            case.equal(len(watch.shown), 1, "shown")
            case.obs("figures")
            case.nontrivial("octahedron")
            return
        runpy.run_path(path)
        axes = only(case, watch)
    A = np.array([[1.0, 0.0], [0.5, 3 ** 0.5 / 2]])
    B = 2 * np.pi * np.linalg.inv(A).T
    G = [i * B[0] + j * B[1] for i in (-1, 0, 1) for j in (-1, 0, 1)]
    six = sorted((g for g in G if 1e-9 < np.linalg.norm(g) < 7.3), key=lambda g: np.arctan2(g[1], g[0]))
    M = [g / 2 for g in six]
    K = [(six[k] + six[(k + 1) % 6]) / 3 for k in range(6)]
    same_points(case, axes.points, G + M + K, "zone-points")
    case.equal(sum("M" in t[0] for t in axes.texts), 6, "zone-labels")
    case.equal(sum("K" in t[0] for t in axes.texts), 6, "zone-labels")
    case.equal(len(axes.paths), 8, "bisectors")
    for xy, *_ in axes.paths:
        case.check(any(np.allclose((xy[0] + xy[1]) / 2, g / 2) and np.allclose(xy @ g, g @ g / 2) for g in G if np.linalg.norm(g) > 1e-9), "bisectors", xy)
        case.obs("bisectors")
    case.nontrivial("zone")


SECTIONS = [
    Section("lattice", lattice, 180, 3000),
    Section("zone", zone, 60, 1200),
    Section("line", line, 60, 1200),
    Section("polygon", polygon, 40, 800),
    Section("sketch", sketch, 150, 2500),
    Section("formulas", formulas, 30, 500),
    Section("refused", refused, 3, 20),
    Section("scripts", scripts, 2, 2, fixed=True),
]
