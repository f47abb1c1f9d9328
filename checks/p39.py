"""P39: the library leaves the process as it found it."""
import contextlib
import gc
import io
import json
import os
import pickle
import subprocess
import sys
import tempfile
import tracemalloc
from pathlib import Path

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

import HamiltonianPy as HP
from HamiltonianPy.averages import QuantumAverages, TotalSpinAverages
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.polygon import Polygon
from HamiltonianPy.tools import Draw2DLattice
from HamiltonianPy.tools.TotalSpin import TotalSpin
from HamiltonianPy.tools.PandC import Combination, Permutation
from HamiltonianPy.tools.colorprint import color_print, coloring
from HamiltonianPy.tools.runtimeenv import RunTimeEnv

from vlib import figures, process
from vlib.harness import Section, REPO, VERIF
from vlib.world import PARTS, World

PID = "P39"
RULE = ("numerical settings, random generators, working directory, environment, locale, signal handlers, hooks, streams, logging, "
        "warning filters, plot settings, figures, threads and open files are read before and after every query of the "
        "catalogue, figures, refused calls, run-time environments and the import in a new process, under default and unusual "
        "settings; allocated memory, objects and open files are read after batches of work on new objects; non-trivial "
        "when a state was compared after a call, or a series of batches was judged")
ASSUMPTIONS = ["a leak is growth of at least 40 bytes per call (30 kB per batch of worlds), one object per world, or one open file, in each of the last batches"]
MUST = {"states compared": 1500, "kinds of queries": 60, "batches": 24, "imports": 3, "figures": 12, "environments": 10,
        "refused calls": 60, "unusual settings": 20, "series": 35, "big calls": 100}

kinds = set()
MODULES = ["HamiltonianPy", "HamiltonianPy.averages", "HamiltonianPy.polygon", "HamiltonianPy.rotation3d", "HamiltonianPy.lattice",
           "HamiltonianPy.GreenFunction", "HamiltonianPy.quantumoperator", "HamiltonianPy.quantumoperator.matrixrepr",
           "HamiltonianPy.tools", "HamiltonianPy.tools.colorprint", "HamiltonianPy.tools.runtimeenv", "HamiltonianPy.tools.PandC",
           "HamiltonianPy.tools.TotalSpin", "HamiltonianPy.tools.Draw2DLattice", "HamiltonianPy.hilbertspace",
           "HamiltonianPy.lanczos", "HamiltonianPy.line2d", "HamiltonianPy.indextable", "HamiltonianPy.bond"]


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_WORK", "/tmp")) as folder:
        os.chdir(folder)
        try:
            yield Path(folder)
        finally:
            os.chdir(here)


@contextlib.contextmanager
def settings(case):
    """Unusual settings of the user."""
    py = case.py
    old = np.geterr(), np.get_printoptions()
    chosen = []
    rc = {}
    if py.random() < 0.5:
        np.seterr(all=py.choice(["ignore", "warn"]))
        chosen.append("errors")
    if py.random() < 0.5:
        np.set_printoptions(precision=py.choice([3, 12]), suppress=py.random() < 0.5, threshold=py.choice([5, 1000]))
        chosen.append("printing")
    if py.random() < 0.5:
        rc = {"lines.linewidth": 3.5, "savefig.dpi": 50, "figure.max_open_warning": 100, "font.size": 7}
        chosen.append("plots")
    if chosen:
        case.obs("unusual settings")
    with matplotlib.rc_context(rc):
        try:
            yield chosen
        finally:
            np.seterr(**old[0])
            np.set_printoptions(**old[1])


class Watch:
    """States around calls."""

    def __init__(self, case):
        self.case = case
        self.before = process.state()
        self.files = process.descriptors()

    def compare(self, name):
        after = process.state()
        diff = process.differences(self.before, after)
        # figures that were shown belong to the user
        if name == "figure" and "figures" in diff:
            diff.remove("figures")
        self.case.run.oracle_calls += len(after)
        if diff:
            self.case.fail("process-changed", "{0} changed {1}: {2} -> {3}".format(name, diff, self.before.get(diff[0]),
                                                                                  after.get(diff[0])))
        self.case.obs("states compared")

    def close(self, name):
        gc.collect()
        files = process.descriptors()
        # what the process opens for itself only once (fonts, random device) does not count
        new = {k: v for k, v in files.items() if k not in self.files and not v.startswith("/dev/") and not v.endswith(".ttf")}
        self.case.check(not new, "open-files", (name, new))


def calls(case):
    """Every query of the catalogue."""
    py = case.py
    parts = [PARTS[case.index % len(PARTS)], py.choice(PARTS)]
    seed = case.seed % (1 << 40)
    with settings(case) as chosen, scratch() as folder:
        case.note(parts=parts, settings=chosen)
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            watch = Watch(case)
            np.random.seed(case.index)
            watch = Watch(case)
            world = World(seed, parts)
            watch.compare("construction of {0}".format(parts))
            for name, query in world.queries:
                query()
                watch.compare(name)
                kinds.add(name)
            watch.close(parts)
        case.equal(list(folder.iterdir()), [], "files-written", parts)
        case.equal(out.getvalue(), "", "text-written", parts)
    case.run.observed["kinds of queries"] = len(kinds)
    case.nontrivial(parts, case.index)


def refusals(py):
    """Calls that have to fail."""
    site = (0.5, 1.0)
    lat = HP.lattice_generator("square", 2, 2)
    table = HP.IndexTable([HP.StateID(site)])
    bad = np.array([[1.0, 0], [2.0, 0]])
    return [
        ("getIndex", lambda: lat.getIndex([0.3, 0.1])), ("getIndex-fold", lambda: lat.getIndex([0.3, 0.1], fold=True)),
        ("table", lambda: table(HP.StateID((9, 9)))), ("table", lambda: table.query_object(77)),
        ("Lattice", lambda: HP.Lattice(np.zeros((2, 2)), np.eye(2))), ("Lattice", lambda: HP.Lattice(np.zeros((1, 2)), bad)),
        ("generator", lambda: HP.lattice_generator("nothing")), ("cluster", lambda: HP.special_cluster("nothing")),
        ("operator", lambda: HP.SpinOperator("q", site)), ("operator", lambda: HP.AoC(7, site)),
        ("matrix", lambda: HP.Creator(site).matrix_repr(table, np.array([0, 1], dtype=np.uint64), left_bases=np.array([0], dtype=np.uint64))),
        ("bases", lambda: HP.base_vectors((2, 5))), ("bases", lambda: HP.base_vectors(-1)),
        ("rotation", lambda: HP.RotationGeneral([0, 0, 0], 1.0)),
        ("krylov", lambda: HP.KrylovRepresentation(np.eye(3), {"a": np.ones(2)}, np.ones(2))),
        ("sketch", lambda: Draw2DLattice.show("nothing", 1, 1, save=False)),
        ("zone", lambda: HP.ShowFirstBZ(np.eye(3))),
        ("product", lambda: HP.Creator(site) * "x"), ("order", lambda: HP.Creator(site) < "x"),
    ]


def big(py):
    """Calls of more than the usual size."""
    n, m = py.choice([(14, 7), (13, 6), (16, 4), (12, 6)])
    space = SimpleHilbertSpace(n, m)
    kets = HP.base_vectors((n, m))
    sites = [(k,) for k in range(n)]
    table = HP.IndexTable(HP.StateID(p) for p in sites)
    lat = HP.lattice_generator("square", py.randrange(7, 11), py.randrange(7, 11))
    spins = HP.IndexTable(HP.SiteID((k,)) for k in range(9))
    rng = np.random.default_rng(py.randrange(1 << 30))
    H = rng.normal(size=(300, 300))
    H = H + H.T
    v = rng.normal(size=300)
    A = HP.Annihilator((0,))
    kpoints = [np.array([0.0, 0.0]), np.array([py.random(), 1.0]), np.array([1.0, 0.0])]
    hop = HP.HoppingFactory((0,), (n - 1,))
    corr = HP.ParticleTerm([A.dagger(), HP.Creator((2,)), HP.Annihilator((1,)), HP.Annihilator((3,))])
    return [
        ("space", lambda: (space.base_vectors(), space(container="list", sort=False))),
        ("free space", lambda: HP.base_vectors(13)),
        ("product space", lambda: HilbertSpace([list(range(0, 14, 2)), 3], [list(range(1, 14, 2)), 3]).base_vectors()),
        ("hopping", lambda: hop.matrix_repr(table, kets)),
        ("general", lambda: corr.matrix_repr(table, kets)),
        ("annihilator", lambda: A.matrix_repr(table, kets, left_bases=HP.base_vectors((n, m - 1)))),
        ("number", lambda: HP.CPFactory((1,)).matrix_repr(table, kets)),
        ("Coulomb", lambda: HP.CoulombFactory((1,), (2,)).matrix_repr(table, kets)),
        ("bonds", lambda: lat.bonds(py.randrange(1, 4))),
        ("distances", lambda: lat.neighbor_distance(py.randrange(8, 15))),
        ("folding", lambda: lat.decompose(lat.points[3] + lat.vectors[0] * 40)),
        ("index", lambda: [lat.getIndex(p) for p in lat.points]),
        ("text", lambda: str(lat)),
        ("path", lambda: HP.KPath(kpoints, min_num=5000)),
        ("interaction", lambda: HP.SpinInteraction([HP.SpinOperator("x", (k,)) for k in range(9)]).matrix_repr(spins)),
        ("total spin", lambda: TotalSpin(10)),
        ("Lanczos", lambda: HP.KrylovRepresentation(H, {"v": v}, v, krylov_space_dim=250)),
        ("direct", lambda: HP.GFSolverExactMultiple(np.linspace(-1, 1, 3), [A], [A.dagger()], 0.0, H, {A.dagger(): v})),
        ("averages", lambda: TotalSpinAverages(10)(np.ones(1 << 10) / 32.0)),
        ("counting", lambda: (Combination(3000, 1500), Permutation(2000, 1999))),
        ("polygon", lambda: [Polygon([[np.cos(t), np.sin(t)] for t in np.arange(300) * np.pi / 150]).LocationRelation(
            (0.1 * k, 0.2), (0, 0)) for k in range(12)]),
        ("line", lambda: HP.Line2D((0, 0), (1, 2)).PointsFactory(np.linspace(0, 1, 20000))),
        ("colours", lambda: coloring("x" * 100000, fg="red")),
    ]


def others(case):
    """Figures, environments, coloured text and refused calls."""
    py = case.py
    kind = ["figure", "environment", "refused", "text", "big"][case.index % 5]
    with settings(case) as chosen, scratch() as folder:
        case.note(kind=kind, settings=chosen)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            watch = Watch(case)
            if kind == "figure":
                with figures.watching() as seen:
                    mine = plt.figure() if py.random() < 0.4 else None
                    watch = Watch(case)
                    lat = HP.lattice_generator(py.choice(["square", "kagome", "chain"]), py.randrange(1, 3), 1)
                    jobs = [lambda: lat.show(scope=py.randrange(2), savefig=True),
                            lambda: HP.Line2D((0, 0), (1, py.uniform(-1, 1))).ShowLine(),
                            lambda: HP.ShowFirstBZ(lat.vectors) if lat.trans_dim == 2 else None,
                            lambda: HP.Creator((0, 0)).show(), lambda: HP.HoppingFactory((0, 0), (1, 1)).show()]
                    if mine is None:
                        jobs.append(lambda: Draw2DLattice.show("h", 1, 1, save=py.random() < 0.5, name="x.png"))
                    job = py.choice(jobs)
                    job()
                    case.obs("figures")
                    # figures that were shown belong to the user, others are to be closed
                    watch.compare("figure" if seen.shown else "saved figure")
            elif kind == "environment":
                for _ in range(py.randrange(1, 4)):
                    try:
                        with RunTimeEnv(path=str(folder / "logs"), rd=py.random() < 0.6):
                            print("inside")
                            if py.random() < 0.5:
                                raise KeyError("inside")
                    except KeyError:
                        pass
                    case.obs("environments")
                    watch.compare("environment")
            elif kind == "big":
                jobs = big(py)
                for name, call in py.sample(jobs, min(len(jobs), 8)):
                    call()
                    case.obs("big calls")
                    watch.compare("big " + name)
            elif kind == "text":
                for scheme, color in ((4, "red"), (8, 17), (24, (1, 2, 3))):
                    color_print("text", fg=color, color_scheme=scheme)
                    watch.compare("text")
            else:
                with figures.watching():
                    for name, call in refusals(py):
                        try:
                            call()
                        except Exception:
                            case.obs("refused calls")
                        if name == "sketch":
                            continue
                        watch.compare("refused " + name)
            watch.close(kind)
            plt.close("all")
    case.nontrivial(kind, case.index)


def imports(case):
    """The import in a new process."""
    py = case.py
    modules = py.sample(MODULES, len(MODULES))
    if case.index % 2:
        modules = ["HamiltonianPy"] + modules
    with scratch() as folder:
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([VERIF, REPO]))
        res = subprocess.run([sys.executable, "-c", "import checks.p39_import", json.dumps(modules)], env=env, cwd=folder,
                             capture_output=True, timeout=300)
        case.note(modules=modules)
        case.equal(res.returncode, 0, "import-fails", res.stderr[-800:])
        diff, files, written, names = pickle.loads(res.stdout)
        case.equal(diff, [], "import-changes-process", modules)
        case.equal(files, [], "import-opens-files", modules)
        case.equal(written, "", "import-prints", modules)
        case.equal(res.stderr.decode(), "", "import-prints", modules)
        case.equal(list(folder.iterdir()), [], "import-writes-files", modules)
        for name, missing in names:
            case.equal(missing, [], "missing-names", name)
    case.obs("imports")
    case.nontrivial(modules)


def memory(case):
    """Nothing accumulates in long series of work on new objects."""
    py = case.py
    part = PARTS[case.index % len(PARTS)] if case.index < len(PARTS) else "figures"
    count = {"figures": 8, "lattice": 6, "spins": 20, "tools": 20}.get(part, 40)
    limit = 30000
    batches = 5 if case.tier == "quick" else 14
    case.note(part=part)

    def work(k):
        if part == "figures":
            with figures.watching(), contextlib.redirect_stdout(io.StringIO()):
                lat = HP.lattice_generator("square", 1 + k % 2, 1 + k % 3)
                # (what matplotlib itself keeps for every saved figure would be seen here)
                lat.show(scope=1)
                Draw2DLattice.show("h", 1, 1, save=False)
                HP.Line2D((0, 0), (1, k)).ShowLine()
                HP.Creator((0, k)).show()
                with RunTimeEnv(path="logs{0}".format(k), rd=True):
                    print(k)
        else:
            world = World((case.seed + k) % (1 << 40), [part])
            for name, query in world.queries:
                query()

    judge(case, part, work, count, batches, limit)
    case.nontrivial(part, case.index)


def judge(case, name, work, count, batches, limit):
    seen = []
    with scratch():
        for k in range(count):
            work(k)
        gc.collect()
        gc.freeze()
        tracemalloc.start()
        try:
            for b in range(batches):
                for k in range(count):
                    work(count * (b + 1) + k)
                gc.collect()
                seen.append((tracemalloc.get_traced_memory()[0], len(gc.get_objects()), len(process.descriptors())))
                case.obs("batches")
        finally:
            tracemalloc.stop()
            gc.unfreeze()
    growth = np.diff(np.array(seen), axis=0)[-4:]
    case.note(growth=growth.tolist())
    case.peak("bytes kept per batch", int(growth[:, 0].min()))
    case.check(growth[:, 0].min() < limit, "memory-grows", (name, seen))
    case.check(growth[:, 1].min() < count, "objects-accumulate", (name, seen))
    case.check(growth[:, 2].min() < 1, "open-files-accumulate", (name, seen))


def operations(case):
    """Single calls on new arguments: name -> function of the number of the call."""
    x = lambda k: (k * 0.37 + 0.001, -k * 1.1)      # noqa: E731
    y = lambda k: (k * 0.37 + 1.5, -k * 1.1 + 0.25)     # noqa: E731
    two = np.arange(4, dtype=np.uint64)
    table = lambda k: HP.IndexTable([HP.StateID(x(k)), HP.StateID(y(k))])      # noqa: E731
    def lattice(k):
        return HP.Lattice(np.array([x(k), y(k)]), np.array([[3.0, 0.1], [0.2, 4 + k * 0.001]]))

    def far(k):
        # near the cell of the same number
        return np.array([x(k), y(k)][k % 2]) + np.array([k % 3 - 1, k % 2]) @ np.array([[3.0, 0.1], [0.2, 4 + k * 0.001]])

    square = np.array([[0, 0], [1, 0], [1, 1], [0, 1.0]])

    def environment(k):
        with RunTimeEnv():
            return k

    def refused(call):
        try:
            call()
        except (KeyError, ValueError, TypeError, RuntimeError, AssertionError):
            return
    return {
        "Lattice": lambda k: HP.Lattice(np.array([x(k), y(k)]), np.array([[3.0, 0.1 * (k % 7)], [0.2, 4 + k * 0.01]])),
        "lattice_generator": lambda k: HP.lattice_generator("kagome", 1 + k % 3, 1 + k % 2),
        "special_cluster": lambda k: HP.special_cluster("cross"),
        "neighbor_distance": lambda k: HP.Lattice(np.array([x(k)]), np.array([[1.0, 0.0], [0.3, 1 + k * 0.001]])).neighbor_distance(2),
        "bonds": lambda k: HP.Lattice(np.array([x(k)]), np.array([[1.0, 0.0], [0.3, 1 + k * 0.001]])).bonds(1),
        "getIndex": lambda k: lattice(k).getIndex(far(k), fold=True),
        "decompose": lambda k: lattice(k).decompose(far(k)),
        "in_cluster": lambda k: lattice(k).in_cluster(far(k)),
        "Bond": lambda k: (HP.Bond(x(k), y(k)).flip(), HP.Bond(x(k), y(k)).getAzimuth(), HP.Bond(x(k), y(k)).getLength()),
        "SiteID": lambda k: (hash(HP.SiteID(x(k))), repr(HP.SiteID(y(k)))),
        "StateID": lambda k: (hash(HP.StateID(x(k), spin=1)), HP.StateID(y(k)).tolatex()),
        "AoC": lambda k: (HP.Creator(x(k)).dagger(), hash(HP.Annihilator(y(k))), HP.Creator(x(k)).tolatex()),
        "operator matrix": lambda k: HP.Creator(x(k)).matrix_repr(table(k), two),
        "NumberOperator": lambda k: HP.NumberOperator(x(k)).toterm(),
        "SpinOperator": lambda k: (HP.SpinOperator("p", x(k)).dagger(), HP.SpinOperator("x", x(k)).matrix(),
                                   HP.SpinOperator("z", y(k)).Schwinger()),
        "HoppingFactory": lambda k: HP.HoppingFactory(x(k), y(k), coeff=k + 0.5).dagger(),
        "CoulombFactory": lambda k: HP.CoulombFactory(x(k), y(k), coeff=k + 0.5).tolatex(),
        "HeisenbergFactory": lambda k: HP.HeisenbergFactory(x(k), y(k), coeff=k + 0.5),
        "term product": lambda k: HP.HoppingFactory(x(k), y(k)) * HP.PairingFactory(y(k), x(k)),
        "term matrix": lambda k: HP.HoppingFactory(x(k), y(k), coeff=k).matrix_repr(table(k), two),
        "normalize": lambda k: HP.ParticleTerm.normalize([HP.Annihilator(x(k)), HP.Creator(y(k)), HP.Creator((k, k))]),
        "spin matrix": lambda k: HP.SpinOperator("p", x(k)).matrix_repr(HP.IndexTable([HP.SiteID(x(k)), HP.SiteID(y(k))])),
        "spin function": lambda k: HP.SpinInteraction.matrix_function([(0, "x"), (1, "y")], 2, k + 0.5),
        "IndexTable": lambda k: (table(k)(HP.StateID(x(k))), list(table(k).objects()), str(table(k))),
        "base_vectors": lambda k: HP.base_vectors([[k + 1 & 15, 20 + (k & 31), 17], 1]),
        "HilbertSpace": lambda k: HilbertSpace([[k & 15, 20 + (k & 31), 17], 2], [[18, 19], -1]).base_vectors(),
        "krylov": lambda k: HP.MultiKrylov(np.diag([1.0, 2.0 + k]), {"a": np.array([1.0, k + 1])}),
        "green": lambda k: HP.GFSolverExactSingle(
            0.1 * k, HP.Creator(x(k)), HP.Annihilator(x(k)), 0.0, np.diag([1.0, 2.0]),
            {HP.Annihilator(x(k)): np.array([1.0, k])}, eta=0.1),
        "averages": lambda k: (TotalSpinAverages(2)(np.array([1.0, k, 0, 1])), QuantumAverages(np.array([1.0, k]), np.eye(2))),
        "rotation": lambda k: (HP.RotationGeneral([1.0, k, 2], 0.1 * k), HP.RotationX(0.1 * k), HP.RotationEuler(k, 2, 3, deg=True)),
        "KPath": lambda k: HP.KPath([np.array(x(k)), np.array(y(k))], min_num=3),
        "Line2D": lambda k: HP.Line2D(x(k), y(k)).LocationRelation((0.5, k)),
        "Polygon": lambda k: Polygon(square + k).LocationRelation((0.5, 0.25), (k + 0.5, k + 0.5)),
        "counting": lambda k: (Combination(k % 300 + 3, 2), Permutation(k % 300 + 3, 2, repeat=True)),
        "coloring": lambda k: coloring("text {0}".format(k), fg=(k % 256, 1, 2), color_scheme=24),
        "environment": environment,
        "refused": lambda k: (refused(lambda: lattice(k).getIndex(far(k) + 0.123, fold=True)), refused(lambda: HP.AoC(7, x(k))),
                              refused(lambda: table(k)(HP.StateID((k, k, k)))), refused(lambda: HP.SpinOperator("q", x(k)))),
    }


def series(case):
    ops = operations(case)
    names = sorted(ops)
    for name in names[case.index % 4::4]:
        case.note(name=name)
        count = 60 if name == "averages" else 300
        judge(case, name, ops[name], count, 5, max(40 * count, 6000))
        case.obs("series")
        case.nontrivial(name, case.index)


SECTIONS = [
    Section("calls", calls, 60, 1500),
    Section("others", others, 100, 1500),
    Section("imports", imports, 4, 20),
    Section("memory", memory, 11, 33),
    Section("series", series, 4, 24),
]
