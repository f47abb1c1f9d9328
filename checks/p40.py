"""P40: the same program gives the same answers under all run-time conditions."""
import concurrent.futures
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from HamiltonianPy import Lattice       # noqa: F401

from vlib import harness
from vlib.harness import Section
from vlib.world import PARTS, World, canon, same

PID = "P40"
RULE = ("programs over the catalogue of queries of all modules (including the order of the returned lists) are run in "
        "processes with other hash seeds, interpreter options (-O, -OO, -X dev, -b, -s, -B), orders of imports, working directories, "
        "places and names of the folder of the package, locales, environments, garbage collector settings, numerical error settings, in "
        "threads, in forked processes and after other work; every answer is compared with the one of this process; "
        "non-trivial when every program of the process was compared")
ASSUMPTIONS = ["answers are compared up to 1e-8", "the order of returned lists is compared between processes of one build"]
MUST = {"processes": 36, "answers compared": 2500, "interpreter options": 8, "forked": 2, "threads": 2, "after other work": 2,
        "moved packages": 8, "environments": 20, "raising on numerical errors": 4, "kinds of queries": 60, "orders of imports": 20}

MODULES = ["HamiltonianPy", "HamiltonianPy.averages", "HamiltonianPy.polygon", "HamiltonianPy.rotation3d", "HamiltonianPy.lattice",
           "HamiltonianPy.GreenFunction", "HamiltonianPy.quantumoperator", "HamiltonianPy.quantumoperator.matrixrepr",
           "HamiltonianPy.quantumoperator.factory", "HamiltonianPy.quantumoperator.spinsystem",
           "HamiltonianPy.tools", "HamiltonianPy.tools.colorprint", "HamiltonianPy.tools.PandC", "HamiltonianPy.tools.TotalSpin",
           "HamiltonianPy.hilbertspace", "HamiltonianPy.lanczos", "HamiltonianPy.line2d", "HamiltonianPy.indextable",
           "HamiltonianPy.bond"]
OPTIONS = [[], [], ["-O"], ["-OO"], ["-O"], ["-X", "dev"], ["-s"], ["-X", "utf8=1"], ["-b"], ["-W", "ignore"], ["-OO", "-B"]]
PLACES = ["main", "main", "main", "thread", "second", "fork"]
ENVIRONMENTS = [
    {}, {"LC_ALL": "C", "LANG": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"}, {"TZ": "Asia/Tokyo", "COLUMNS": "20", "LINES": "5"},
    {"TERM": "dumb", "NO_COLOR": "1"}, {"TERM": "xterm-256color", "FORCE_COLOR": "1", "COLORTERM": "truecolor"},
    {"PYTHONIOENCODING": "ascii"}, {"OMP_NUM_THREADS": "2", "NUMBA_NUM_THREADS": "3", "OPENBLAS_NUM_THREADS": "2"},
    {"HOME": None, "USER": None, "LOGNAME": None}, {"PYTHONDEVMODE": "1"}, {"PYTHONMALLOC": "malloc"}, {"PYTHONMALLOC": "debug"},
    {"MALLOC_PERTURB_": "165"}, {"PYTHONUNBUFFERED": "1"}, {"MPLBACKEND": "svg"}, {"PYTHONINTMAXSTRDIGITS": "640"},
]
kinds = set()
PACKAGE = {}


def package(kind):
    """Where the package is found: as it is, copied or linked elsewhere."""
    if kind == "as it is":
        return harness.REPO
    if kind not in PACKAGE:
        root = tempfile.mkdtemp(prefix="place ", dir=os.environ.get("VP_WORK", "/tmp"))
        source, target = os.path.join(harness.REPO, "HamiltonianPy"), os.path.join(root, "HamiltonianPy")
        if kind == "copied":
            shutil.copytree(source, target, ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "doc", "tests"))
        else:
            os.symlink(source, target)
        PACKAGE[kind] = root
    return PACKAGE[kind]


def job_of(py, case):
    job = {"place": py.choice(PLACES), "first": py.sample(MODULES, py.randrange(0, 5)),
           "gc": py.choice(["", "", "stress", "off"]),
           "seterr": py.choice([None, None, {"all": "ignore"}, {"divide": "raise", "invalid": "raise", "over": "raise"}]),
           "programs": [], "before": []}
    for _ in range(3 if job["gc"] == "stress" else 4):
        job["programs"].append([py.getrandbits(40), py.sample(PARTS, 2)])
    if job["place"] in ("second", "fork"):
        job["before"] = [[py.getrandbits(40), py.sample(PARTS, 3)] for _ in range(2)] + job["programs"][:1]
        py.shuffle(job["before"])
    options = list(py.choice(OPTIONS))
    env = dict(os.environ)
    extra = py.choice(ENVIRONMENTS)
    for key, value in extra.items():
        env.pop(key, None)
        if value is not None:
            env[key] = value
    env["PYTHONHASHSEED"] = str(py.choice([0, 1, py.getrandbits(32)]))
    kind = py.choice(["as it is", "as it is", "copied", "linked"])
    env["PYTHONPATH"] = os.pathsep.join([package(kind), harness.VERIF])
    return job, options, env, extra, kind


def launch(job, options, env, place):
    """
    A process ended by a signal is started again: what the library does would
    end it again, a hiccup of the interpreter or of the machine would not.
    """
    for _ in range(3):
        res = attempt(job, options, env, place)
        if res[0] is None or res[0] >= 0:
            break
    return res


def attempt(job, options, env, place):
    if os.path.exists(job["out"]):
        os.remove(job["out"])
    try:
        done = subprocess.run([sys.executable] + options + [os.path.join(harness.VERIF, "checks", "p40_child.py"), json.dumps(job)],
                              env=env, cwd=place, capture_output=True, text=True, timeout=600, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return None, "no answer in 600 s", None
    result = None
    if os.path.exists(job["out"]):
        with open(job["out"], "rb") as f:
            result = pickle.load(f)
    return done.returncode, done.stderr[-1500:], result


def mine(seed, parts):
    world = World(seed, parts)
    res = [(name, canon(query())) for name, query in world.queries]
    if hasattr(world, "lat"):
        for nth in (1, 2):
            for bonds in world.lat.bonds(nth):
                res.append(("order of bonds", canon(list(bonds))))
    return res


def processes(case):
    py = case.py
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_WORK", "/tmp")) as folder:
        jobs = []
        for k in range(6):
            job, options, env, extra, kind = job_of(py, case)
            job["out"] = os.path.join(folder, "answers{0}".format(k))
            place = py.choice([folder, "/", os.path.join(harness.REPO, "HamiltonianPy", "doc"), harness.VERIF])
            place = place if os.path.isdir(place) else folder
            jobs.append((job, options, env, extra, kind, place))
        with concurrent.futures.ThreadPoolExecutor(5) as pool:
            pending = [pool.submit(launch, job, options, env, place) for job, options, env, _, _, place in jobs]
            # this process works at the same time
            wanted = [[mine(seed, parts) for seed, parts in job["programs"]] for job, *_ in jobs]
            results = [p.result() for p in pending]
    for (job, options, env, extra, kind, place), want, (code, err, result) in zip(jobs, wanted, results):
        case.note(job=job, options=options, environment=extra, hashseed=env["PYTHONHASHSEED"], package=kind, cwd=place)
        case.check(code == 0 and result is not None, "process-fails", (code, err))
        where, status, theirs = result
        case.check(status == "ok", "process-fails", theirs)
        case.equal(os.path.realpath(where), os.path.realpath(os.path.join(package(kind), "HamiltonianPy")), "other package")
        for own, other in zip(want, theirs):
            case.equal([n for n, _ in other], [n for n, _ in own], "catalogue")
            for (name, a), (_, b) in zip(own, other):
                case.check(same(a, b), "answer-differs", lambda: "{0}: {1} here, {2} there".format(name, a, b))
                case.obs("answers compared")
                if name not in kinds:
                    kinds.add(name)
                    case.obs("kinds of queries")
        case.equal(len(theirs), len(want), "catalogue")
        case.obs("processes")
        case.obs("interpreter options", bool(options))
        case.obs("forked", job["place"] == "fork")
        case.obs("threads", job["place"] == "thread")
        case.obs("after other work", job["place"] == "second")
        case.obs("moved packages", kind != "as it is")
        case.obs("environments", bool(extra))
        case.obs("orders of imports", bool(job["first"]))
        case.obs("raising on numerical errors", bool(job["seterr"]) and "divide" in job["seterr"])
        case.nontrivial(job["place"], options, sorted(extra), kind, env["PYTHONHASHSEED"], len(job["first"]), job["gc"])


SECTIONS = [
    Section("processes", processes, 6, 150),
]
