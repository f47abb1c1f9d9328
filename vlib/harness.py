"""
Runtime-monitoring harness.

A check is a module checks/pNN.py with
    PID, RULE, ASSUMPTIONS (optional list), MUST (counter -> minimum)
    SECTIONS = [Section(name, function, quick, thorough), ...]
Each section function is called with a Case, whose random generators depend
only on (VERIF_SEED, section name, index), drives the real code of
HamiltonianPy and lets oracles observe what it does.  A failed oracle, an
exception that the section does not expect, a crash of the interpreter or a
case that makes no progress is a violation.

The process that runs the cases is a child; the supervisor only watches it, so
that a crash or an endless loop inside compiled code is observed as well.
"""
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.environ.get("VP_VERIF", "/verif")
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.environ.get("VP_OUT", os.path.join(VERIF, "evidence"))
CASE_CPU_LIMIT = 120      # CPU seconds one case may use without ending
QUICK_WALL = 240          # soft limits: no new case is started after them
THOROUGH_WALL = 3000
HARD_CPU = {"quick": 800, "thorough": 7200}


class OracleFailed(Exception):
    def __init__(self, mechanism, message):
        super().__init__(mechanism, message)
        self.mechanism = mechanism
        self.message = message


class Skip(Exception):
    """The generated case does not fit the preconditions."""


class Section:
    def __init__(self, name, func, quick, thorough, fixed=False):
        self.name = name
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.fixed = fixed        # deterministic (enumerated) section


def _short(obj, limit=400):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + "..."


class Case:
    def __init__(self, run, section, index):
        import numpy as np
        self.run = run
        self.section = section
        self.index = index
        digest = hashlib.sha256(
            "{0}|{1}|{2}|{3}".format(run.pid, run.seed, section, index).encode()
        ).digest()
        self.seed = int.from_bytes(digest[:8], "little")
        self.rng = np.random.default_rng(self.seed)
        self.py = random.Random(self.seed)
        self.tier = run.tier
        self.info = {}

    # ------------------------------------------------------------ recording
    def obs(self, name, n=1):
        """Count monitor events."""
        self.run.observed[name] = self.run.observed.get(name, 0) + int(n)

    def peak(self, name, value):
        old = self.run.peaks.get(name)
        if old is None or value > old:
            self.run.peaks[name] = value

    def nontrivial(self, *key):
        self.run.keys.add(hashlib.md5(repr((self.section,) + key).encode()).hexdigest())

    def note(self, **kwargs):
        """Describe the case (for replays, samples and messages)."""
        self.info.update({k: _short(v) for k, v in kwargs.items()})

    # -------------------------------------------------------------- oracles
    def fail(self, mechanism, message=""):
        raise OracleFailed(mechanism, message)

    def check(self, condition, mechanism, message=""):
        self.run.oracle_calls += 1
        if not condition:
            if callable(message):
                message = message()
            raise OracleFailed(mechanism, message)

    def equal(self, got, want, mechanism, message=""):
        self.run.oracle_calls += 1
        if not got == want:
            raise OracleFailed(mechanism, "{0} got={1} want={2}".format(
                message, _short(got), _short(want)))

    def close(self, got, want, mechanism, message="", atol=1e-10, rtol=1e-10):
        import numpy as np
        self.run.oracle_calls += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise OracleFailed(mechanism, "{0} shapes differ: {1} != {2}".format(
                message, got.shape, want.shape))
        if got.size == 0:
            return
        if not np.allclose(got, want, atol=atol, rtol=rtol):
            diff = np.abs(got - want)
            where = np.unravel_index(np.argmax(np.nan_to_num(diff, nan=np.inf)), diff.shape) if diff.shape else ()
            raise OracleFailed(mechanism, "{0} max deviation {1} at {2}: got={3} want={4}".format(
                message, np.max(diff), tuple(int(w) for w in where), _short(got[where]), _short(want[where])))

    def raises(self, exceptions, func, mechanism, message=""):
        """func must be refused with one of `exceptions`."""
        self.run.oracle_calls += 1
        self.obs("refusals observed")
        try:
            res = func()
        except exceptions:
            return
        except NoProgress:
            raise
        except Exception as exc:
            raise OracleFailed(mechanism, "{0}: refused with {1!r} instead of {2}".format(
                message, exc, exceptions))
        raise OracleFailed(mechanism, "{0}: accepted, returned {1}".format(message, _short(res)))


class NoProgress(BaseException):
    pass


def _on_cpu(signum, frame):
    raise NoProgress()


# -------------------------------------------------------- execution coverage
class Coverage:
    """Functions and lines of the repository that the workload executed."""

    def __init__(self):
        self.lines = {}
        self.calls = {}
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        root = os.path.join(REPO, "HamiltonianPy") + os.sep
        tests = os.path.join(root, "tests")
        tool = 3
        try:
            mon.use_tool_id(tool, "vp-coverage")
        except ValueError:
            return
        lines = self.lines
        calls = self.calls

        def on_line(code, line):
            name = code.co_filename
            if name.startswith(root) and not name.startswith(tests):
                lines.setdefault(name[len(root):], set()).add(line)
            return mon.DISABLE

        def on_start(code, offset):
            name = code.co_filename
            if not name.startswith(root):
                return mon.DISABLE
            key = (name[len(root):], code.co_qualname)
            calls[key] = calls.get(key, 0) + 1

        ev = mon.events
        mon.register_callback(tool, ev.LINE, on_line)
        mon.register_callback(tool, ev.PY_START, on_start)
        mon.set_events(tool, ev.LINE | ev.PY_START)
        self.on = True

    def summary(self, top=25):
        calls = sorted(
            ((n, "{0}:{1}".format(*k)) for k, n in self.calls.items() if "<module>" not in k[1] and "<" not in k[1]),
            reverse=True,
        )
        return {
            "repo_lines_executed": {k: len(v) for k, v in sorted(self.lines.items())},
            "repo_function_calls_observed": sum(n for n, _ in calls),
            "busiest_functions": {name: n for n, name in calls[:top]},
        }


# ----------------------------------------------------------------- the run
class Run:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.observed = {}
        self.peaks = {}
        self.keys = set()
        self.oracle_calls = 0
        self.evaluations = 0
        self.skipped = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.section_counts = {}
        self.truncated = []


def known_findings():
    res = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                fields = dict(
                    f.split("=", 1) for f in line.split()[1:3] if "=" in f
                )
                res.append((fields.get("property"), fields.get("mechanism"), line))
    return res


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


def parse(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = list(argv[1:])
    while rest:
        arg = rest.pop(0)
        if arg in ("quick", "thorough"):
            tier = arg
        elif arg == "--replay":
            replay = rest.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if replay:
        data = json.load(open(replay))
        seed, tier = data["seed"], data["tier"]
        replay = (data["section"], data["index"])
    return pid, tier, seed, replay


def write_replay(pid, tier, seed, section, index, mechanism, message, info=None, tb=""):
    folder = os.path.join(OUT, "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "{0}-{1}-{2}.json".format(pid, section, index).replace(" ", "_"))
    with open(path, "w") as fp:
        json.dump({
            "property": pid, "tier": tier, "seed": seed, "section": section,
            "index": index, "mechanism": mechanism, "message": message,
            "case": info or {}, "traceback": tb,
            "how": "VERIF_SEED={0} ./run.sh {1} {2} --replay {3}".format(seed, pid, tier, path),
        }, fp, indent=1, default=repr)
    return path


class Status:
    """Progress of the child, readable by the supervisor after a crash."""

    def __init__(self):
        self.map = mmap.mmap(-1, 512)

    def put(self, section, index, cpu):
        data = section.encode()[:200]
        self.map.seek(0)
        self.map.write(struct.pack("<qdI", index, cpu, len(data)) + data)

    def get(self):
        self.map.seek(0)
        index, cpu, n = struct.unpack("<qdI", self.map.read(20))
        return self.map.read(n).decode(), index, cpu


def run_child(pid, tier, seed, replay, status):
    t_start = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    limit = 16 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    signal.signal(signal.SIGPROF, _on_cpu)
    run = Run(pid, tier, seed)
    status.put("import", 0, time.process_time())
    cov = Coverage()
    cov.start()
    try:
        mod = load_check(pid)
    except Exception as exc:
        tb = traceback.format_exc()
        path = write_replay(pid, tier, seed, "import", 0, "import-failed", repr(exc), tb=tb)
        sys.stderr.write(tb)
        print("VIOLATION property={0} replay={1}".format(pid, path))
        return 1
    wall = getattr(mod, "WALL", {}).get(tier, QUICK_WALL if tier == "quick" else THOROUGH_WALL)
    stop = False
    reached_limit = False
    for section in mod.SECTIONS:
        total = section.quick if tier == "quick" else section.thorough
        indices = range(total)
        if replay:
            if section.name != replay[0]:
                continue
            indices = [replay[1]]
        done = 0
        bad_here = 0
        for index in indices:
            if time.time() - t_start > wall:
                run.truncated.append("{0}: {1} of {2}".format(section.name, done, total))
                reached_limit = True
                break
            case = Case(run, section.name, index)
            status.put(section.name, index, time.process_time())
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
            failure = None
            tb = ""
            try:
                section.func(case)
            except Skip:
                run.skipped += 1
            except OracleFailed as exc:
                failure = (str(exc.mechanism), _short(exc.message, 4000))
                tb = traceback.format_exc()
            except NoProgress:
                failure = ("no-progress", "the case used more than {0} s of CPU time".format(CASE_CPU_LIMIT))
                tb = traceback.format_exc()
            except Exception as exc:
                failure = ("unexpected-{0}".format(type(exc).__name__), repr(exc))
                tb = traceback.format_exc()
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            done += 1
            run.evaluations += 1
            if failure is None:
                if case.info and len(run.samples) < 40 and (done <= 2 or index % 97 == 0):
                    run.samples.append({"section": section.name, "index": index, **case.info})
            else:
                mechanism = "{0}:{1}".format(section.name, failure[0])
                finding = [f for f in known_findings() if f[0] == pid and f[1] == mechanism]
                if finding:
                    run.known_hits.append((mechanism, finding[0][2]))
                    continue
                path = write_replay(pid, tier, seed, section.name, index, mechanism, failure[1], case.info, tb)
                run.violations.append((mechanism, failure[1], path))
                bad_here += 1
                sys.stderr.write("[{0}] {1} case {2}: {3}: {4}\n{5}".format(
                    pid, section.name, index, failure[0], failure[1],
                    "".join("    {0} = {1}\n".format(k, v) for k, v in case.info.items())))
                sys.stderr.write(tb[-1500:] + "\n")
                if bad_here >= 3 or failure[0] == "no-progress":
                    break
        run.section_counts[section.name] = done
        if run.violations and len(run.violations) >= 6:
            break
        if reached_limit and tier == "quick" and run.violations:
            break
    status.put("report", 0, time.process_time())
    return report(run, mod, cov, time.time() - t_start, replay)


def report(run, mod, cov, wall_s, replay):
    missing = []
    if not replay and not run.violations:
        for name, minimum in getattr(mod, "MUST", {}).items():
            if run.observed.get(name, 0) < minimum:
                missing.append("{0}: {1} < {2}".format(name, run.observed.get(name, 0), minimum))
        for section in mod.SECTIONS:
            if run.section_counts.get(section.name, 0) == 0:
                missing.append("section {0} never ran".format(section.name))
    coverage = {
        "evaluations": run.evaluations,
        "distinct_nontrivial": len(run.keys),
        "rule": mod.RULE,
        "samples": run.samples,
        "oracle_evaluations": run.oracle_calls,
        "cases_per_section": run.section_counts,
        "skipped_cases": run.skipped,
        "monitor_events": dict(sorted(run.observed.items())),
        "extremes_reached": {k: (v if isinstance(v, (int, float, str)) else repr(v)) for k, v in sorted(run.peaks.items())},
    }
    if run.truncated:
        coverage["stopped_early"] = run.truncated
    if cov.on:
        coverage.update(cov.summary())
    if missing:
        coverage["inconclusive"] = missing
    if not replay:
        write_evidence(run.pid, run.tier, run.seed, coverage, wall_s,
                       len(run.violations), getattr(mod, "ASSUMPTIONS", []))
    for mechanism, line in sorted(set(run.known_hits)):
        print("KNOWN-FINDING: property={0} {1}".format(run.pid, line.split(None, 3)[-1]))
    if run.violations:
        for mechanism, message, path in run.violations:
            print("  {0}: {1}".format(mechanism, _short(message, 300)))
        print("VIOLATION property={0} replay={1}".format(run.pid, run.violations[0][2]))
        return 1
    if missing:
        print("INCONCLUSIVE property={0}: {1}".format(run.pid, "; ".join(missing)))
        return 2
    print("OK property={0} cases={1} distinct={2} oracles={3} wall={4:.1f}s".format(
        run.pid, run.evaluations, len(run.keys), run.oracle_calls, wall_s))
    return 0


def write_evidence(pid, tier, seed, coverage, wall_s, violations, assumptions):
    os.makedirs(OUT, exist_ok=True)
    data = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": list(assumptions),
        "wall_s": round(wall_s, 3), "violations": violations,
    }
    path = os.path.join(OUT, pid + ".json")
    with open(path + ".tmp", "w") as fp:
        json.dump(data, fp, indent=1, default=repr)
    os.replace(path + ".tmp", path)


def _cpu_of(pid):
    try:
        fields = open("/proc/{0}/stat".format(pid)).read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def supervise(argv):
    pid, tier, seed, replay = parse(argv)
    status = Status()
    t0 = time.time()
    sys.stdout.flush()
    child = os.fork()
    if child == 0:
        code = 2
        try:
            os.setpgid(0, 0)
            code = run_child(pid, tier, seed, replay, status)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    stuck = None
    while True:
        done, wait_status = os.waitpid(child, os.WNOHANG)
        if done:
            break
        time.sleep(0.05)
        section, index, cpu0 = status.get()
        cpu = _cpu_of(child)
        allowed = CASE_CPU_LIMIT + 60
        if section not in ("", "report") and cpu - cpu0 > allowed:
            stuck = "no end of the case after {0:.0f} s of CPU time".format(cpu - cpu0)
            os.killpg(child, signal.SIGKILL)
            os.waitpid(child, 0)
            wait_status = None
            break
    try:
        os.killpg(child, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    section, index, _ = status.get()
    if stuck is None and os.WIFEXITED(wait_status):
        return os.WEXITSTATUS(wait_status)
    if stuck is None:
        signum = os.WTERMSIG(wait_status)
        if signum not in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            print("INCONCLUSIVE property={0}: ended by signal {1}".format(pid, signum))
            return 2
        stuck = "the interpreter crashed with signal {0}".format(signum)
        mechanism = "crash"
    else:
        mechanism = "no-progress"
    path = write_replay(pid, tier, seed, section, index, mechanism, stuck)
    write_evidence(pid, tier, seed, {
        "evaluations": 1, "distinct_nontrivial": 1,
        "rule": "run ended abnormally: " + stuck,
        "samples": [{"section": section, "index": index}],
    }, time.time() - t0, 1, [])
    print("  {0}: {1} in section {2} case {3}".format(mechanism, stuck, section, index))
    print("VIOLATION property={0} replay={1}".format(pid, path))
    return 1
