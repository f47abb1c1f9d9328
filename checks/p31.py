"""P31: the temporary run-time environment."""
import asyncio
import contextlib
import io
import os
import re
import shutil
import signal
import sys
import tempfile
import time
from pathlib import Path

import mkl

from HamiltonianPy.tools.runtimeenv import RunTimeEnv

from vlib.harness import Section

PID = "P31"
RULE = ("random programs of nested and repeated environments with prints, exceptions of every kind raised at any point "
        "and caught at any level, directory changes, thread-number changes and failing entries; stdout, thread number, "
        "files and log contents are compared with a model after every step; non-trivial when a log was checked")
ASSUMPTIONS = ["one environment at a time per thread of the interpreter (the state it manages is global)",
               "an instance is entered again only after it was left"]
MUST = {"logs checked": 700, "exceptions passed through": 250, "restored": 1000, "nested": 200, "same second": 100,
        "failed entries": 40, "thread numbers in force": 800,
        "entered after a redirection": 200, "logs of killed processes": 50}

LINE = "=" * 80


class Stop(BaseException):
    pass


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class Unprintable(Exception):
    def __str__(self):
        raise RuntimeError("no text")


ERRORS = [lambda py: ValueError("bad value {0}".format(py.randrange(100))), lambda py: KeyError("key"), lambda py: KeyboardInterrupt(),
          lambda py: SystemExit(3), lambda py: Stop("stop"), lambda py: Custom(1, "two"), lambda py: GeneratorExit(),
          lambda py: SystemExit(0), lambda py: SystemExit(), lambda py: SystemExit("usage"), lambda py: StopIteration("end"),
          lambda py: StopIteration(), lambda py: MemoryError(), lambda py: BrokenPipeError(32, "Broken pipe"),
          lambda py: UserWarning("careful"), lambda py: StopAsyncIteration(), lambda py: asyncio.CancelledError(),
          lambda py: RecursionError("deep"), lambda py: EOFError(), lambda py: BaseException("base"), lambda py: Exception(), lambda py: OSError(28, "No space left on device"), lambda py: AssertionError("é ≠ 漢")]


def in_force(n):
    """What mkl makes of a requested number (it may be limited)."""
    old = mkl.get_max_threads()
    mkl.set_num_threads(n)
    res = mkl.get_max_threads()
    mkl.set_num_threads(old)
    return res


def some_text(py):
    return "".join(py.choice("abc =\nXYZ\té漢%{}0") for _ in range(py.randrange(0, 30)))


class Program:
    def __init__(self, case, folder):
        self.case, self.py, self.folder = case, case.py, folder
        self.logs = 0

    def files(self):
        return {p: p.stat().st_size for p in self.folder.rglob("*") if p.is_file()}

    def block(self, depth, sink):
        """Run random steps; sink collects what goes to the current stdout."""
        py, case = self.py, self.case
        for _ in range(py.randrange(1, 5)):
            step = py.randrange(8)
            if step < 3:
                s = some_text(py)
                if step == 0:
                    print(s)
                    sink.append(s + "\n")
                elif step == 1:
                    print(s, "x", sep=", ", end="", flush=True)
                    sink.append(s + ", x")
                else:
                    sys.stdout.write(s)
                    sink.append(s)
            elif step == 3:
                mkl.set_num_threads(py.randrange(1, 5))
            elif step == 4 and depth > 0 and py.random() < 0.5:
                self.thrown = py.choice(ERRORS)(py)
                raise self.thrown
            elif depth < 3:
                self.environment(depth, sink)

    def environment(self, depth, sink):
        py, case = self.py, self.case
        rd = py.random() < 0.75
        threads = py.choice([None, 1, 2, 3, 4, 200])
        sub = self.folder / py.choice(["a", "b", "new{0}".format(py.randrange(1000)), "deep/er/{0}".format(py.randrange(50))])
        how = py.randrange(3)
        before_files = self.files()
        here = os.getcwd()
        at_construct = mkl.get_max_threads()
        kwargs = {}
        if rd or py.random() < 0.3:
            kwargs["rd"] = rd
        if threads is not None or py.random() < 0.5:
            kwargs["threads_num"] = threads
        if how == 0:
            sub.mkdir(parents=True, exist_ok=True)
            os.chdir(sub)
        elif how == 1:
            os.chdir(self.folder)
            kwargs["path"] = str(sub.relative_to(self.folder))
        else:
            kwargs["path"] = sub if py.random() < 0.5 else str(sub)
        try:
            env = RunTimeEnv(**kwargs)
        finally:
            os.chdir(here)
        case.check(sub.is_dir(), "directory", "not created")
        case.equal(mkl.get_max_threads(), at_construct, "constructor-effect", "threads")
        case.equal(self.files(), before_files, "constructor-effect", "files")
        rounds = 2 if py.random() < 0.15 else 1
        for turn in range(rounds):
            if py.random() < 0.25:
                # standard output is redirected after the environment was created
                own = []
                other = io.StringIO()
                with contextlib.redirect_stdout(other):
                    try:
                        self.enter(env, depth, own, rd, threads, sub, at_construct)
                    finally:
                        if sys.stdout is other:
                            case.equal(other.getvalue(), "".join(own), "outer-stdout")
                        case.obs("entered after a redirection")
            else:
                self.enter(env, depth, sink, rd, threads, sub, at_construct)

    def enter(self, env, depth, sink, rd, threads, sub, at_construct):
        py, case = self.py, self.case
        before_files = set(self.files())
        stdout = sys.stdout
        if py.random() < 0.5:
            mkl.set_num_threads(py.randrange(1, 5))
        old = mkl.get_max_threads()
        body = []
        self.thrown = None
        caught = None
        started = time.time()
        catch = py.random() < 0.6
        inner_stdout = None
        try:
            with env as got:
                case.check(got is env or isinstance(got, RunTimeEnv), "enter-result")
                inside = mkl.get_max_threads()
                if threads is None:
                    # the maximum: of the system, or what was set before
                    case.check(inside in (at_construct, old, in_force(10**4)), "threads-in-force", (inside, at_construct))
                else:
                    case.equal(inside, in_force(threads), "threads-in-force", threads)
                case.obs("thread numbers in force")
                inner_stdout = sys.stdout
                case.equal(inner_stdout is stdout, not rd, "redirection")
                new = set(self.files()) - before_files
                case.equal(len(new), 1 if rd else 0, "log-created", new)
                self.block(depth + 1, body if rd else sink)
                case.check(sys.stdout is inner_stdout, "restored-inner")
        except BaseException as exc:
            if exc is not self.thrown:
                raise
            caught = exc
        # restored, whatever happened
        case.check(sys.stdout is stdout, "stdout-not-restored", repr(caught))
        case.equal(mkl.get_max_threads(), old, "threads-not-restored", repr(caught))
        case.obs("restored")
        if depth:
            case.obs("nested")
        if rd:
            case.check(inner_stdout.closed, "log-not-closed")
            mine = [p for p in set(self.files()) - before_files if self.same_file(p, inner_stdout)]
            case.equal(len(mine), 1, "log-created", mine)
            self.log(mine[0], sub, "".join(body), caught, started)
        if caught is not None:
            case.obs("exceptions passed through")
            if not catch and depth:
                self.thrown = caught
                raise caught
        self.thrown = None

    @staticmethod
    def same_file(path, fp):
        return os.path.realpath(fp.name) == os.path.realpath(path)

    def log(self, path, sub, body, caught, started):
        case = self.case
        case.equal(path.parent.resolve(), sub.resolve(), "log-place")
        case.check(path.name.startswith("Log ") and path.suffix == ".txt", "log-name", path.name)
        text = path.read_text()
        head, sep, rest = text.partition("\n")
        m = re.match(r"Entering run time environment at (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)$", head)
        case.check(m is not None, "log-header", head)
        stamp = time.mktime(time.strptime(m.group(1), "%Y-%m-%d %H:%M:%S"))
        case.check(started - 2 <= stamp <= time.time() + 1, "log-time", head)
        case.check(rest.startswith(LINE + "\n"), "log-header", rest[:100])
        rest = rest[len(LINE) + 1:]
        case.equal(rest[:len(body)], body, "log-body")
        rest = rest[len(body):]
        case.check(rest.startswith(LINE + "\n"), "log-footer", rest[:200])
        parts = rest.split(LINE)
        case.equal(len(parts), 3, "log-footer", rest[:400])
        case.check(re.match(r"\nExit run time environment at: \d{4}-\d\d-\d\d \d\d:\d\d:\d\d\n$", parts[2]), "log-end", parts[2])
        record = parts[1]
        if caught is None:
            case.check("Exc_type" not in record and "Traceback" not in record, "log-record", record)
            case.check("exception" in record, "log-record", record)
        else:
            case.check(type(caught).__name__ in record, "log-record", record)
            case.check(str(caught) in record, "log-record", record)
            case.check("Traceback:" in record and "in block" in record and "p31.py" in record, "log-traceback", record)
        self.logs += 1
        case.obs("logs checked")


@contextlib.contextmanager
def scratch(case):
    folder = Path(tempfile.mkdtemp(dir=os.environ.get("VP_WORK", "/tmp")))
    here = os.getcwd()
    old = mkl.get_max_threads()
    real = sys.stdout
    out = io.StringIO()
    sys.stdout = out
    try:
        yield folder, out
    finally:
        sys.stdout = real
        os.chdir(here)
        mkl.set_num_threads(old)
        shutil.rmtree(folder)


def programs(case):
    with scratch(case) as (folder, out):
        mkl.set_num_threads(case.py.randrange(1, 5))
        program = Program(case, folder)
        sink = []
        t0 = int(time.time())
        for _ in range(case.py.randrange(1, 4)):
            program.environment(0, sink)
        case.equal(out.getvalue(), "".join(sink), "outer-stdout")
        case.check(not out.closed, "outer-stdout", "closed")
        case.note(logs=program.logs, files=len(program.files()))
        case.equal(len(program.files()), program.logs, "files", sorted(map(str, program.files())))
        if program.logs > 1 and int(time.time()) == t0:
            case.obs("same second")
        if program.logs:
            case.nontrivial(case.index)


def failures(case):
    """Entering, or recording the exception, fails: nothing stays changed."""
    py = case.py
    with scratch(case) as (folder, out):
        start = py.randrange(1, 5)
        mkl.set_num_threads(start)
        start = mkl.get_max_threads()

        def unchanged(where):
            case.check(sys.stdout is out, "stdout-changed", where)
            case.equal(mkl.get_max_threads(), start, "threads-changed", where)
            case.obs("failed entries")
        for bad in (0, -1, -py.randrange(1, 99), "2", 1.5, 2.0, [1]):
            case.raises((ValueError, TypeError, AssertionError), lambda: RunTimeEnv(path=str(folder), threads_num=bad), "accepted", bad)
        unchanged("invalid number")
        # a file where the directory should be
        (folder / "file").write_text("keep")
        case.raises(OSError, lambda: RunTimeEnv(rd=True, path=folder / "file"), "accepted", "path is a file")
        case.equal((folder / "file").read_text(), "keep", "file-changed")
        unchanged("path is a file")
        # the directory disappears
        env = RunTimeEnv(rd=True, path=folder / "gone", threads_num=start % 4 + 1)
        (folder / "gone").rmdir()
        ran = []
        try:
            with env:
                ran.append(1)
        except OSError:
            pass
        if ran:
            case.check(len(list((folder / "gone").iterdir())) == 1, "log-created")
        unchanged("directory disappeared")
        # the exception cannot be printed
        try:
            with RunTimeEnv(rd=True, path=folder / "log", threads_num=start % 4 + 1):
                inner = sys.stdout
                print("text")
                raise Unprintable()
        except (Unprintable, RuntimeError):
            case.check(inner.closed, "log-not-closed")
        else:
            case.fail("exception-lost")
        unchanged("unprintable exception")
        logs = list((folder / "log").iterdir())
        case.equal(len(logs), 1, "log-created")
        case.check("text\n" in logs[0].read_text(), "log-body")
        # an old log stays as it was
        old = {p: p.read_text() for p in logs}
        for k in range(3):
            with RunTimeEnv(rd=True, path=folder / "log"):
                print("entry", k)
        for p, content in old.items():
            case.equal(p.read_text(), content, "old-log-changed")
        texts = [p.read_text() for p in (folder / "log").iterdir()]
        case.equal(len(texts), 4, "log-created")
        for k in range(3):
            case.equal(sum("\nentry {0}\n".format(k) in t for t in texts), 1, "log-created", k)
        unchanged("repeated")
        case.equal(out.getvalue(), "", "outer-stdout")
        case.nontrivial(case.index)


def killed(case):
    """The process dies in the middle of the environment: what was printed is in the log."""
    py = case.py
    with scratch(case) as (folder, out):
        sub, journal = folder / "logs", folder / "journal"
        count, ending = py.randrange(0, 12), py.choice(["kill", "_exit", "term"])
        steps = []
        for _ in range(count):
            text = some_text(py).replace("\n", py.choice(["\n", " "]))
            steps.append((text, py.choice(["\n", "\n", "\n", "", "end\n"]), py.random() < 0.5))
        nested = py.random() < 0.3
        case.note(steps=count, ending=ending, nested=nested)
        pid = os.fork()
        if pid == 0:
            try:
                fd = os.open(journal, os.O_CREAT | os.O_WRONLY)
                with RunTimeEnv(rd=True, path=sub, threads_num=py.choice([None, 1, 2])):
                    os.write(fd, b"I")
                    for text, end, plain in steps:
                        if plain:
                            print(text, end=end)
                        else:
                            sys.stdout.write(text + end)
                        os.write(fd, b"E")
                    if nested:
                        try:
                            with RunTimeEnv(rd=False, path=sub):
                                raise ValueError("inner")
                        except ValueError:
                            pass
                    if ending == "_exit":
                        os._exit(0)
                    os.kill(os.getpid(), {"kill": signal.SIGKILL, "term": signal.SIGTERM}[ending])
                    time.sleep(60)
            finally:
                os._exit(77)
        _, status = os.waitpid(pid, 0)
        case.check(status >> 8 != 77, "killed-harness", status)
        done = journal.read_bytes()
        case.equal(done, b"I" + b"E" * count, "killed-harness")
        logs = list(sub.iterdir())
        case.equal(len(logs), 1, "log-created", logs)
        text = logs[0].read_text()
        head, _, rest = text.partition("\n")
        case.check(head.startswith("Entering run time environment at "), "log-lost", head)
        case.check(rest.startswith(LINE + "\n"), "log-lost", rest[:100])
        rest = rest[len(LINE) + 1:]
        body = "".join(t + e for t, e, _ in steps)
        whole = body[:body.rfind("\n") + 1]
        case.check(rest.startswith(whole), "log-lost", lambda: (whole, rest))
        case.check(body.startswith(rest), "log-more", lambda: (body, rest))
        case.obs("logs of killed processes")
        if whole:
            case.nontrivial(case.index)


SECTIONS = [
    Section("programs", programs, 500, 10000),
    Section("killed", killed, 60, 1000),
    Section("failures", failures, 15, 200),
]
