"""Sweep of wrong caches: python3 tools/memo_sweep.py [FILE ...] [--kinds abc] [--jobs J] [--list]

Puts a wrong cache around single functions and methods of the package in scratch copies (answers shared between
callers, keyword arguments left out of the key, only the first argument in the key, objects of one class sharing a cache,
keys rounded, results in single precision, arguments ignored), drops the changes that the tests of the repository notice and runs the checks of the file against the
others.  Only a tool for finding gaps: no check and no command of MANIFEST.json uses it.
"""
import argparse, ast, concurrent.futures as cf, os, queue, shutil, subprocess, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

PRELUDE = '''
def _memo_(kind):
    import functools
    import numpy as _n
    def key(x, eq):
        if isinstance(x, _n.ndarray):
            if eq and x.dtype.kind in "fciu":
                return ("nd", x.shape, tuple(_n.round(x.ravel().astype(complex), 6).tolist()))
            return ("nd", x.shape, x.dtype.str, x.tobytes())
        if isinstance(x, (tuple, list)):
            return tuple(key(y, eq) for y in x) if eq else (type(x).__name__,) + tuple(key(y, eq) for y in x)
        if isinstance(x, (int, float, complex, str, bool, type(None), _n.number)):
            if eq:
                return round(x, 6) if isinstance(x, float) else x
            return (type(x).__name__, repr(x))
        return ("id", id(x))
    def fresh(x):
        # a copy for the caller, so that only the key is wrong
        import copy
        if isinstance(x, (list, dict, set, _n.ndarray)):
            return copy.copy(x)
        return x
    def deco(f):
        store = {}
        @functools.wraps(f)
        def g(*a, **k):
            if kind == "alias":
                full = (tuple(key(x, False) for x in a), tuple((n, key(x, False)) for n, x in sorted(k.items())))
            elif kind == "eq":
                full = (tuple(key(x, True) for x in a), tuple((n, key(x, True)) for n, x in sorted(k.items())))
            elif kind == "nokw":
                full = tuple(key(x, False) for x in a)
            elif kind == "first":
                full = tuple(key(x, False) for x in a[:FIRST])
            elif kind == "class":
                full = (tuple(key(x, False) for x in a[1:]), tuple((n, key(x, False)) for n, x in sorted(k.items())))
            try:
                hit = store[full]
            except KeyError:
                res = f(*a, **k)
                if hasattr(res, "__next__"):
                    return res
                if len(store) > 20000:
                    store.clear()
                hit = store[full] = (res, a, k)
                return res if kind == "alias" else fresh(res)
            return hit[0] if kind == "alias" else fresh(hit[0])
        return g
    return deco
'''
PRELUDE += '''
def _single_(f):
    import functools
    import numpy as _n
    def cut(x):
        if isinstance(x, (tuple, list)) and not hasattr(x, "_fields"):
            return type(x)(cut(y) for y in x)
        if isinstance(x, dict):
            return {n: cut(y) for n, y in x.items()}
        kind = getattr(getattr(x, "dtype", None), "kind", "")
        if isinstance(x, float) or kind == "f":
            return x.astype(_n.float32).astype(_n.float64) if kind else float(_n.float32(x))
        if isinstance(x, complex) or kind == "c":
            return x.astype(_n.complex64).astype(_n.complex128) if kind else complex(_n.complex64(x))
        return x
    @functools.wraps(f)
    def g(*a, **k):
        return cut(f(*a, **k))
    return g
def _ignore_(name):
    import functools, inspect
    def deco(f):
        sig = inspect.signature(f)
        @functools.wraps(f)
        def g(*a, **k):
            b = sig.bind(*a, **k)
            b.arguments.pop(name, None)
            return f(*b.args, **b.kwargs)
        return g
    return deco
'''
SKIP = {"__init__", "__hash__", "__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__", "__repr__", "__str__", "show", "__enter__",
        "__exit__", "__getattr__", "__setattr__", "__new__", "set_threshold", "coordinate", "site", "spin", "orbit", "otype", "state", "getIndex", "same_state", "same_site", "conjugate_of", "directional", "ShowFirstBZ", "point_num", "trans_dim", "space_dim", "dim"}


def mutants(source, kinds):
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    first = tree.body[0]
    head = first.end_lineno if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) else 0
    for node in ast.walk(tree):
        if not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            continue
        for f in node.body:
            if not isinstance(f, ast.FunctionDef) or f.name in SKIP or isinstance(node, ast.FunctionDef):
                continue
            decos = " ".join(ast.unparse(d) for d in f.decorator_list)
            if "jit" in decos or "setter" in decos:
                continue
            method = isinstance(node, ast.ClassDef) and "staticmethod" not in decos
            args = f.args.args
            kw = bool(f.args.kwonlyargs or f.args.defaults or f.args.kwarg)
            if "ignore" in kinds:
                names = [a.arg for a in args[len(args) - len(f.args.defaults):]] if f.args.defaults else []
                names += [a.arg for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None]
                for name in names:
                    pad = " " * f.col_offset
                    new = "".join(lines[:head] + [PRELUDE] + lines[head:f.lineno - 1] + [
                        "{0}@_ignore_('{1}')\n".format(pad, name)] + lines[f.lineno - 1:])
                    yield f.lineno, "ignore {0} of {1}.{2}".format(name, getattr(node, "name", ""), f.name), new
            for kind in kinds:
                if kind == "ignore":
                    continue
                if kind == "nokw" and not kw:
                    continue
                if kind == "first" and len(args) < (3 if method else 2):
                    continue
                if kind == "class" and not method:
                    continue
                if kind == "eq" and len(args) < (2 if method else 1):
                    continue
                pad = " " * f.col_offset
                new = lines[:head] + [PRELUDE.replace("FIRST", "2" if method else "1")] + lines[head:f.lineno - 1] + [
                    "{0}@_memo_('{1}')\n".format(pad, kind) if kind != "single" else pad + "@_single_\n"] + lines[f.lineno - 1:]
                new = "".join(new)
                compile(new, "x", "exec")
                yield f.lineno, "{0} {1}.{2}".format(kind, getattr(node, "name", ""), f.name), new


def judge(file, m, scratch):
    target = os.path.join(scratch, "HamiltonianPy", file)
    old = open(target).read()
    open(target, "w").write(m[2])
    try:
        code, out = mutate.run(["bash", "-c", "cd {0} && MPLBACKEND=Agg NUMBA_CACHE_DIR={0}/.nb /opt/venv/bin/python -B -m pytest "
                                "-x -q -p no:cacheprovider HamiltonianPy/tests/unit 2>&1 | tail -3".format(scratch)], 400)
        shutil.rmtree(scratch + "/.nb", ignore_errors=True)
        if " failed" in out or " error" in out:
            return "tests notice"
        checks, kind = mutate.CHECKS[file].split(), m[1].split()[0]
        extra = {"alias": ["P27"], "class": ["P27"], "eq": ["P42"], "nokw": ["P42"], "first": ["P27"], "ignore": ["P42"], "single": []}[kind]
        checks = extra if kind == "alias" else [c for c in checks[:4] if c not in extra] + extra
        for check in checks:
            code, out = mutate.run(["bash", mutate.VERIF + "/run.sh", check, "quick"], 600, VP_REPO=scratch)
            if code != 0:
                return "{0} by {1} ({2})".format("caught" if "VIOLATION property=" + check in out else "broken", check, code)
        return "MISSED"
    finally:
        open(target, "w").write(old)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("files", nargs="*")
    p.add_argument("--kinds", default="alias,nokw,first,class,eq")
    p.add_argument("--jobs", type=int, default=6)
    p.add_argument("--list", action="store_true")
    a = p.parse_args()
    work = []
    for file in a.files or mutate.CHECKS:
        source = open(os.path.join(mutate.REPO, "HamiltonianPy", file)).read()
        work += [(file, m) for m in mutants(source, a.kinds.split(","))]
    print(len(work), "changes", flush=True)
    if a.list:
        for file, m in work:
            print(file, m[0], m[1])
        return
    pool = queue.Queue()
    root = tempfile.mkdtemp(prefix="memo.")
    for k in range(a.jobs):
        subprocess.run(["cp", "-a", mutate.REPO, os.path.join(root, str(k))], check=True)
        pool.put(os.path.join(root, str(k)))

    def one(w):
        d = pool.get()
        try:
            return judge(w[0], w[1], d)
        finally:
            pool.put(d)
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            futures = {ex.submit(one, w): w for w in work}
            for f in cf.as_completed(futures):
                file, m = futures[f]
                print("{0}:{1}: {2}: {3}".format(file, m[0], f.result(), m[1]), flush=True)
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    main()
