"""Mutation sweep: python3 tools/mutate.py FILE [--max N] [--seed S] [--jobs J]

Changes single expressions of HamiltonianPy/FILE in scratch copies, runs the
checks that watch this file against every changed copy until one of them
reports, and prints the changes that no check reports, together with whether
the tests of the repository notice them.  Only a tool for finding gaps: no
check and no command of MANIFEST.json uses it.
"""
import argparse, ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = {
    "quantumoperator/particlesystem.py": "P01 P04 P05 P02 P03 P11 P33 P34 P27",
    "quantumoperator/matrixrepr.py": "P02 P03 P28 P01",
    "quantumoperator/spinsystem.py": "P09 P08 P10 P33 P11 P34",
    "quantumoperator/factory.py": "P06 P10 P34",
    "quantumoperator/quantumstate.py": "P11 P33 P13",
    "quantumoperator/constant.py": "P08 P09 P06",
    "lattice/lattice.py": "P19 P20 P21 P23 P22 P32 P33 P36 P11 P27",
    "lattice/_lattice_database.py": "P22 P36 P32",
    "GreenFunction/_GFSolver.py": "P15 P16 P17",
    "lanczos.py": "P14 P16",
    "hilbertspace.py": "P07 P33",
    "indextable.py": "P13 P33",
    "bond.py": "P12 P33",
    "line2d.py": "P25 P32 P33",
    "polygon.py": "P26 P32",
    "rotation3d.py": "P24 P27",
    "averages.py": "P18",
    "tools/PandC.py": "P29",
    "tools/TotalSpin.py": "P18 P08",
    "tools/colorprint.py": "P30",
    "tools/runtimeenv.py": "P31",
    "tools/Draw2DLattice.py": "P32",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}
FLIP = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*", ast.LShift: ">>",
       ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.MatMult: "*"}


def mutants(source):
    """(line, description, new source)."""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = source.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        a, b = span(node)
        return data[a:b].decode()
    res = []

    def put(node, new, what):
        a, b = span(node)
        if data[a:b].decode() != new:
            res.append((node.lineno, "{0} -> {1}".format(" ".join(data[a:b].decode().split())[:70], " ".join(new.split())[:70]),
                        (data[:a] + new.encode() + data[b:]).decode()))

    def walk(node, inside=None):
        if isinstance(node, ast.If) and "__name__" in text(node.test):
            return
        if isinstance(node, ast.Raise):
            return
        body = getattr(node, "body", None)
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            skip = body[0]
        else:
            skip = None
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = type(node.ops[0])
            for table in (SWAP, FLIP):
                if op in table:
                    put(node, "({0} {1} {2})".format(text(node.left), table[op], text(node.comparators[0])), "compare")
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (
                isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            put(node, "({0} {1} {2})".format(text(node.left), BIN[type(node.op)], text(node.right)), "binary")
            put(node, text(node.left), "binary")
        if isinstance(node, ast.BoolOp):
            other = " or " if isinstance(node.op, ast.And) else " and "
            put(node, "(" + other.join("(" + text(v) + ")" for v in node.values) + ")", "bool")
            for k in range(len(node.values)):
                rest = [text(v) for j, v in enumerate(node.values) if j != k]
                put(node, "(" + (" and " if isinstance(node.op, ast.And) else " or ").join(rest) + ")", "bool")
        if isinstance(node, ast.UnaryOp):
            put(node, "(" + text(node.operand) + ")", "unary")
        if isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not None and \
                node.value is not Ellipsis:
            if isinstance(node.value, bool):
                put(node, str(not node.value), "constant")
            elif isinstance(node.value, int):
                put(node, str(node.value + 1), "constant")
                if node.value > 0:
                    put(node, str(node.value - 1), "constant")
            elif isinstance(node.value, float):
                put(node, repr(node.value * 1.5 if node.value else 0.5), "constant")
            elif isinstance(node.value, complex):
                put(node, "(-" + text(node) + ")", "constant")
        if isinstance(node, (ast.If, ast.IfExp)):
            put(node.test, "True", "condition")
            put(node.test, "False", "condition")
        if isinstance(node, ast.While):
            put(node.test, "False", "condition")
        if isinstance(node, (ast.AugAssign,)):
            put(node, "pass", "statement")
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            put(node, "pass", "statement")
        if isinstance(node, (ast.Continue, ast.Break)):
            put(node, "pass", "statement")
        if isinstance(node, ast.Return) and node.value is not None:
            if isinstance(node.value, ast.Tuple) and len(node.value.elts) == 2:
                put(node.value, "{1}, {0}".format(*[text(e) for e in node.value.elts]), "return")
        if isinstance(node, ast.Call):
            for kw in node.keywords:
                if kw.arg:
                    a, b = span(kw)
                    # remove the keyword with the comma in front
                    left = data[:a].rstrip()
                    if left.endswith(b","):
                        new = (left[:-1] + data[b:]).decode()
                        res.append((kw.lineno, "drop argument " + text(kw)[:60], new))
            if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                a, b = span(node.args[0]), span(node.args[1])
                res.append((node.lineno, "swap arguments of " + text(node)[:60].replace("\n", " "),
                            (data[:a[0]] + data[b[0]:b[1]] + data[a[1]:b[0]] + data[a[0]:a[1]] + data[b[1]:]).decode()))
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("conjugate", "conj", "dagger", "copy", "sort", "tocsr",
                                                                           "resolve", "transpose") and not node.args:
                put(node, text(node.func.value), "call")
            if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "abs", "round", "int", "tuple", "set"):
                if node.args:
                    put(node, "(" + text(node.args[0]) + ")", "call")
            if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "np" and \
                    len(node.args) == 1 and not node.keywords:
                put(node, "(" + text(node.args[0]) + ")", "call")
            if text(node.func) == "np.vdot":
                put(node.func, "np.dot", "call")
            if text(node.func) in ("np.max", "max"):
                put(node.func, text(node.func).replace("max", "min"), "call")
            if text(node.func) in ("np.min", "min"):
                put(node.func, text(node.func).replace("min", "max"), "call")
            if text(node.func) in ("np.ceil",):
                put(node.func, "np.floor", "call")
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
            put(node, text(node.value), "slice")
        if isinstance(node, ast.FunctionDef):
            # annotations, defaults and decorators of compiled kernels as they are
            children = list(node.args.defaults) + [d for d in node.args.kw_defaults if d] + node.body
        else:
            children = list(ast.iter_child_nodes(node))
        for child in children:
            if child is skip or isinstance(child, ast.JoinedStr):
                continue
            walk(child)
    walk(tree)
    seen, out = set(), []
    for m in res:
        if m[2] not in seen:
            seen.add(m[2])
            try:
                compile(m[2], "x", "exec")
            except SyntaxError:
                continue
            out.append(m)
    return out


def run(cmd, timeout, **env):
    e = dict(os.environ, **env)
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, cwd="/")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def judge(job, scratch, checks):
    file, (line, what, new) = job
    target = os.path.join(scratch, "HamiltonianPy", file)
    old = open(target).read()
    open(target, "w").write(new)
    try:
        for check in checks:
            code, out = run(["bash", VERIF + "/run.sh", check, "quick"], 400, VP_REPO=scratch)
            if code != 0:
                kind = "caught" if "VIOLATION property=" + check in out else "broken"
                return "{0} by {1} ({2})".format(kind, check, code)
        code, out = run(["bash", "-c", "cd {0} && MPLBACKEND=Agg NUMBA_CACHE_DIR={0}/.nb /opt/venv/bin/python -B -m pytest -x -q -p "
                         "no:cacheprovider HamiltonianPy/tests/unit 2>&1 | tail -3".format(scratch)], 400)
        shutil.rmtree(scratch + "/.nb", ignore_errors=True)
        return "MISSED" if " failed" not in out and " error" not in out else "missed, but noticed by the tests"
    finally:
        open(target, "w").write(old)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("file")
    p.add_argument("--max", type=int, default=60)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--jobs", type=int, default=6)
    p.add_argument("--list", action="store_true")
    p.add_argument("--match", default="")
    a = p.parse_args()
    source = open(os.path.join(REPO, "HamiltonianPy", a.file)).read()
    all_ = mutants(source)
    chosen = [m for m in all_ if re.search(a.match, m[1])]
    if len(chosen) > a.max:
        chosen = sorted(random.Random(a.seed).sample(chosen, a.max), key=lambda m: m[0])
    print(a.file, len(all_), "changes,", len(chosen), "chosen", flush=True)
    if a.list:
        for m in chosen:
            print(m[0], m[1])
        return
    pool = queue.Queue()
    root = tempfile.mkdtemp(prefix="mutate.")
    for k in range(a.jobs):
        d = os.path.join(root, str(k))
        subprocess.run(["cp", "-a", REPO, d], check=True)
        pool.put(d)

    def work(m):
        d = pool.get()
        try:
            return judge((a.file, m), d, CHECKS[a.file].split())
        finally:
            pool.put(d)
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            futures = {ex.submit(work, m): m for m in chosen}
            for f in cf.as_completed(futures):
                m = futures[f]
                print("{0}:{1}: {2}: {3}".format(a.file, m[0], f.result(), m[1]), flush=True)
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    main()
