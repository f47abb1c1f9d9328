"""Plant bugs: python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dictionaries with the keys
  id, property, edits (list of (file, old, new) with file relative to
  HamiltonianPy/), demo (python source), needs, what_it_breaks.
Every bug is applied to a scratch copy of /repo; it is kept in seeded/<id>/ if
the scratch copy still passes the tests, the demonstration passes on /repo and
fails on the scratch copy.  The checks of the property and of the properties
named on `also` are then run against the scratch copy and their verdict is
printed (and returned in /tmp/bugs/<id>.json).
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = "/tmp/bugs"
PY = "/opt/venv/bin/python"

DEMO_SH = '''#!/bin/bash
# Exits with 0 if the behaviour shown in demo.py is right, run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export NUMBA_CACHE_DIR="$work/numba" MPLCONFIGDIR="$work/mpl" TMPDIR="$work"
cd "$work" || exit 1
/opt/venv/bin/python -P "$here/demo.py"
'''

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def original_lines_changed(scratch, files):
    """Whether a removed line of the diff stems from the original commit."""
    for f in files:
        code, out = sh(["git", "diff", "-U0", "--", f], cwd=scratch)
        for line in out.splitlines():
            if line.startswith("@@"):
                old = line.split()[1][1:]
                start, _, num = old.partition(",")
                num = int(num or 1)
                if num == 0:
                    continue
                c, blame = sh(["git", "blame", "-s", "-L", "%s,+%d" % (start, num),
                               "HEAD", "--", f], cwd=scratch)
                if any(b.startswith("^") for b in blame.splitlines()):
                    return True
    return False

def run(bug, tier="quick", checks_only=False):
    bid = bug["id"]
    scratch = os.path.join(OUT, "tree-" + bid)
    res = {"id": bid, "property": bug["property"]}
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, scratch], check=True)
    work = scratch + "-work"
    os.makedirs(work, exist_ok=True)
    try:
        files = []
        for f, old, new in bug["edits"]:
            path = os.path.join(scratch, "HamiltonianPy", f)
            text = open(path).read()
            if text.count(old) != 1:
                res["error"] = "edit of %s matches %d times: %r" % (f, text.count(old), old[:60])
                return res
            open(path, "w").write(text.replace(old, new))
            files.append("HamiltonianPy/" + f)
        code, patch = sh(["git", "diff"], cwd=scratch)
        res["original"] = original_lines_changed(scratch, files)
        target = os.path.join(OUT, "seed-" + bid)
        shutil.rmtree(target, ignore_errors=True)
        os.makedirs(target)
        open(target + "/patch.diff", "w").write(patch)
        open(target + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(target + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(target + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]},
                  open(target + "/meta.json", "w"), indent=1)
        env = {"TMPDIR": work, "OMP_NUM_THREADS": "1"}
        c0, o0 = sh(["bash", target + "/demo.sh"], cwd=REPO, env=env)
        c1, o1 = sh(["bash", target + "/demo.sh"], cwd=scratch, env=env)
        res["demo"] = (c0, c1)
        if c0 != 0:
            res["demo_out"] = o0[-600:]
        c, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                   "-p", "randomly", "--randomly-seed=1",
                   "--randomly-dont-reorganize", "--rootdir=" + scratch,
                   "-c", "HamiltonianPy/tests/pytest.ini",
                   "HamiltonianPy/tests"], cwd=scratch,
                  env={**env, "PYTHONPATH": scratch, "MPLBACKEND": "Agg",
                       "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
                       "NUMBA_CACHE_DIR": work + "/numba"})
        res["tests"] = c
        if c:
            res["tests_out"] = o[-500:]
        if c == 0 and c0 == 0 and c1 != 0 and res["original"]:
            dest = os.path.join(VERIF, "seeded", bid)
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(target, dest)
            res["kept"] = True
        res["checks"] = {}
        for p in [bug["property"]] + list(bug.get("also", [])):
            c, o = sh([VERIF + "/run.sh", p, tier], cwd=scratch,
                      env={"VP_REPO": scratch, "VP_OUT": work + "/ev", "TMPDIR": work,
                           "VERIF_SEED": "1", "VERIF_TIER": tier}, timeout=1500)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res["checks"][p] = [c, (v or o.splitlines()[-1:] or [""])[0][:200]]
            open(os.path.join(OUT, "%s-%s.log" % (bid, p)), "w").write(o)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
        json.dump(res, open(os.path.join(OUT, bid + ".json"), "w"), indent=1)
    return res

def main():
    os.makedirs(OUT, exist_ok=True)
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = set(sys.argv[2:])
    bugs = [b for b in ns["BUGS"] if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(6) as pool:
        futures = {pool.submit(run, b): b for b in bugs}
        for f in cf.as_completed(futures):
            try:
                r = f.result()
            except Exception as e:
                r = {"id": futures[f]["id"], "error": repr(e)}
            ok = r.get("kept")
            caught = any(v[0] == 1 for v in r.get("checks", {}).values())
            print(("KEPT  " if ok else "REJECT"), ("CAUGHT" if caught else "missed"),
                  r["id"], r.get("error", ""), "orig=%s demo=%s tests=%s" % (
                      r.get("original"), r.get("demo"), r.get("tests")),
                  {p: v[0] for p, v in r.get("checks", {}).items()}, flush=True)
            for k in ("demo_out", "tests_out"):
                if r.get(k):
                    print("   ", r[k][-400:].replace("\n", "\n    "))

main()
