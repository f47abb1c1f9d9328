"""python3 tools/recheck.py [ID ...]: run the check of its property against every planted bug in seeded/."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/recheck"


def one(bid):
    meta = json.load(open(os.path.join(VERIF, "seeded", bid, "meta.json")))
    scratch, work = os.path.join(OUT, bid), os.path.join(OUT, bid + "-work")
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    os.makedirs(work, exist_ok=True)
    try:
        subprocess.run(["git", "apply", os.path.join(VERIF, "seeded", bid, "patch.diff")], cwd=scratch, check=True)
        p = meta["property"]
        env = dict(os.environ, VP_REPO=scratch, VP_OUT=work + "/ev", TMPDIR=work, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run([VERIF + "/run.sh", p, "quick"], cwd=scratch, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=1500)
        lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return bid, p, r.returncode, (lines or r.stdout.splitlines()[-1:] or [""])[0]
    except Exception as error:
        return bid, meta["property"], -1, repr(error)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
os.makedirs(OUT, exist_ok=True)
with cf.ThreadPoolExecutor(6) as pool:
    for bid, p, code, line in pool.map(one, ids):
        print("CAUGHT" if code == 1 else "missed", bid, p, code, line, flush=True)
