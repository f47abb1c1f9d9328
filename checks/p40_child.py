"""A process of P40: JSON on argv[1] describes the conditions and the programs, the pickled answers go to a file."""
import gc
import importlib
import json
import os
import pickle
import sys
import threading

job = json.loads(sys.argv[1])
if job.get("gc") == "stress":
    gc.set_threshold(20, 2, 2)
elif job.get("gc") == "off":
    gc.disable()
for name in job["first"]:
    importlib.import_module(name)

import numpy as np                                  # noqa: E402

if job.get("seterr"):
    np.seterr(**job["seterr"])

import HamiltonianPy                                # noqa: E402
from vlib.world import World, canon                 # noqa: E402


def answers(seed, parts):
    world = World(seed, parts)
    res = [(name, canon(query())) for name, query in world.queries]
    # the order of the lists as well
    if hasattr(world, "lat"):
        for nth in (1, 2):
            for bonds in world.lat.bonds(nth):
                res.append(("order of bonds", canon(list(bonds))))
    return res


def programs():
    return [answers(seed, parts) for seed, parts in job["programs"]]


def guarded():
    try:
        return "ok", programs()
    except BaseException as exc:                    # noqa: B902
        import traceback
        return "error", "{0!r}\n{1}".format(exc, traceback.format_exc()[-1500:])


def write(value):
    with open(job["out"] + ".part", "wb") as f:
        pickle.dump(value, f)
    os.rename(job["out"] + ".part", job["out"])


def main():
    where = os.path.dirname(os.path.abspath(HamiltonianPy.__file__))
    if job["place"] == "main":
        res = guarded()
    elif job["place"] == "thread":
        box = []
        t = threading.Thread(target=lambda: box.append(guarded()))
        t.start()
        t.join()
        res = box[0]
    elif job["place"] == "second":
        # after the same, and other, work
        for seed, parts in job["before"]:
            answers(seed, parts)
        res = guarded()
    else:
        # a forked process, after use in the parent process
        for seed, parts in job["before"]:
            answers(seed, parts)
        pid = os.fork()
        if pid == 0:
            try:
                write((where,) + guarded())
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        return
    write((where,) + res)


main()
