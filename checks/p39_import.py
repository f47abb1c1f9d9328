"""Imports in a new process; prints a pickle of what changed."""
import contextlib
import importlib
import io
import json
import os
import pickle
import sys

# everything the library builds upon, and what that does to the process
import matplotlib           # noqa: F401
import matplotlib.pyplot    # noqa: F401
import numba                # noqa: F401
import numpy                # noqa: F401
import scipy.linalg         # noqa: F401
import scipy.sparse.linalg  # noqa: F401
import scipy.spatial        # noqa: F401
import mpl_toolkits.mplot3d  # noqa: F401

from vlib import process

real = os.fdopen(os.dup(1), "wb")
written = io.StringIO()
with contextlib.redirect_stdout(written):
    first, files = process.state(), process.descriptors()
    names = []
    for name in json.loads(sys.argv[1]):
        module = importlib.import_module(name)
        public = getattr(module, "__all__", [])
        names.append((name, [x for x in public if not hasattr(module, x)]))
    space = {}
    exec("from HamiltonianPy import *", space)
    import HamiltonianPy
    names.append(("*", [x for x in HamiltonianPy.__all__ if x not in space]))
    names.append(("duplicates", sorted({x for x in HamiltonianPy.__all__ if HamiltonianPy.__all__.count(x) > 1})))
    last, now = process.state(), process.descriptors()
real.write(pickle.dumps((process.differences(first, last), sorted(v for k, v in now.items() if k not in files),
                         written.getvalue(), names)))
real.flush()
