"""The state of this process that a library call must leave alone."""
import atexit
import builtins
import copyreg
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings

import numpy as np


def _digest(value):
    return hashlib.md5(repr(value).encode()).hexdigest()


def descriptors():
    """Open files of this process: number -> target."""
    res = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            res[int(fd)] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass        # the descriptor of the listing itself
    return res


def state(figures=True):
    """name -> comparable value."""
    root = logging.getLogger()
    numpy_state = np.random.get_state()
    res = {
        "numpy error state": tuple(sorted(np.geterr().items())),
        "numpy error call": repr(np.geterrcall()),
        "numpy print options": tuple(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "numpy random state": _digest((numpy_state[0], numpy_state[1].tobytes(), numpy_state[2:])),
        "random state": _digest(random.getstate()),
        "working directory": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "decimal context": repr(decimal.getcontext()),
        "signal handlers": tuple((s, repr(signal.getsignal(s))) for s in sorted(signal.valid_signals())),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "module path": tuple(sys.path),
        "hooks": tuple(id(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook)),
        "trace functions": (sys.gettrace(), sys.getprofile()),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), len(gc.callbacks)),
        "root logger": (root.level, tuple(id(h) for h in root.handlers), tuple(id(f) for f in root.filters), root.disabled,
                        logging.root.manager.disable),
        "warning filters": tuple(repr(f) for f in warnings.filters),
        "warning function": id(warnings.showwarning),
        "warnings at hand": tuple(id(x) for x in (warnings.warn, warnings.formatwarning, warnings.catch_warnings)),
        "exit functions": atexit._ncallbacks() if hasattr(atexit, "_ncallbacks") else None,
        "builtins": tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_")),
        "numpy functions": tuple((k, id(getattr(np, k))) for k in ("array", "asarray", "dot", "vdot", "around", "linspace", "sqrt")),
        "numpy buffer": np.getbufsize(),
        "time zone": (time.tzname, time.timezone),
        "temporary directory": tempfile.tempdir,
        "limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS,
                                                        resource.RLIMIT_CPU, resource.RLIMIT_CORE)),
        "processors": (tuple(sorted(os.sched_getaffinity(0))), os.getpriority(os.PRIO_PROCESS, 0)),
        "debugging": (faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.getdlopenflags(), gc.get_debug(),
                      gc.get_freeze_count()),
        "integer digits": sys.get_int_max_str_digits() if hasattr(sys, "get_int_max_str_digits") else None,
        "timers": tuple(signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)),
        "pickling": tuple(sorted((k.__module__ + "." + k.__qualname__ for k in copyreg.dispatch_table))),
        "threads": tuple(sorted(t.name for t in threading.enumerate())),
    }
    if "matplotlib" in sys.modules:
        import matplotlib
        res["plot settings"] = tuple(sorted((k, repr(v)) for k, v in matplotlib.rcParams._get_items() if k != "backend")) \
            if hasattr(matplotlib.rcParams, "_get_items") else tuple(
                sorted((k, repr(dict.__getitem__(matplotlib.rcParams, k))) for k in matplotlib.rcParams if k != "backend"))
    if figures and "matplotlib.pyplot" in sys.modules:
        import matplotlib.pyplot as plt
        res["figures"] = tuple(plt.get_fignums())
    return res


def differences(a, b):
    return sorted(k for k in a.keys() | b.keys() if a.get(k) != b.get(k))
