"""
Running queries in several threads.

Controlled schedules: only one thread runs at a time and the turn is passed on
at randomly chosen lines (or byte codes) of the repository, so that a schedule
depends on the seed only.  A thread that gets no turn for a while goes on by
itself: code that waits for a lock of a paused thread cannot stop the others.

Free schedules: the interpreter switches as often as it can.
"""
import hashlib
import os
import random
import sys
import threading
import time

from vlib.harness import REPO

ROOT = os.path.join(REPO, "HamiltonianPy") + os.sep
TOOL = 4
PATIENCE = 0.25
_registered = False


class Turns:
    def __init__(self, seed, number, level, density):
        self.py = random.Random(seed)
        self.number = number
        self.level = level
        self.density = density
        self.events = [threading.Event() for _ in range(number)]
        self.alive = set(range(number))
        self.local = threading.local()
        self.steps = 0
        self.handoffs = 0
        self.impatient = 0
        self.busy = False
        self.digest = hashlib.md5()
        self.places = set()

    # called with the turn
    def pass_on(self, me, leaving=False):
        others = sorted(self.alive - {me})
        if not others:
            return
        target = self.py.choice(others)
        self.handoffs += 1
        mine = self.events[me]
        mine.clear()
        self.events[target].set()
        if not leaving:
            self.wait(me)

    def wait(self, me):
        if not self.events[me].wait(PATIENCE):
            self.impatient += 1
            self.events[me].set()

    def step(self, code, where):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        me = getattr(self.local, "me", None)
        if me is None or getattr(self.local, "inside", False):
            return None
        self.local.inside = True
        try:
            self.steps += 1
            if self.py.random() < self.density:
                self.digest.update("{0}:{1}:{2};".format(me, code.co_name, where).encode())
                self.places.add((code.co_filename, code.co_name, where))
                self.pass_on(me)
        finally:
            self.local.inside = False
        return None

    def __enter__(self):
        global _registered
        mon = sys.monitoring
        if not _registered:
            mon.use_tool_id(TOOL, "vp-schedule")
            _registered = True
        event = mon.events.LINE if self.level == "line" else mon.events.INSTRUCTION
        mon.register_callback(TOOL, event, self.step)
        self.event = event
        mon.set_events(TOOL, event)
        return self

    def __exit__(self, *exc):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.register_callback(TOOL, self.event, None)

    def start(self, me):
        self.local.me = me
        if me:
            # the first thread begins
            while not self.events[me].wait(PATIENCE):
                if self.events[me].is_set() or self.begun:
                    self.impatient += 1
                    break

    begun = False

    def finish(self, me):
        self.local.me = None
        self.alive.discard(me)
        if self.alive:
            self.pass_on(me, leaving=True)


class Interrupt:
    """Stops the calling thread after its k-th step in the repository, has
    another thread run `visitor` from beginning to end, and goes on."""

    def __init__(self, level, k, visitor):
        self.level = level
        self.k = k
        self.visitor = visitor
        self.steps = 0
        self.place = None
        self.results = None
        self.waited = False
        self.thread = None

    def step(self, code, where):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        if threading.get_ident() != self.owner:
            return None
        self.steps += 1
        if self.steps == self.k:
            self.place = (os.path.relpath(code.co_filename, ROOT), code.co_name, where)
            self.thread = threading.Thread(target=self.visit, daemon=True)
            self.thread.start()
            # a visitor that needs a lock of this thread has to wait for it
            self.thread.join(PATIENCE)
            self.waited = self.thread.is_alive()
        return None

    def visit(self):
        results = []
        for key, func in self.visitor:
            try:
                results.append((key, func(), None))
            except Exception as exc:
                results.append((key, None, exc))
        self.results = results

    def __enter__(self):
        global _registered
        mon = sys.monitoring
        if not _registered:
            mon.use_tool_id(TOOL, "vp-schedule")
            _registered = True
        self.owner = threading.get_ident()
        self.event = mon.events.LINE if self.level == "line" else mon.events.INSTRUCTION
        mon.register_callback(TOOL, self.event, self.step)
        mon.set_events(TOOL, self.event)
        return self

    def __exit__(self, *exc):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.register_callback(TOOL, self.event, None)
        if self.thread is not None:
            self.thread.join(60)


class Free:
    """No control; the switch interval is as small as possible."""
    steps = handoffs = impatient = 0
    level = "free"

    def __init__(self, interval):
        self.interval = interval
        self.digest = hashlib.md5()
        self.places = set()

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(self.interval)
        return self

    def __exit__(self, *exc):
        sys.setswitchinterval(self.old)

    def start(self, me):
        pass

    def finish(self, me):
        pass


def run(schedule, jobs, convoy=False, limit=90):
    """jobs: for every thread a list of (key, function).  Returns for every
    thread the list of (key, result or None, exception or None), and the
    number of calls that began while another one was in progress."""
    number = len(jobs)
    results = [[] for _ in jobs]
    gate = threading.Barrier(number)
    inside = [0]
    overlaps = [0]

    def body(me):
        try:
            gate.wait(30)
            schedule.start(me)
            schedule.begun = True
            for key, func in jobs[me]:
                if inside[0] > 0:
                    overlaps[0] += 1
                inside[0] += 1
                try:
                    value = func()
                    results[me].append((key, value, None))
                except Exception as exc:
                    results[me].append((key, None, exc))
                finally:
                    inside[0] -= 1
        finally:
            schedule.finish(me)

    threads = [threading.Thread(target=body, args=(me,), daemon=True) for me in range(number)]
    end = time.monotonic() + limit
    with schedule:
        for t in threads:
            t.start()
        for t in threads:
            t.join(max(0.0, end - time.monotonic()))
        stuck = [k for k, t in enumerate(threads) if t.is_alive()]
    return results, overlaps[0], stuck
