"""The simulator: caller threads, interrupts, clocks and callback faults under one seeded plan.

Nodes of the simulation are *caller threads*.  They are real threads, but exactly one runs at any
time: each holds the baton and gives it up only at a *line event* of conmech's own Python code
(``sys.settrace``), or when it blocks on a lock conmech created, or when it ends.  Who runs next is
read from an explicit plan ``[(thread, local event index, next thread), ...]`` drawn from the seed,
so a run is a pure function of (code, scenario), and a plan can be minimised by dropping entries.

An *interrupt* (KeyboardInterrupt, MemoryError, ... delivered at an arbitrary instant) is an
exception raised out of the trace function at the chosen local event.
"""

import builtins
import collections
import os
import sys
import threading
import time as _time

REPO = os.environ.get("DST_REPO", "/repo")
CODE_PREFIX = os.path.join(REPO, "conmech") + os.sep

_RealLock = threading.Lock
_RealRLock = threading.RLock
_get_ident = threading.get_ident

_CURRENT = None  # the active Scheduler of this process


class Deadlock(RuntimeError):
    pass


class StepLimit(RuntimeError):
    pass


class SimFault(Exception):
    """Base of injected exceptions, so the oracle can recognise them in a chain."""


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class SimCallbackError(RuntimeError):
    pass


EXC = {"interrupt": SimInterrupt, "memory": SimMemoryError, "callback": SimCallbackError}
INJECTED = (SimInterrupt, SimMemoryError, SimCallbackError)


def _errors():
    import numpy as np

    return (SimCallbackError, FloatingPointError, OverflowError, ZeroDivisionError, ValueError,
            KeyError, IndexError, TypeError, AttributeError, OSError, MemoryError, RuntimeError,
            ArithmeticError, LookupError, AssertionError, NotImplementedError,
            np.linalg.LinAlgError, RecursionError, TimeoutError, SimInterrupt)


def injected(u, where):
    """An exception of a kind chosen by ``u`` in [0, 1), marked as injected."""
    kinds = _errors()
    cls = kinds[int(u * 1e4) % len(kinds)]
    e = cls(f"injected in {where}")
    e._dst_injected = True
    return e


def injected_in_chain(exc):
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, INJECTED) or getattr(e, "_dst_injected", False):
            return True
        todo += [e.__cause__, e.__context__]
        if isinstance(e, BaseExceptionGroup):
            todo += list(e.exceptions)
    return False


# --------------------------------------------------------------------------- line tracing
class LineTracer:
    """Counts line events in conmech code on the current thread; may raise at a given one."""

    def __init__(self, at=None, exc="interrupt", record=False, limit=2_000_000, on_line=None):
        self.at, self.exc, self.limit = at, exc, limit
        self.count = 0
        self.sites = [] if record else None
        self.fired = None
        self.on_line = on_line

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(CODE_PREFIX):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            k = self.count
            self.count = k + 1
            if self.sites is not None:
                self.sites.append(
                    frame.f_code.co_filename[len(CODE_PREFIX):] + ":" + str(frame.f_lineno))
            if k == self.at:
                self.fired = (
                    f"{frame.f_code.co_filename[len(CODE_PREFIX):]}:{frame.f_lineno}"
                    f" in {frame.f_code.co_name}")
                raise EXC[self.exc](f"injected at event {k}")
            if self.on_line is not None:
                self.on_line(k)
            if k > self.limit:
                raise StepLimit(f"{k} line events")
        return self._local

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        return False


def pick_event(rng, sites):
    """Index into ``sites``: half the time uniform over events, half uniform over distinct lines
    (so that lines executed once are reached as often as lines in hot loops)."""
    if not sites:
        return 0
    if rng.random() < 0.4:
        return int(rng.integers(len(sites)))
    occ = collections.defaultdict(list)
    for i, s in enumerate(sites):
        occ[s].append(i)
    keys = sorted(occ)
    lst = occ[keys[int(rng.integers(len(keys)))]]
    return lst[int(rng.integers(len(lst)))]


def resolve_event(sites, u, v):
    """Like pick_event for two recorded uniform numbers, so a plan survives minimisation."""
    if not sites:
        return 0
    if u < 0.4:
        return int(u / 0.4 * len(sites))
    occ = collections.defaultdict(list)
    for i, s in enumerate(sites):
        occ[s].append(i)
    keys = sorted(occ)
    lst = occ[keys[min(int((u - 0.4) / 0.6 * len(keys)), len(keys) - 1)]]
    return lst[min(int(v * len(lst)), len(lst) - 1)]


def draw_plan(rng, n_threads, k):
    """[thread, u, v, next thread] entries; events are resolved against a recorded run."""
    out = []
    for _ in range(k):
        t = int(rng.integers(n_threads))
        nxt = int((t + 1 + rng.integers(max(1, n_threads - 1))) % n_threads)
        out.append([t, round(float(rng.random()), 6), round(float(rng.random()), 6), nxt])
    return out


def resolve_plan(plan, sites):
    return [(t, resolve_event(sites.get(t, []), u, v), nxt) for t, u, v, nxt in plan]


# --------------------------------------------------------------------------- scheduler
class SimThread:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = threading.Semaphore(0)
        self.count = 0
        self.done = False
        self.blocked_on = None
        self.result = None
        self.error = None
        self.thread = None


class Scheduler:
    def __init__(self, plan=(), record=False, limit=3_000_000, interrupts=()):
        """``interrupts``: [(thread, local event, exception name), ...]"""
        self.plan = {(int(a), int(b)): int(c) for a, b, c in plan}
        self.interrupts = {(int(a), int(b)): c for a, b, c in interrupts}
        self.fired = []
        self.threads = []
        self.current = None
        self.record = record
        self.sites = collections.defaultdict(list)
        self.trace_log = []  # (thread, local event, next thread): the interleaving actually taken
        self.total = 0
        self.limit = limit
        self.main = threading.Semaphore(0)
        self.idents = {}
        self.failure = None

    def add(self, fn):
        t = SimThread(len(self.threads), fn)
        self.threads.append(t)
        return t.tid

    # -- tracing in each simulated thread
    def _tracer(self, t):
        def local(frame, event, arg):
            if event == "line":
                self._event(t, frame)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(CODE_PREFIX):
                return None
            return local

        return glob

    def _event(self, t, frame):
        k = t.count
        t.count = k + 1
        self.total += 1
        if self.record:
            self.sites[t.tid].append(
                frame.f_code.co_filename[len(CODE_PREFIX):] + ":" + str(frame.f_lineno))
        if self.total > self.limit:
            raise StepLimit(f"{self.total} events")
        nxt = self.plan.get((t.tid, k))
        if nxt is not None:
            self._switch(t, nxt, k)
        if self.interrupts and (t.tid, k) in self.interrupts:
            self.fired.append((t.tid, k))
            raise EXC[self.interrupts[t.tid, k]](f"injected at event {k}")

    def _runnable(self, tid):
        t = self.threads[tid]
        return not t.done and (t.blocked_on is None or t.blocked_on._free_for(t))

    def _choose(self, preferred):
        n = len(self.threads)
        for d in range(n):
            tid = (preferred + d) % n
            if self._runnable(tid):
                return self.threads[tid]
        return None

    def _switch(self, t, preferred, k):
        target = self._choose(preferred % len(self.threads))
        if target is None or target is t:
            return
        self.trace_log.append((t.tid, k, target.tid))
        self.current = target
        target.sem.release()
        t.sem.acquire()

    def block(self, lock):
        """Current thread cannot take ``lock``: run somebody else until it can."""
        t = self.current
        while not lock._free_for(t):
            t.blocked_on = lock
            target = self._choose((t.tid + 1) % len(self.threads))
            if target is None or target is t:
                self.failure = "deadlock"
                raise Deadlock("all simulated threads are blocked")
            self.trace_log.append((t.tid, t.count, target.tid))
            self.current = target
            target.sem.release()
            t.sem.acquire()
        t.blocked_on = None

    def _body(self, t):
        t.sem.acquire()
        self.idents[_get_ident()] = t
        sys.settrace(self._tracer(t))
        try:
            t.result = t.fn()
        except BaseException as e:  # noqa: the simulated caller sees it
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            nxt = self._choose((t.tid + 1) % len(self.threads))
            if nxt is None:
                if not all(x.done for x in self.threads):
                    self.failure = "deadlock"
                self.main.release()
            else:
                self.trace_log.append((t.tid, t.count, nxt.tid))
                self.current = nxt
                nxt.sem.release()

    def run(self, first=0):
        global _CURRENT
        _CURRENT = self
        try:
            for t in self.threads:
                t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
                t.thread.start()
            self.current = self.threads[first]
            self.current.sem.release()
            if not self.main.acquire(timeout=600):
                raise RuntimeError("HARNESS: simulation wall timeout")
        finally:
            _CURRENT = None
        return self

    def digest(self):
        return tuple(self.trace_log)


class SimLock:
    """Lock handed to conmech code: blocking is a scheduling decision."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.depth = reentrant, None, 0

    def _me(self):
        return _CURRENT.current if _CURRENT is not None else "main"

    def _free_for(self, t):
        return self.depth == 0 or (self.reentrant and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if not self._free_for(me):
            if not blocking:
                return False
            if _CURRENT is None:
                raise Deadlock("lock held for ever")
            if timeout is not None and timeout >= 0:
                return False
            _CURRENT.block(self)
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.depth == 0:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")


def _from_conmech():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(CODE_PREFIX)


def install_locks():
    """Locks created by conmech modules become scheduling points; everybody else's stay real."""

    def lock():
        return SimLock() if _from_conmech() else _RealLock()

    def rlock():
        return SimLock(True) if _from_conmech() else _RealRLock()

    threading.Lock = lock
    threading.RLock = rlock


# --------------------------------------------------------------------------- clocks
class Clock:
    """Owns every clock conmech can read.  ``jumps``: list of offsets (s) applied per reading of
    the wall clock (cyclic); the monotonic clocks only ever advance."""

    NAMES = ("time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic", "monotonic_ns",
             "process_time", "process_time_ns")

    def __init__(self, jumps=(), tick=1e-4, start=1.7e9):
        self.jumps, self.tick, self.start = list(jumps), tick, start
        self.reads = collections.Counter()
        self.wall = start
        self.mono = 1000.0
        self.n = 0

    def _step(self, name):
        self.reads[name] += 1
        self.mono += self.tick
        self.wall += self.tick
        if name.startswith("time"):
            if self.jumps:
                j = self.jumps[self.n % len(self.jumps)]
                self.n += 1
                self.wall += j
            return self.wall
        return self.mono

    def __enter__(self):
        self.saved = {n: getattr(_time, n) for n in self.NAMES}

        def mk(name):
            if name.endswith("_ns"):
                return lambda: int(self._step(name) * 1e9)
            return lambda: self._step(name)

        for n in self.NAMES:
            setattr(_time, n, mk(n))
        return self

    def __exit__(self, *_):
        for n, f in self.saved.items():
            setattr(_time, n, f)
        return False


# --------------------------------------------------------------------------- call faults
class CallFault:
    """The ``at``-th call (0-based) of ``module.name`` raises; counts calls."""

    def __init__(self, module, name, at=None, exc=None):
        self.module, self.name, self.at = module, name, at
        self.exc = exc or (lambda: SimCallbackError("injected"))
        self.calls = 0
        self.fired = False

    def __enter__(self):
        self.real = getattr(self.module, self.name)

        def wrapper(*a, **k):
            n = self.calls
            self.calls += 1
            if n == self.at:
                self.fired = True
                e = self.exc()
                try:
                    e._dst_injected = True
                except AttributeError:
                    pass
                raise e
            return self.real(*a, **k)

        setattr(self.module, self.name, wrapper)
        return self

    def __exit__(self, *_):
        setattr(self.module, self.name, self.real)
        return False


class Sink:
    """stdout as the simulated caller's terminal: may fail at the n-th write."""

    encoding = "utf-8"

    def __init__(self, fail_at=None):
        self.fail_at, self.writes, self.fired = fail_at, 0, False

    def write(self, s):
        n = self.writes
        self.writes += 1
        if self.fail_at is not None and n == self.fail_at:
            self.fired = True
            e = BrokenPipeError(32, "injected")
            e._dst_injected = True
            raise e
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = self
        return self

    def __exit__(self, *_):
        sys.stdout = self.saved
        return False
