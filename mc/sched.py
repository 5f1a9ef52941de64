"""Cooperative scheduler: real threads of the real code, run one at a time, switched at chosen source lines.

Tasks given to joblib (backend 'verif-sched') are run in threads which hold a single token. A trace function counts
the lines executed in traced files; a schedule names the counts at which the token is given to another thread.
Locks created by the code under test are cooperative: a thread waiting for one gives the token away.
"""
import dis
import os
import sys
import threading
import types

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock
_LOCAL = threading.local()
_SCHED = None


class CoopLock:
    """Lock of the code under test."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s, t = _SCHED, getattr(_LOCAL, "task", None)
            if s is None or t is None or not s.give_up(t, self):
                if timeout is not None and timeout >= 0:
                    return False
                raise RuntimeError("deadlock")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def _factory(real, reentrant):
    def make(*args, **kw):
        if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "oups":
            return CoopLock(reentrant)
        return real(*args, **kw)

    return make


def install():
    """To be called before the code under test is imported."""
    threading.Lock = _factory(_REAL_LOCK, False)
    threading.RLock = _factory(_REAL_RLOCK, True)


TOOL = 4


def watch(dirs, but):
    """Have lines of files below ``dirs`` (other than those ending with ``but``) reported, in all threads."""
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "verif-sched")

    def start(code, offset):
        fn = code.co_filename
        if fn.startswith(dirs) and not fn.endswith(but):
            mon.set_local_events(TOOL, code, mon.events.LINE)
        return mon.DISABLE

    def line(code, lineno):
        s = _SCHED
        if s is None or s.free:
            return
        t = getattr(_LOCAL, "task", None)
        if t is None:
            return
        frame = sys._getframe(1)
        if s.only is None or s.only(frame, lineno):
            s._point(frame, t)

    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.PY_START)


class Task:
    def __init__(self, fn):
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.error = None
        self.waits = None
        self.points = 0
        self.thread = None


class Sched:
    """One execution. ``order``: rank of tasks in each parallel section; ``switches``: [(point, target rank offset)]."""

    def __init__(self, order=(), switches=(), only=None, record=False):
        self.order = order
        self.switches = dict(switches)
        self.only = only
        self.record = record
        self.trace = []
        self.point = 0
        self.sections = []
        self.starts = []  # points at which sections start
        self.shared = set()  # ids of objects given to several tasks
        self.taken = 0
        self.free = False
        self.stuck = False
        self.tasks = []
        self._names = {}

    # -- executed in the thread of a task

    def _point(self, frame, t):
        k = self.point
        self.point += 1
        if self.record:
            self.trace.append((self.tasks.index(t), os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        if k in self.switches:
            others = [x for x in self._ranked() if x is not t and not x.done and x.waits is None]
            if others:
                self.taken += 1
                self._hand(t, others[self.switches[k] % len(others)])

    def _ranked(self):
        return self.tasks

    def _hand(self, t, other):
        other.sem.release()
        t.sem.acquire()

    def give_up(self, t, lock):
        """Wait for a lock: another thread has to run. False when none can."""
        t.waits = lock
        others = [x for x in self.tasks if x is not t and not x.done and (x.waits is None or not x.waits.locked())]
        if not others:
            t.waits = None
            return False
        self._hand(t, others[0])
        t.waits = None
        return True

    def _run(self, t):
        t.sem.acquire()
        _LOCAL.task = t
        try:
            t.result = t.fn()
        except BaseException as e:
            t.error = e
        finally:
            _LOCAL.task = None
            t.done = True
            nxt = [x for x in self.tasks if not x.done]
            ready = [x for x in nxt if x.waits is None or not x.waits.locked()] or nxt
            if ready:
                ready[0].sem.release()
            else:
                self.end.release()

    # -- executed in the main thread

    def run_section(self, tasks):
        global _SCHED
        rank = [r for r in self.order if r < len(tasks)]
        rank += [r for r in range(len(tasks)) if r not in rank]
        self.tasks = [tasks[r] for r in rank]
        self.starts.append(self.point)
        self.shared |= shared_args(tasks)
        self.sections.append(len(tasks))
        self.end = threading.Semaphore(0)
        _SCHED = self
        try:
            for t in self.tasks:
                t.thread = threading.Thread(target=self._run, args=(t,), daemon=True)
                t.thread.start()
            self.tasks[0].sem.release()
            last = -1
            while not self.end.acquire(timeout=20):
                if self.point == last and not self.free:
                    # A thread waits for something unknown to the scheduler: let all of them run.
                    self.free = True
                    for t in self.tasks:
                        if not t.done:
                            t.sem.release()
                elif self.free:
                    self.stuck = True
                    raise RuntimeError("threads do not end: deadlock")
                last = self.point
            for t in self.tasks:
                t.thread.join(20)
        finally:
            _SCHED = None


def shared_args(tasks):
    """ids of mutable objects given to several tasks of a section, and of their mutable attributes."""
    seen, out = {}, set()
    for k, t in enumerate(tasks):
        for item in getattr(t.fn, "items", None) or ():
            try:
                _, args, kwargs = item
            except (TypeError, ValueError):
                continue
            for v in [*args, *kwargs.values()]:
                if isinstance(v, _SIMPLE) or callable(v):
                    continue
                if seen.setdefault(id(v), k) != k:
                    out.add(id(v))
                    out |= {id(a) for a in getattr(v, "__dict__", {}).values() if not isinstance(a, _SIMPLE) and not callable(a)}
    return out


class Handle:
    def __init__(self, backend, task):
        self.backend, self.task = backend, task

    def get(self, timeout=None):
        self.backend.flush()
        if self.task.error is not None:
            raise self.task.error
        return self.task.result


CURRENT = None  # Sched of the ongoing execution


def backend_class():
    from joblib._parallel_backends import ParallelBackendBase

    class Backend(ParallelBackendBase):
        uses_threads = True
        supports_sharedmem = True
        supports_retrieve_callback = False
        supports_timeout = False
        pending = ()

        def effective_n_jobs(self, n_jobs):
            return 1 if n_jobs == 1 else 16

        def submit(self, func, callback=None):
            t = Task(func)
            self.pending = [*self.pending, t]
            t.callback = callback
            return Handle(self, t)

        apply_async = submit

        def flush(self):
            tasks, self.pending = self.pending, ()
            if not tasks:
                return
            if CURRENT is None:
                for t in tasks:
                    try:
                        t.result = t.fn()
                    except BaseException as e:
                        t.error = e
            else:
                CURRENT.run_section(tasks)
            for t in tasks:
                if t.callback is not None:
                    t.callback(t.result)

        def abort_everything(self, ensure_ready=True):
            self.pending = ()

    return Backend


_SIMPLE = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, str, int, float, bytes, bool, tuple, frozenset, type(None))


def shared_lines(is_shared):
    """Predicate on frames: the line about to run names a mutable global, or a local for which ``is_shared`` holds."""
    cache = {}

    def names_of(code):
        if code not in cache:
            d, line = {}, None
            for ins in dis.get_instructions(code):
                if ins.starts_line is not None:
                    line = ins.starts_line
                if ins.opname.startswith(("LOAD_GLOBAL", "LOAD_NAME", "STORE_GLOBAL")):
                    d.setdefault(line, (set(), set()))[0].add(ins.argval)
                elif ins.opname.startswith(("LOAD_FAST", "LOAD_DEREF")):
                    for n in ins.argval if isinstance(ins.argval, tuple) else (ins.argval,):
                        d.setdefault(line, (set(), set()))[1].add(n)
            cache[code] = d
        return cache[code]

    def only(frame, lineno):
        if "sortedcontainers" in frame.f_code.co_filename:
            return True
        g, l = names_of(frame.f_code).get(lineno, ((), ()))
        for n in g:
            v = frame.f_globals.get(n)
            if v is not None and not isinstance(v, _SIMPLE) and not callable(v):
                return True
        for n in l:
            if n in frame.f_locals and is_shared(frame.f_locals[n]):
                return True
        return False

    return only
