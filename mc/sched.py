"""Controlled scheduler for threads of the real code.

Exactly one thread runs at a time.  A thread may be preempted before any source line of the package (line events of
sys.settrace); a plan says before which step of which thread control passes to another thread.  Locks the package
creates after locks() was called are known to the scheduler: a thread that has to wait hands control on, so
a schedule never hangs, and a deadlock is reported.
"""
import _thread, os, sys, threading
REPO = os.environ.get("PYRTLIB_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "pyrtlib") + os.sep
_active = {}      # thread id -> (Run, index)


class Deadlock(Exception):
    pass


class Lock:
    """A lock (or re-entrant lock) known to the scheduler."""

    def __init__(self, reentrant=False):
        self._l = _thread.allocate_lock()
        self._re, self._owner, self._n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        a = _active.get(me)
        if a is None:
            ok = self._l.acquire(blocking, timeout)
        else:
            ok = self._l.acquire(False)
            while not ok and blocking:
                a[0].wait(a[1])
                ok = self._l.acquire(False)
            if ok:
                a[0].held[a[1]].append(self)
        if ok:
            self._owner, self._n = me, 1
        return ok

    def release(self):
        if self._re and self._n > 1:
            self._n -= 1
            return
        self._owner, self._n = None, 0
        self._l.release()
        for r, i in list(_active.values()):
            if self in r.held[i]:
                r.held[i].remove(self)

    def locked(self):
        return self._l.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def locks():
    """From now on threading.Lock and RLock give the package locks known to the scheduler."""
    if getattr(threading.Lock, "_known", False):
        return

    def new(reentrant, real):
        def make():
            return Lock(reentrant) if sys._getframe(1).f_globals.get("__name__", "").startswith("pyrtlib") else real()
        make._known = True
        return make
    threading.Lock, threading.RLock = new(False, threading.Lock), new(True, threading.RLock)


def import_all():
    """Imports every module of the package, so that no schedule switches inside an import."""
    import pkgutil, importlib, pyrtlib
    for m in pkgutil.walk_packages(pyrtlib.__path__, "pyrtlib."):
        if ".tests" not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:
                pass            # optional dependency missing


def ours(f):
    return f.startswith(PKG) and "/tests/" not in f


class Run:
    """One schedule.  fns: one function per thread.  plan: {thread: {step: thread to run}}."""

    def __init__(self, fns, plan=None, record=False):
        self.fns, self.plan, self.record = fns, plan or {}, record
        n = len(fns)
        self.go = [_thread.allocate_lock() for _ in fns]
        self.end = _thread.allocate_lock()
        self.end.acquire()
        for g in self.go:
            g.acquire()
        self.done, self.steps, self.out = [False] * n, [0] * n, [None] * n
        self.trace = [[] for _ in fns]
        self.held = [[] for _ in fns]
        self.waiting = [False] * n
        self.switches = 0
        self.last = {i: max(p, default=-1) for i, p in self.plan.items()}

    # -- handing control over
    def give(self, i, j):
        self.switches += 1
        self.go[j].release()
        self.go[i].acquire()

    def others(self, i):
        return [j for j in range(len(self.fns)) if j != i and not self.done[j]]

    def wait(self, i):
        """Thread i waits for a lock."""
        self.waiting[i] = True
        o = [j for j in self.others(i) if not self.waiting[j]]
        if not o:
            raise Deadlock("all threads wait for a lock")
        self.give(i, o[0])

    def point(self, i, frame):
        s = self.steps[i]
        self.steps[i] = s + 1
        self.waiting = [False] * len(self.fns)
        if self.record:
            self.trace[i].append((frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno))
        j = self.plan.get(i, {}).get(s)
        if j is not None and j != i and not self.done[j]:
            self.give(i, j)
        if not self.record and s >= self.last[i]:
            sys.settrace(None)      # no further preemption is planned for this thread

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.point(i, frame)
            return local

        def trace(frame, event, arg):
            return local if ours(frame.f_code.co_filename) else None
        return trace

    def body(self, i):
        self.go[i].acquire()
        _active[_thread.get_ident()] = (self, i)
        if self.record or i in self.plan:
            sys.settrace(self.tracer(i))
        try:
            v = (True, self.fns[i]())
        except BaseException as e:
            v = (False, "%s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            sys.settrace(None)
        del _active[_thread.get_ident()]
        self.out[i], self.done[i] = v, True
        self.waiting = [False] * len(self.fns)
        o = self.others(i)
        if o:
            self.go[o[0]].release()
        else:
            self.end.release()

    def run(self, first=0, timeout=60):
        for i in range(len(self.fns)):
            _thread.start_new_thread(self.body, (i,))
        self.go[first].release()
        if not self.end.acquire(True, timeout):
            raise Deadlock("the schedule does not end")
        return self.out


def current():
    """(run, thread index) of the calling thread, or None."""
    return _active.get(_thread.get_ident())
