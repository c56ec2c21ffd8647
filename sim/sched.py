"""Baton-passing scheduler for real Python threads.

Exactly one simulated thread runs at a time; at every scheduling point the next one is chosen by the
run's seeded Choices. Scheduling points: every executed line of the transpiler's Python files
(sys.settrace), entry to and return from the code formatter, the simulated locks below, and explicit
sched.point() calls of stand-ins. threading.Lock/RLock are replaced (install_locks) before the code
under test is imported, so a lock of its own blocks the simulated thread and not the simulator.

A thread that is stuck outside the simulator's control while the interpreter lock is free (waiting on
some foreign primitive) is detected by a watchdog thread: the baton is passed on and the thread rejoins
when it comes back. A thread stuck with the interpreter lock held freezes the process: the parent
process sees no result in time, which is the no-progress violation.
"""
import _thread, sys, threading, time
from core import Violation, HarnessError

_real_lock = _thread.allocate_lock
_RealThread = threading.Thread
current = None  # the active Scheduler


class _Sim:
    __slots__ = ("idx", "fn", "name", "sem", "state", "result", "blocked_on", "ident", "steps", "nopreempt")


class Deadlock(Violation):
    pass


class Scheduler:
    def __init__(self, ctx, preempt=0.25, files=(), max_points=20000):
        self.ctx, self.preempt, self.files = ctx, preempt, files
        self.threads = []
        self.cur = None
        self.done = _real_lock()
        self.done.acquire()
        self.by_ident = {}
        self.points = 0
        self.max_points = max_points
        self.stop_trace = False
        self.deadlock = None
        self.mu = _real_lock()
        self.last = time.monotonic()
        self.switches = 0
        self.trace_sig = []

    def spawn(self, fn, name):
        t = _Sim()
        t.idx, t.fn, t.name = len(self.threads), fn, name
        t.sem = _real_lock()
        t.sem.acquire()
        t.state, t.result, t.blocked_on, t.ident, t.steps, t.nopreempt = "ready", None, None, None, 0, 0
        self.threads.append(t)
        return t

    # -- thread body
    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        if self.files:
            sys.settrace(self._trace)
        try:
            t.result = ("ok", t.fn())
        except BaseException as e:
            t.result = ("exc", e)
        finally:
            sys.settrace(None)
        self._leave(t)

    def _leave(self, t):
        with self.mu:
            t.state = "done"
            mine = self.cur is t
        if mine:
            self._pass_on(t)

    def _runnable(self):
        return [x for x in self.threads if x.state == "ready"]

    def _pass_on(self, t):
        """t (holding the baton) cannot continue now: choose another."""
        r = self._runnable()
        if not r:
            live = [x for x in self.threads if x.state not in ("done",)]
            ext = [x for x in live if x.state == "external"]
            if not live:
                self.cur = None
                self.done.release()
                return
            if ext:
                self.cur = None  # wait for an external one to come back
                return
            self.deadlock = [f"{x.name} waits for a lock" for x in live]
            self.cur = None
            self.done.release()
            return
        k = self.ctx.choices.pick(len(r)) if len(r) > 1 else 0
        self._give(r[k])

    def _give(self, x):
        self.cur = x
        self.switches += 1
        self.trace_sig.append((x.idx, x.steps))
        self.ctx.log("switch", x.name)
        self.last = time.monotonic()
        x.sem.release()

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def point(self, what):
        """A scheduling point of the current simulated thread."""
        t = self.me()
        if t is None:
            return
        if t.state == "external":  # was given up on by the watchdog: queue for the baton again
            with self.mu:
                t.state = "ready"
                idle = self.cur is None
                if idle:
                    self._give(t)
            t.sem.acquire()
        self.last = time.monotonic()
        self.points += 1
        t.steps += 1
        if t.nopreempt or self.points > self.max_points:
            return
        r = [x for x in self._runnable() if x is not t]
        if not r:
            return
        k = self.ctx.choices.pick(len(r) + 1, bias=1 - self.preempt)
        if k == 0:
            return
        self.ctx.log("preempt", t.name, what)
        self._give(r[k - 1])
        t.sem.acquire()

    def block(self, t, lock):
        t.state, t.blocked_on = "blocked", lock
        self.ctx.log("block", t.name)
        self._pass_on(t)
        t.sem.acquire()

    def wake(self, lock):
        for x in self.threads:
            if x.state == "blocked" and x.blocked_on is lock:
                x.state, x.blocked_on = "ready", None

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not any(f in fn for f in self.files):
            return None
        if event == "call":
            self.point(f"{frame.f_code.co_name}")
            return self._trace
        if event == "line":
            self.point(f"{frame.f_code.co_name}:{frame.f_lineno}")
        return self._trace

    def _watch(self):
        while not self.finished:
            time.sleep(0.25)
            with self.mu:
                c = self.cur
                if self.finished or c is None or c.state != "ready":
                    continue
                if time.monotonic() - self.last > 3.0:
                    r = [x for x in self._runnable() if x is not c]
                    if r:
                        c.state = "external"
                        self.ctx.probe("externally_blocked")
                        self.cur = None
                        self._give(r[0])

    def run(self):
        global current
        current = self
        self.finished = False
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
        while any(t.ident is None for t in self.threads):
            time.sleep(0)
        _thread.start_new_thread(self._watch, ())
        r = self._runnable()
        if r:
            self._give(r[self.ctx.choices.pick(len(r))])
            self.done.acquire()
        self.finished = True
        current = None
        self.ctx.state("interleaving", self.trace_sig)
        self.ctx.probe("switches", self.switches)
        if self.deadlock:
            raise Deadlock("deadlock", "; ".join(self.deadlock))
        return [t.result for t in self.threads]


def point(what):
    s = current
    if s is not None:
        s.point(what)


class SimLock:
    """Lock that blocks the simulated thread instead of the process."""

    def __init__(self):
        self._l = _real_lock()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = current
        t = s.me() if s else None
        if t is None:
            return self._l.acquire(blocking, timeout)
        s.point("lock.acquire")
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # simulated timeout: give the others a turn, then report it
                s.point("lock.timeout")
                return self._l.acquire(False)
            s.block(t, self)
        return True

    def release(self):
        self._l.release()
        s = current
        if s is not None:
            s.wake(self)
            if s.me() is not None:
                s.point("lock.release")

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    __enter__ = lambda self: self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._b = SimLock()
        self._o, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._o, self._n = me, 1
            return True
        return False

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._o = None
            self._b.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        st = (self._o, self._n)
        self._o, self._n = None, 0
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._o, self._n = st

    def _at_fork_reinit(self):
        self.__init__()

    __enter__ = lambda self: self.acquire()

    def __exit__(self, *a):
        self.release()


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
