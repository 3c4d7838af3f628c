"""Control over Python-level nondeterminism: thread interleavings, asynchronous
exceptions and locks.

A simulated thread is a real thread, but exactly one runs at a time, and it can
be replaced only at a *step*: one bytecode of karta's Python code (or one line
of library code below it). Which thread runs after which step is given by the
scenario, so the same scenario is the same interleaving.
"""
import os
import sys
import threading
import _thread

KARTA = os.path.join(os.environ.get("KARTA_REPO", "/repo"), "karta") + os.sep
HARNESS = os.path.dirname(os.path.abspath(__file__)) + os.sep

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident

_current = None         # the running Scheduler


class Deadlock(Exception):
    """nothing can run any more"""


class StepLimit(Exception):
    """no progress within the bounded number of steps"""


# ------------------------------------------------------------------ locks

class SimLock(object):
    """Stands in for threading.Lock: blocking hands control to the scheduler;
    blocking with nobody left to release it is reported instead of hanging."""
    _re = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            if _current is None or me not in _current.byident:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("a lock is waited for that nobody will release")
            if not _current.block(self, timeout is not None and timeout >= 0):
                return False

    acquire_lock = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    release_lock = release

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner == _get_ident()


class SimRLock(SimLock):
    _re = True

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st


def install_locks():
    """Locks created from now on by karta are simulated ones."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ------------------------------------------------------------------ tracing

def traced(filename):
    return filename.startswith(KARTA)


def make_trace(tick, libs=False):
    """A trace function calling tick(frame, event) for each bytecode of karta
    code (and each line of other Python code outside the harness, if libs)."""
    def local(frame, event, arg):
        if event == "opcode":
            tick(frame, event)
        return local

    def local_line(frame, event, arg):
        if event == "line":
            tick(frame, event)
        return local_line

    def glob(frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(KARTA):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return local
        if libs and not fn.startswith(HARNESS) and not fn.startswith("<") and "threading" not in fn \
                and "importlib" not in fn:
            return local_line
        return None
    return glob


def part(seq, fraction):
    return seq[min(int(fraction * len(seq)), len(seq) - 1)]


class Interrupted(object):
    """Runs fn, raising exc at its k-th step. k=None only counts, and notes
    the steps at which each place of the code was passed."""

    def __init__(self, k=None, exc=None, libs=True):
        self.k, self.exc, self.libs = k, exc, libs
        self.n = 0
        self.fired = False
        self.where = None
        self.raw, self.codes = {}, []

    def step(self, at):
        """the step meant by `at` in an execution like this one: a fraction of
        its length, or [place, occurrence] as fractions of the places passed and
        of the times that one was"""
        if not isinstance(at, list):
            return min(int(at * self.n), self.n - 1)
        occ = [v for _, v in sorted(self.raw.values(), key=lambda x: x[0])]
        steps = part(occ, at[0])
        return part(steps, at[1])

    def tick(self, frame, event):
        i = self.n
        self.n += 1
        if self.k is None:
            c = frame.f_code
            k = (id(c), frame.f_lasti)
            seen = self.raw.get(k)
            if seen is None:
                self.codes.append(c)
                fn = c.co_filename
                fn = "1" + fn[len(KARTA):] if fn.startswith(KARTA) else "0" + fn
                seen = self.raw[k] = ((fn, c.co_firstlineno, c.co_name, frame.f_lasti), [])
            if len(seen[1]) < 60:
                seen[1].append(i)
        if self.k is not None and i == self.k and not self.fired:
            self.fired = True
            self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            sys.settrace(None)
            raise self.exc("injected at step %d" % i)

    def run(self, fn):
        sys.settrace(make_trace(self.tick, self.libs))
        try:
            return fn()
        finally:
            sys.settrace(None)


# ------------------------------------------------------------------ threads

class _T(object):
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.gate = _real_allocate()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.timed = False
        self.timedout = False
        self.result = None
        self.exc = None
        self.ident = None


class Scheduler(object):
    """Runs functions as threads. `switches` is a list of [step, thread]: when
    the global step counter reaches `step`, control passes to `thread`, or to a
    thread other than the running one (negative: -1 the next one, -2 the one
    after it). With `meet`, control returns to the thread that was replaced as
    soon as another one is about to take the step it was replaced at.
    With `record`, `places` gets the steps taken at each place of the code."""

    def __init__(self, switches=(), limit=2000000, record=False, meet=()):
        self.switches = {}
        for s, t in switches:
            self.switches.setdefault(int(s), int(t))
        self.meet = set(meet)
        self.armed = None
        self.places = {} if record else None
        self.raw, self.codes = {}, []
        self.limit = limit
        self.n = 0
        self.nswitch = 0
        self.trail = []         # (step, thread, place) of every switch taken
        self.byident = {}
        self.failure = None

    def run(self, fns):
        global _current
        self.ts = [_T(i, f) for i, f in enumerate(fns)]
        self.finished = _real_allocate()
        self.finished.acquire()
        _current = self
        started = _real_allocate()
        started.acquire()
        for t in self.ts:
            def body(t=t):
                t.ident = _get_ident()
                self.byident[t.ident] = t
                started.release()
                t.gate.acquire()
                try:
                    sys.settrace(make_trace(self.tick))
                    try:
                        t.result = t.fn()
                    finally:
                        sys.settrace(None)
                except BaseException as e:
                    sys.settrace(None)
                    t.exc = e
                t.done = True
                self.leave(t)
            _real_start(body, ())
            started.acquire()
        try:
            self.cur = self.ts[0]
            self.ts[0].gate.release()
            self.finished.acquire()
        finally:
            _current = None
        if self.failure is not None:
            raise self.failure
        return [(t.result, t.exc) for t in self.ts]

    def ready(self):
        return [t for t in self.ts if not t.done and (t.waiting is None or not t.waiting.locked())]

    def handoff(self, t, frm):
        self.cur = t
        t.waiting = None
        t.gate.release()
        if frm is not None and not frm.done:
            frm.gate.acquire()

    def tick(self, frame, event):
        i = self.n
        self.n += 1
        if i >= self.limit:
            sys.settrace(None)
            raise StepLimit("no end within %d steps" % self.limit)
        if self.places is not None:
            c = frame.f_code
            k = (id(c), frame.f_lasti)
            seen = self.raw.get(k)
            if seen is None:
                self.raw[k] = self.places[self.place(frame)] = seen = []
                self.codes.append(c)        # so that its id remains its own
            if len(seen) < 60:
                seen.append((i, self.cur.i))
        to = self.switches.get(i)
        if to is not None:
            t = self.ts[(to if to >= 0 else self.cur.i - to) % len(self.ts)]
            if i in self.meet:
                self.armed = (self.place(frame), self.cur)
            self.replace(t, frame)
        elif self.armed is not None and self.cur is not self.armed[1] and self.place(frame) == self.armed[0]:
            t, self.armed = self.armed[1], None
            self.replace(t, frame)

    @staticmethod
    def place(frame):
        c = frame.f_code
        return (os.path.basename(c.co_filename), c.co_firstlineno, c.co_name, frame.f_lasti)

    def replace(self, t, frame):
        me = self.cur
        if t is not me and t in self.ready():
            self.nswitch += 1
            self.trail.append((me.i, t.i, os.path.basename(frame.f_code.co_filename), frame.f_code.co_name,
                               frame.f_lineno))
            self.handoff(t, me)

    def block(self, lock, timed):
        me = self.cur
        me.waiting = lock
        ready = [t for t in self.ready() if t is not me]
        if not ready:
            me.waiting = None
            if timed:
                return False
            raise Deadlock("every thread waits for a lock")
        self.trail.append((me.i, ready[0].i, "lock"))
        self.handoff(ready[0], me)
        return True

    def leave(self, t):
        ready = self.ready()
        if ready:
            self.handoff(ready[0], None)
            return
        left = [x for x in self.ts if not x.done]
        if left and self.failure is None:
            # let the blocked threads fail rather than stay behind
            self.failure = Deadlock("%d threads wait for a lock that is never released" % len(left))
        self.finished.release()
