"""Deterministic scheduler for real Python threads.

Exactly one simulated thread runs at any time. A thread can lose the processor at every yield point:
each traced line (or byte code) of the code under test, each lock operation, each virtual sleep and
each explicit yield of the harness. A seeded strategy decides; every decision that differs from
"carry on with the current thread" is recorded as (step, thread), and that list replays the run.
"""
import sys
import threading
import time as _time
import _thread

_allocate = _thread.allocate_lock          # the real thing, taken before any patching
_start = _thread.start_new_thread
_real_monotonic = _time.monotonic


class Abort(BaseException):
    """Unwinds simulated threads after the run has been decided."""


class SimThread:
    def __init__(self, tid, fn, name):
        self.tid, self.fn, self.name = tid, fn, name
        self.sem = _allocate()
        self.sem.acquire()
        self.state = "ready"       # ready | blocked | done
        self.wake = None           # virtual time at which a sleep or a timed wait ends
        self.timed_out = False
        self.waiting = None
        self.ident = None
        self.error = None
        self.inject = None         # callable(frame) deciding whether to raise at this yield point
        self.depth = 0


class Sched:
    current = None                 # the active scheduler of this process

    def __init__(self, rng, strategy="random", p_switch=0.1, depth=3, est_steps=2000, granularity="line", trace=(),
                 switches=None, max_steps=400000):
        self.rng = rng
        self.strategy, self.p = strategy, p_switch
        self.granularity = granularity
        self.trace_prefix = tuple(trace)
        self.threads = []
        self.now = 0.0
        self.step = 0
        self.max_steps = max_steps
        self.cur = None
        self.replay = None if switches is None else {int(s): int(t) for s, t in switches}
        self.switches = []
        self.deadlock = None
        self.finished = _allocate()
        self.finished.acquire()
        self._files = {}
        self.points = set()
        self.sig = 0
        self.n_preempt = 0
        self.blocked_events = 0
        self.sleeps = 0
        self.livelock = False
        if strategy == "pct":
            self.change = sorted(rng.randrange(1, max(2, est_steps)) for _ in range(depth))
            self.prio = {}

    # -- threads ----------------------------------------------------------------------------------
    def spawn(self, fn, name=None):
        t = SimThread(len(self.threads), fn, name or f"t{len(self.threads)}")
        self.threads.append(t)
        if self.strategy == "pct":
            self.prio[t.tid] = 1000 + self.rng.random()
        _start(self._main, (t,))
        return t

    def _main(self, t):
        t.ident = _thread.get_ident()
        t.sem.acquire()
        try:
            sys.settrace(self.tracer)
            t.fn()
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001 - reported by the run
            t.error = e
        finally:
            sys.settrace(None)
            t.state = "done"
            self._next(t, dying=True)

    def run(self, timeout=60.0):
        """Runs all spawned threads to completion; returns None, 'deadlock', 'livelock' or 'stuck'."""
        Sched.current = self
        try:
            if self.threads:
                first = self._pick(None)
                if first is not self._default(self._ready()):
                    self.switches.append((0, first.tid))
                self.cur = first
                first.sem.release()
                if not self.finished.acquire(True, timeout):
                    return "stuck"
        finally:
            Sched.current = None
        if self.deadlock:
            return "deadlock"
        if self.livelock:
            return "livelock"
        return None

    def me(self):
        t = self.cur
        if t is not None and t.ident == _thread.get_ident():
            return t
        return None

    # -- decisions --------------------------------------------------------------------------------
    def _ready(self):
        return [t for t in self.threads if t.state == "ready"]

    def _default(self, ready):
        return ready[0]

    def _pick(self, cur):
        """Chooses the next thread among the ready ones (cur may be None or not ready)."""
        ready = self._ready()
        if not ready:
            return None
        can_stay = cur is not None and cur.state == "ready"
        if self.replay is not None:
            want = self.replay.get(self.step)
            if want is not None:
                for t in ready:
                    if t.tid == want:
                        return t
            return cur if can_stay else self._default(ready)
        if len(ready) == 1:
            return ready[0]
        if self.strategy == "pct" and self.step < self.max_steps // 4:
            if can_stay and self.change and self.step >= self.change[0]:
                self.change.pop(0)
                self.prio[cur.tid] = self.rng.random() + len(self.change)
            return max(ready, key=lambda t: self.prio[t.tid])
        if can_stay and self.rng.random() >= self.p:
            return cur
        return ready[self.rng.randrange(len(ready))]

    def _next(self, t, dying=False):
        """Called by the running thread t at a yield point, when blocking, or when done."""
        self.step += 1
        if self.step > self.max_steps and not self.livelock:
            self.livelock = True
            self.finished.release()
        if self.livelock or self.deadlock:
            if dying:
                return
            raise Abort()
        nxt = self._pick(t)
        while nxt is None:
            # Nobody is ready: virtual time advances to the next timed wake-up.
            timed = [x for x in self.threads if x.state == "blocked" and x.wake is not None]
            if not timed:
                if all(x.state == "done" for x in self.threads):
                    self.finished.release()
                    return
                self.deadlock = [(x.name, str(x.waiting)) for x in self.threads if x.state == "blocked"]
                self.finished.release()
                if dying:
                    return
                t.sem.acquire()      # parked for good; the process ends with the run
                raise Abort()
            w = min(timed, key=lambda x: (x.wake, x.tid))
            self.now = max(self.now, w.wake)
            w.timed_out, w.state, w.wake = True, "ready", None
            nxt = self._pick(t)
        stay = t if t.state == "ready" else None
        default = stay or self._default(self._ready())
        if nxt is not default:
            self.switches.append((self.step, nxt.tid))
        if nxt is not t:
            self.n_preempt += stay is not None
            self.sig = hash((self.sig, nxt.tid, self._where)) & 0xFFFFFFFFFFFF
            self.cur = nxt
            nxt.sem.release()
            if dying:
                return
            t.sem.acquire()
            if self.livelock or self.deadlock:
                raise Abort()

    _where = 0

    def point(self, where=0):
        t = self.me()
        if t is None:
            return
        self._where = where
        self._next(t)

    def block(self, what, wake=None):
        """Blocks the running thread until unblock() or the virtual time 'wake'. True if woken, False on time-out."""
        t = self.me()
        t.state, t.wake, t.waiting, t.timed_out = "blocked", wake, what, False
        self.blocked_events += 1
        self._next(t)
        t.waiting = None
        return not t.timed_out

    def unblock(self, t):
        if t.state == "blocked":
            t.state, t.wake, t.timed_out = "ready", None, False

    def sleep(self, dt):
        t = self.me()
        if t is None:
            return
        self.sleeps += 1
        self.block("sleep", self.now + max(0.0, float(dt)))

    # -- tracing ----------------------------------------------------------------------------------
    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        on = self._files.get(fn)
        if on is None:
            on = self._files[fn] = fn.startswith(self.trace_prefix) if self.trace_prefix else False
        if not on:
            return None
        if self.granularity == "opcode":
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            t = self.cur
            if t is None or t.ident != _thread.get_ident():
                return self.local
            if event == "line" and t.inject is not None:
                t.inject(frame)
            self._where = (frame.f_code.co_name, frame.f_lineno).__repr__()
            self._where = _stable(self._where)
            self._next(t)
        return self.local


_stab = {}


def _stable(s):
    v = _stab.get(s)
    if v is None:
        import zlib
        v = _stab[s] = zlib.crc32(s.encode())
    return v


# ---------------------------------------------------------------------------------------------------
# Synchronisation primitives seen by the code under test
# ---------------------------------------------------------------------------------------------------


class SimLock:
    """Stands in for threading.Lock; outside a simulation it is uncontended and behaves like a plain flag."""

    def __init__(self):
        self._held = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        t = s.me() if s else None
        if t is None:
            if self._held:
                if not blocking:
                    return False
                raise RuntimeError("simulated lock would block outside the simulation")
            self._held = True
            return True
        s.point(1)
        deadline = s.now + timeout if timeout is not None and timeout >= 0 else None
        while self._held:
            if not blocking:
                return False
            self._waiters.append(t)
            woken = s.block(f"lock {id(self) and 'held'}", deadline)
            if t in self._waiters:
                self._waiters.remove(t)
            if not woken and self._held:
                return False
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        s = Sched.current
        if s:
            for w in self._waiters:
                s.unblock(w)
            self._waiters.clear()
            s.point(2)

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False
        self._waiters = []

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._lock.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._owner, self._count = st

    def _at_fork_reinit(self):
        self.__init__()


class Event:
    """Harness-side event."""

    def __init__(self):
        self.flag = False
        self.waiters = []

    def set(self):
        self.flag = True
        s = Sched.current
        if s:
            for w in self.waiters:
                s.unblock(w)
        self.waiters.clear()

    def wait(self):
        s = Sched.current
        while not self.flag:
            self.waiters.append(s.me())
            s.block("event")


def patch_primitives():
    """Installs the simulated primitives process-wide (only ever in a process that exits afterwards)."""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock

    def sleep(dt):
        s = Sched.current
        if s:
            s.sleep(dt)

    def clock():
        s = Sched.current
        return 1e6 + (s.now + s.step * 1e-6 if s else 0.0)
    _time.sleep = sleep
    _time.monotonic = clock
    _time.time = clock
    _time.perf_counter = clock
    threading._time = clock
