"""Deterministic simulator core: tasks, scheduler, virtual clock, decisions.

Tasks are real OS threads of which exactly one runs at a time; which one runs next is
always decided here.  Every decision (preemption, choice of the next task, fault) comes
from a `Decisions` object: drawn from a seeded generator, or looked up in a recorded
trace when a run is replayed.  A decision that is not in the trace takes its default
(no preemption, lowest-numbered ready task, no fault), so traces are sparse and can be
minimised by deleting entries.
"""

import _thread
import hashlib
import itertools
import heapq
import os
import queue
import random
import sys
import threading as _threading_mod
import zlib

real_allocate_lock = _thread.allocate_lock
real_get_ident = _thread.get_ident

SIM = None  # the simulation that is running in this OS process, or None


class SimCrash(BaseException):
    """The simulated process this code belongs to is dead."""


class SimAbort(BaseException):
    """The simulated run is being torn down."""


class HarnessError(Exception):
    """The simulator itself is at fault; never a property violation."""


class Decisions:
    """Seeded or recorded decisions."""

    def __init__(self, seed=None, trace=None, sched=None, fault=None):
        self.replay = trace is not None
        self.trace = dict(trace or {})
        self.used = {}
        self.sched_cfg = dict(sched or {})
        self.fault_cfg = dict(fault or {})
        self.rs = random.Random(f"{seed}:sched")
        self.rf = random.Random(f"{seed}:fault")
        self.ordinal = {}
        self.opportunity = 0
        self.fired = {}
        self.budget = int(self.fault_cfg.get("budget", 0))
        self.p_preempt = float(self.sched_cfg.get("p", 0.0))
        self.p_random_next = float(self.sched_cfg.get("next", 0.0))
        # one in `hot` source lines is preempted (nearly) every time it is reached
        self.hot = int(self.sched_cfg.get("hot", 0))
        self.hot_salt = str(seed)
        # a preempted task may have to wait until (nearly) everybody else is stuck
        self.stall = float(self.sched_cfg.get("stall", 0.0))
        self.hot_left = 3000
        self.at = set(self.fault_cfg.get("at", ()))
        self.p_fault = float(self.fault_cfg.get("p", 0.0))
        # a fault kind may be listed bare ("EIO") or per site ("EIO@write")
        self.kinds = self.fault_cfg.get("kinds")

    # -- scheduling ---------------------------------------------------------------
    def next_skip(self):
        """Number of preemption points until the next preemption (random mode)."""
        if self.replay or self.p_preempt <= 0:
            return 1 << 60
        u = self.rs.random()
        import math

        return 1 + int(math.log(max(u, 1e-12)) / math.log(1 - min(self.p_preempt, 0.999)))

    def is_hot(self, filename, line):
        return zlib.crc32(f"{os.path.basename(filename)}:{line}:{self.hot_salt}".encode()) % self.hot == 0

    def preempt_hot(self):
        if self.hot_left <= 0 or self.rs.random() > 0.6:
            return False
        self.hot_left -= 1
        return True

    def preempt_target(self, task, ready):
        if self.stall:
            lively = [r for r in ready if not r.low]
            if not lively and self.rs.random() < 0.8:
                return None
            ready = lively or ready
            task.low = self.rs.random() < self.stall
        target = self.rs.choice(ready)
        target.low = False
        self.used[f"p:{task.key}:{task.ticks}"] = target.key
        return target

    def replay_preempt(self, task):
        return self.trace.get(f"p:{task.key}:{task.ticks}")

    def next_task(self, task, ready):
        """Current task cannot continue: who runs?"""
        key = f"s:{task.key}:{task.switches}" if task else f"s:-:{self._ord('s')}"
        if task:
            task.switches += 1
        if len(ready) == 1:
            ready[0].low = False
            return ready[0]
        if self.replay:
            want = self.trace.get(key)
            if want is not None:
                for r in ready:
                    if r.key == want:
                        self.used[key] = want
                        return r
            return ready[0]
        pool = [r for r in ready if not r.low] or ready
        r = pool[0]
        if self.p_random_next > 0 and self.rs.random() < self.p_random_next:
            r = self.rs.choice(pool)
        r.low = False
        if r is not ready[0]:
            self.used[key] = r.key
        return r

    def _ord(self, label):
        n = self.ordinal.get(label, 0)
        self.ordinal[label] = n + 1
        return n

    # -- faults -------------------------------------------------------------------
    def fault(self, label, kinds):
        """Decide whether one of `kinds` happens at this site, now."""
        key = f"f:{label}#{self._ord(label)}"
        if self.replay:
            k = self.trace.get(key)
            if k is not None and k in kinds:
                self.budget -= 1
                self.used[key] = k
                self.fired[k] = self.fired.get(k, 0) + 1
                return k
            return None
        if self.kinds is not None:
            kinds = [k for k in kinds if k in self.kinds or f"{k}@{label}" in self.kinds]
        if not kinds:
            return None
        opp = self.opportunity
        self.opportunity += 1
        if self.budget <= 0:
            return None
        if opp in self.at or (self.p_fault and self.rf.random() < self.p_fault):
            k = self.rf.choice(kinds)
            self.budget -= 1
            self.used[key] = k
            self.fired[k] = self.fired.get(k, 0) + 1
            return k
        return None

    def detail(self, label, n):
        """A recorded number in range(n) refining a fault (0 is the default)."""
        key = f"d:{label}#{self._ord('d:' + label)}"
        if n <= 1:
            return 0
        if self.replay:
            v = min(int(self.trace.get(key, 0)), n - 1)
        else:
            v = self.rf.randrange(n)
        if v:
            self.used[key] = v
        return v


class Task:
    def __init__(self, sim, num, name, proc, fn):
        self.sim = sim
        self.num = num
        self.name = name
        self.proc = proc
        self.key = f"{proc.key}.{proc.next_task()}"
        self.fn = fn
        self.baton = real_allocate_lock()
        self.baton.acquire()
        self.state = "ready"
        self.ticks = 0
        self.switches = 0
        self.wake = None
        self.timed_out = False
        self.exc = None
        self.result = None
        self.waiters = []
        self.joiners = []
        self.trace = False
        self.low = False
        self.is_main = False
        self.waiting = None

    def __repr__(self):
        return f"<task {self.key} {self.name} {self.state}>"


class Sim:
    def __init__(self, decisions, *, max_ticks=3_000_000, trace_prefixes=(), opcodes=False):
        global _serial
        _serial = itertools.count(1)
        self.dec = decisions
        self.now = 0.0
        self.tasks = []
        self.current = None
        self.driver = real_allocate_lock()
        self.driver.acquire()
        self.timers = []
        self.seq = 0
        self.skip = decisions.next_skip()
        self.sig = hashlib.blake2b(digest_size=12)
        self.log_hash = hashlib.blake2b(digest_size=12)
        self.log = []
        self.points = 0
        self.total_ticks = 0
        self.max_ticks = max_ticks
        self.aborting = None
        self.trace_prefixes = tuple(trace_prefixes)
        self.opcodes = opcodes
        self.on_switch_proc = None
        self.loaded_proc = None
        self.switch_count = 0
        self.thread_errors = []
        self.probes = {}
        self.line_faults = None

    # -- bookkeeping --------------------------------------------------------------
    def event(self, text):
        self.log_hash.update(text.encode())
        if len(self.log) < 4000:
            self.log.append(f"{self.now:.3f} {self.current.key if self.current else '-'} {text}")

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- tasks --------------------------------------------------------------------
    def spawn(self, fn, name, proc, trace=False, on_start=None):
        t = Task(self, len(self.tasks), name, proc, fn)
        t.trace = trace
        t.on_start = on_start
        self.tasks.append(t)
        proc.tasks.append(t)
        t.ident = _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.baton.acquire()
        t.ident = real_get_ident()
        try:
            if self.aborting:
                raise SimAbort
            if t.proc.dead:
                raise SimCrash
            # numbers of ended operating-system threads are used again, and when is up to the kernel
            _threading_mod._active.pop(t.ident, None)
            if t.on_start:
                t.on_start()
            else:
                self.current = None  # no scheduling points in here
                try:
                    _threading_mod._DummyThread()
                finally:
                    self.current = t
            if t.trace:
                sys.settrace(self._make_tracer(t))
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except (SimCrash, SimAbort) as e:
            t.exc = e
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        finally:
            sys.settrace(None)
            _threading_mod._active.pop(t.ident, None)
            t.state = "done"
            t.fn = None
            for j in t.joiners:
                self._make_ready(j)
            t.joiners = []
            self._finish(t)

    def _finish(self, t):
        nxt = self._select(t)
        if nxt is None:
            self.current = None
            self.driver.release()
        else:
            self._load(nxt)
            self.current = nxt
            nxt.baton.release()

    def run(self):
        """Drive until every task is done.  Called from the driver thread."""
        global SIM
        assert SIM is None
        SIM = self
        self.dec_start = self.dec.opportunity
        try:
            nxt = self._select(None)
            if nxt is None:
                return
            self._load(nxt)
            self.current = nxt
            nxt.baton.release()
            self.driver.acquire()
        finally:
            SIM = None
            self.current = None

    def _load(self, task):
        if self.loaded_proc is not task.proc:
            if self.on_switch_proc:
                # not part of the simulated execution: no scheduling points in here
                cur, self.current = self.current, None
                try:
                    self.on_switch_proc(self.loaded_proc, task.proc)
                finally:
                    self.current = cur
            self.loaded_proc = task.proc

    def _ready(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _make_ready(self, t):
        if t.state == "blocked":
            t.state = "ready"
            t.wake = None
            t.waiting = None

    def _select(self, current):
        """Pick the next task to run when `current` cannot continue."""
        while True:
            ready = self._ready()
            if ready:
                if self.aborting:
                    return ready[0]
                n = self.dec.next_task(current, ready)
                self.switch_count += 1
                self.sig.update(f"{n.key}<{current.key if current else ''};".encode())
                return n
            blocked = [t for t in self.tasks if t.state == "blocked"]
            if not blocked:
                return None
            if self.aborting:
                for t in blocked:
                    self._make_ready(t)
                continue
            # nothing runnable: advance the clock to the next timer
            fired = False
            while self.timers:
                at, _, t, token = heapq.heappop(self.timers)
                if t.state == "blocked" and t.wake == token:
                    self.now = max(self.now, at)
                    t.timed_out = True
                    self._make_ready(t)
                    fired = True
                    break
            if fired:
                continue
            # only daemon-like leftovers of dead processes?
            dead = [t for t in blocked if t.proc.dead]
            if dead:
                for t in dead:
                    self._make_ready(t)
                continue
            idle = [t for t in blocked if t.proc.exiting]
            if idle:
                for t in idle:
                    t.proc.dead = True
                    self._make_ready(t)
                continue
            self.abort("deadlock: " + "; ".join(f"{t.key} {t.name} waits for {t.waiting}" for t in blocked))

    def abort(self, why):
        if not self.aborting:
            self.aborting = why
            self.event("abort " + why)

    # -- scheduling points ----------------------------------------------------------
    def _switch_to(self, cur, nxt):
        if nxt is cur:
            return
        self.switch_count += 1
        self._load(nxt)
        self.current = nxt
        nxt.baton.release()
        cur.baton.acquire()
        # we run again
        if self.aborting:
            raise SimAbort
        if cur.proc.dead:
            raise SimCrash

    def check_alive(self, t):
        if self.aborting:
            raise SimAbort
        if t.proc.dead:
            raise SimCrash

    def point(self, label=""):
        """A place where another task may run first."""
        t = self.current
        self.check_alive(t)
        t.ticks += 1
        self.total_ticks += 1
        self.points += 1
        if self.total_ticks > self.max_ticks:
            self.abort("step limit")
            raise SimAbort
        if self.dec.replay:
            self._replay_preempt(t)
            return
        self.skip -= 20  # seam operations are twenty times likelier to be preempted than lines
        if self.skip <= 0:
            self._preempt(t)

    def _replay_preempt(self, t):
        want = self.dec.replay_preempt(t)
        if want is None:
            return
        for r in self.tasks:
            if r.key == want and r.state == "ready" and r is not t:
                self.dec.used[f"p:{t.key}:{t.ticks}"] = want
                self.sig.update(f"{r.key}!{t.key}:{t.ticks};".encode())
                self._switch_to(t, r)
                return

    def _preempt(self, t):
        self.skip = self.dec.next_skip()
        ready = [r for r in self.tasks if r.state == "ready" and r is not t]
        if not ready:
            return
        nxt = self.dec.preempt_target(t, ready)
        if nxt is None:
            return
        self.sig.update(f"{nxt.key}!{t.key}:{t.ticks};".encode())
        self._switch_to(t, nxt)

    def block(self, waiting, timeout=None, interruptible=True):
        """Park the current task until woken; returns False when the timeout fired."""
        t = self.current
        self.check_alive(t)
        if interruptible and t.is_main and t.proc.interruptible and self.dec.fault(
            "interrupt", ["interrupt"]
        ):
            self.event(f"interrupt while waiting for {waiting}")
            raise KeyboardInterrupt
        t.state = "blocked"
        t.waiting = waiting
        t.timed_out = False
        self.seq += 1
        t.wake = self.seq
        if timeout is not None:
            heapq.heappush(self.timers, (self.now + max(0.0, timeout), self.seq, t, t.wake))
        nxt = self._select(t)
        if nxt is not t:
            self._load(nxt)
            self.current = nxt
            nxt.baton.release()
            t.baton.acquire()
        if self.aborting:
            raise SimAbort
        if t.proc.dead:
            raise SimCrash
        return not t.timed_out

    def sleep(self, seconds):
        self.event(f"sleep {seconds}")
        end = self.now + max(0.0, seconds)
        while self.block("sleep", timeout=end - self.now, interruptible=False):
            pass

    def wake(self, t):
        self._make_ready(t)

    # -- tracing ----------------------------------------------------------------------
    def _make_tracer(self, t):
        prefixes = self.trace_prefixes
        opcodes = self.opcodes
        sim = self
        replay = self.dec.replay
        sched = {}
        if replay:
            pre = f"p:{t.key}:"
            sched = {int(k[len(pre):]): v for k, v in self.dec.trace.items() if k.startswith(pre)}
        cache = {}
        hot = {} if self.dec.hot and not replay else None

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                t.ticks += 1
                if sim.line_faults is not None:
                    sim.line_faults(t, frame, event)
                if replay:
                    if t.ticks in sched:
                        sim.check_alive(t)
                        sim._replay_preempt(t)
                else:
                    sim.skip -= 1
                    if sim.skip <= 0:
                        sim.total_ticks += 1
                        sim.check_alive(t)
                        sim._preempt(t)
                    elif hot is not None:
                        key = (frame.f_code, frame.f_lineno)
                        h = hot.get(key)
                        if h is None:
                            h = hot[key] = sim.dec.is_hot(frame.f_code.co_filename, frame.f_lineno)
                        if h and sim.dec.preempt_hot():
                            sim.total_ticks += 1
                            sim.check_alive(t)
                            sim._preempt(t)
            return local

        def tracer(frame, event, arg):
            if event != "call":
                return None
            fn = frame.f_code.co_filename
            ok = cache.get(fn)
            if ok is None:
                ok = cache[fn] = fn.startswith(prefixes)
            if not ok:
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local

        return tracer


class Proc:
    """A simulated operating-system process."""

    _n = 0

    def __init__(self, key, env=None):
        self.key = str(key)
        self.env = dict(env or {})
        self.dead = False
        self.exiting = False
        self.interruptible = False
        self.tasks = []
        self.image = None
        self.pid = 4000 + Proc._n
        Proc._n += 1
        self._t = 0

    def next_task(self):
        self._t += 1
        return self._t - 1


# --------------------------------------------------------------------------------------
# simulated replacements for the threading primitives
# --------------------------------------------------------------------------------------
class SimLock:
    """threading.Lock: real when no simulation runs, scheduled when one does."""

    __slots__ = ("_l", "_w", "__weakref__")

    def __init__(self):
        self._l = real_allocate_lock()
        self._w = None

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None or sim.current is None:
            return self._l.acquire(blocking, timeout)
        sim.point("lock")
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while True:
            t = sim.current
            if self._w is None:
                self._w = []
            self._w.append(t)
            try:
                # a signal interrupts long waits (for a result); short critical sections inside
                # the standard library are C code in a real interpreter
                wait = t.is_main and sys._getframe(1).f_code.co_name == "wait"
                ok = sim.block("lock", None if deadline is None else deadline - sim.now, interruptible=wait)
            finally:
                if t in self._w:
                    self._w.remove(t)
            if self._l.acquire(False):
                return True
            if not ok:
                return False

    def release(self):
        self._l.release()
        sim = SIM
        if sim is not None and self._w:
            for t in list(self._w):
                sim.wake(t)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = real_allocate_lock()
        self._w = None


_serial = itertools.count(1)


def _number(self):
    """Hash of a thread or future: its number in the run, since sets of them are ordered by it."""
    try:
        return self._sim_number
    except AttributeError:
        self._sim_number = next(_serial)
        return self._sim_number


class SimThread(_threading_mod.Thread):
    """threading.Thread: a simulated task when started inside a simulation."""

    _sim_task = None
    __hash__ = _number

    def start(self):
        sim = SIM
        if sim is None or sim.current is None:
            return super().start()
        if self._sim_task is not None:
            raise RuntimeError("threads can only be started once")
        cur = sim.current
        if sim.dec.fault("thread.start", ["no_thread"]):
            sim.event("thread cannot be started")
            raise RuntimeError("can't start new thread")
        me = self

        def on_start():
            me._ident = real_get_ident()
            _threading_mod._active[me._ident] = me

        def body():
            try:
                me.run()
            except (SimCrash, SimAbort):
                raise
            except SystemExit:
                pass
            except BaseException as e:  # noqa: BLE001
                # what happens to a thread while its process ends is not seen by anybody
                if not (cur.proc.dead or sim.aborting):
                    sim.thread_errors.append((me.name, repr(e)))
            finally:
                _threading_mod._active.pop(me._ident, None)

        self._started._flag = True
        self._sim_task = sim.spawn(
            body, f"thread", cur.proc, trace=cur.trace, on_start=on_start
        )
        sim.event(f"start {self._sim_task.key}")
        sim.point("thread.start")

    def join(self, timeout=None):
        t = self._sim_task
        if t is None:
            return super().join(timeout)
        sim = t.sim
        if SIM is not sim or sim.current is None:
            return None
        deadline = None if timeout is None else sim.now + timeout
        me = sim.current
        while t.state != "done":
            t.joiners.append(me)
            try:
                if not sim.block(f"join {t.key}", None if deadline is None else deadline - sim.now):
                    return None
            finally:
                if me in t.joiners:
                    t.joiners.remove(me)
        return None

    def is_alive(self):
        t = self._sim_task
        if t is None:
            return super().is_alive()
        return t.state != "done"


class _PoolContext:
    """The context of a pool of threads, whose notifications would otherwise go through a pipe."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def SimpleQueue(self):  # noqa: N802
        q = queue.SimpleQueue()
        q._reader = None
        return q


def install_thread_pools():
    """multiprocessing.pool.ThreadPool (and the one of multiprocess) with simulated waiting."""
    import importlib

    for name in ("multiprocessing.pool", "multiprocess.pool"):
        try:
            mod = importlib.import_module(name)
        except ImportError:
            continue
        real_wait = mod.Pool._wait_for_updates

        def wait(sentinels, change_notifier, timeout=None, real_wait=real_wait):
            if not isinstance(change_notifier, queue._PySimpleQueue):
                return real_wait(sentinels, change_notifier, timeout)
            try:
                change_notifier.get(timeout=timeout)
                while not change_notifier.empty():
                    change_notifier.get()
            except queue.Empty:
                pass

        mod.Pool._wait_for_updates = staticmethod(wait)

        def init(self, processes=None, initializer=None, initargs=(), mod=mod):
            mod.Pool.__init__(self, processes, initializer, initargs, context=_PoolContext(mod.get_context()))

        mod.ThreadPool.__init__ = init


def install_threading():
    """Replace the primitives; call before anything that caches them is imported."""
    import concurrent.futures.thread as cft

    _threading_mod.Lock = SimLock
    _threading_mod._allocate_lock = SimLock
    _threading_mod._PyRLock._at_fork_reinit = lambda self: None
    _threading_mod.RLock = _threading_mod._PyRLock
    _threading_mod._CRLock = None
    _threading_mod.Thread = SimThread
    queue.SimpleQueue = queue._PySimpleQueue
    cft._global_shutdown_lock = SimLock()
    install_thread_pools()
    cft.threading.Thread = SimThread
    import concurrent.futures._base as cfb

    cfb.Future.__hash__ = _number
