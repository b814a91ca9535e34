"""kernel.py - the deterministic scheduler.

Real threads ("actors") are parked and released one at a time: exactly one actor holds the
token.  Who runs next, when an actor is preempted, when timers and simulated events fire, is
decided by the run's `Choices`.  Time is virtual.  The standard library's locks, conditions,
events, queues, threads and clocks are routed here by `install()`, which must be called
before DHParser is imported; outside of an active world all patched primitives behave like
the originals.
"""
import _thread
import heapq
import sys
import threading
import time as _time_mod
import queue as _queue_mod

EPOCH = 1_700_000_000.0

REAL = {
    'sleep': _time_mod.sleep, 'monotonic': _time_mod.monotonic, 'time': _time_mod.time,
    'perf_counter': _time_mod.perf_counter, 'gmtime': _time_mod.gmtime,
    'localtime': _time_mod.localtime, 'start_new_thread': threading._start_new_thread,
    'join': threading.Thread.join, 'is_alive': threading.Thread.is_alive,
}

WORLD = None           # the active world of this process, if any

READY, BLOCKED, DONE = 0, 1, 2


class Deadlock(BaseException):
    """Nothing is runnable and no event is pending."""


class StepLimit(BaseException):
    """The run exceeded its step budget."""


class Actor:
    __slots__ = ('aid', 'name', 'lock', 'state', 'pred', 'deadline', 'timed_out', 'ident',
                 'throw', 'daemon', 'exc', 'prio')

    def __init__(self, aid, name):
        self.aid = aid
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = READY
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.ident = None
        self.throw = None
        self.daemon = True
        self.exc = None
        self.prio = 0


GAPS = (0, 1, 2, 3, 5, 8, 13, 20, 35, 60, 100, 180, 300, 500, 900, 1500)


class World:
    def __init__(self, ctx, step_cap=3_000_000, preempt=False, lock_yield=10):
        self.ctx = ctx
        self.ch = ctx.ch
        self.now = 0.0
        self.skew = 0.0                # added to time.time()
        self.heap = []
        self.seq = 0
        self.actors = []
        self.current = None
        self.cur_ident = None
        self.active = False
        self.steps = 0
        self.step_cap = step_cap
        self.preempt_on = preempt
        self.countdown = 1 << 60
        self.gap_scale = 1
        self.gaps = GAPS               # the first one stands for: no more preemption
        self.lock_yield = lock_yield   # percent chance of a yield at a lock operation
        self.done_lock = _thread.allocate_lock()
        self.main = None
        self.on_idle = None            # callable() -> bool (True if it made progress)
        self.in_dispatch = False
        self.dispatches = 0
        self.thread_errors = []
        self.by_ident = {}
        self.net = None

    # ---- events -------------------------------------------------------------------

    def at(self, delay, fn, *args):
        return self.at_time(self.now + max(0.0, delay), fn, *args)

    def at_time(self, t, fn, *args):
        self.seq += 1
        ev = [t, self.seq, fn, args]
        heapq.heappush(self.heap, ev)
        return ev

    def cancel(self, ev):
        ev[2] = None

    # ---- running ------------------------------------------------------------------

    def run(self, fn, *args):
        """Runs fn(*args) as the main actor of the world, returns its result."""
        global WORLD
        assert WORLD is None
        box = {}
        self.done_lock.acquire()

        def main():
            try:
                box['result'] = fn(*args)
            except BaseException as e:
                box['exc'] = e
        self.main = self.spawn(main, 'main')
        WORLD = self
        self.active = True
        self.current = self.main
        self.cur_ident = None
        if self.preempt_on:
            self._redraw()
        self.main.lock.release()
        self.done_lock.acquire()        # released when the main actor is done
        self.active = False
        WORLD = None
        self.ctx.simtime += self.now
        if 'exc' in box:
            raise box['exc']
        return box.get('result')

    def spawn(self, fn, name='', args=()):
        """Creates a new actor (a real thread that is parked until it is scheduled)."""
        actor = Actor(len(self.actors), name or 'a%d' % len(self.actors))
        self.actors.append(actor)

        def body():
            actor.lock.acquire()
            actor.ident = self.cur_ident = _thread.get_ident()
            self.by_ident[actor.ident] = actor
            try:
                if actor.throw is None:
                    fn(*args)
            except SystemExit:
                pass
            except BaseException as e:
                actor.exc = e
                self.thread_errors.append((actor.name, e))
            finally:
                self._finish(actor)
        REAL['start_new_thread'](body, ())
        return actor

    def _finish(self, actor):
        actor.state = DONE
        if actor is self.main:
            self.active = False
            self.done_lock.release()
            return
        if not self.active:
            return
        self._switch_from(actor, park=False)

    def is_actor(self):
        return self.active and _thread.get_ident() == self.cur_ident

    # ---- scheduling ----------------------------------------------------------------

    def _runnable(self):
        res = []
        for a in self.actors:
            if a.state == READY:
                res.append(a)
            elif a.state == BLOCKED and (a.throw is not None or (a.pred is not None and a.pred())):
                res.append(a)
        return res

    def _run_due(self):
        ran = False
        heap = self.heap
        while heap and heap[0][0] <= self.now:
            ev = heapq.heappop(heap)
            if ev[2] is not None:
                ran = True
                ev[2](*ev[3])
        return ran

    def _pick(self, me):
        self.dispatches += 1
        if self.dispatches > self.step_cap:
            self.main.throw = self.main.throw or StepLimit('too many dispatches')
            self.dispatches = 0
        while True:
            self._run_due()
            cand = self._runnable()
            if cand:
                if len(cand) == 1:
                    return cand[0]
                if me in cand:              # choice 0: stay with the current actor
                    cand.remove(me)
                    cand.insert(0, me)
                return cand[self.ch.draw(len(cand))]
            # nothing runnable: advance the clock
            heap = self.heap
            while heap and heap[0][2] is None:
                heapq.heappop(heap)
            t = heap[0][0] if heap else None
            dl = None
            for a in self.actors:
                if a.state == BLOCKED and a.deadline is not None:
                    if dl is None or a.deadline < dl.deadline:
                        dl = a
            if t is None and dl is None:
                if self.on_idle is not None and self.on_idle():
                    continue
                blocked = [a.name for a in self.actors if a.state == BLOCKED]
                self.main.throw = Deadlock('deadlock; blocked: %s' % blocked)
                if self.main.state == DONE:
                    raise RuntimeError('deadlock after main')
                continue
            if t is not None and (dl is None or t <= dl.deadline):
                self.now = max(self.now, t)
                self._run_due()
            else:
                self.now = max(self.now, dl.deadline)
                dl.timed_out = True
                dl.state = READY

    def _switch_from(self, me, park=True):
        self.in_dispatch = True
        nxt = self._pick(me)
        self.in_dispatch = False
        nxt.state = READY
        if nxt is me:
            return
        self.current = nxt
        self.cur_ident = nxt.ident
        self.ctx.switches += 1
        self.ctx.sched_hash.update(b'>%d@%d' % (nxt.aid, self.steps))
        nxt.lock.release()
        if park:
            me.lock.acquire()
            self.cur_ident = me.ident

    def _after(self, me):
        if me.throw is not None:
            exc, me.throw = me.throw, None
            raise exc

    def block(self, pred, timeout=None):
        """Parks the current actor until pred() is true.  -> False on timeout"""
        me = self.current
        if pred():
            return True
        me.pred = pred
        me.timed_out = False
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        me.state = BLOCKED
        self._switch_from(me)
        me.pred = None
        me.deadline = None
        to = me.timed_out
        me.timed_out = False
        self._after(me)
        return pred() if to else True

    def sleep(self, dt):
        me = self.current
        me.pred = None
        me.timed_out = False
        me.deadline = self.now + max(0.0, dt)
        me.state = BLOCKED
        self._switch_from(me)
        me.deadline = None
        me.timed_out = False
        self._after(me)

    def yield_(self):
        """Lets the scheduler choose among all runnable actors."""
        me = self.current
        me.state = READY
        self._switch_from(me)
        self._after(me)

    # ---- preemption inside code under test -----------------------------------------

    def _redraw(self):
        k = self.ch.draw(len(self.gaps))
        self.countdown = self.gaps[k] * self.gap_scale if k else 1 << 60

    def preempt_point(self):
        if self.in_dispatch:
            return
        self.steps += 1
        if self.steps > self.step_cap:
            self.steps = 0
            raise StepLimit('more than %i steps in code under test' % self.step_cap)
        self.countdown -= 1
        if self.countdown <= 0:
            self.ctx.probes['preemption'] += 1
            self._redraw()
            self.yield_()


# ---- patched primitives -----------------------------------------------------------------

class SimLock:
    """Replacement for threading.Lock: cooperative inside an active world."""
    __slots__ = ('_real', '__weakref__')

    def __init__(self):
        self._real = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        w = WORLD
        if w is None or not w.active or _thread.get_ident() != w.cur_ident or w.in_dispatch:
            return self._real.acquire(blocking, timeout)
        real = self._real
        if w.lock_yield and len(w.actors) > 1 and w.preempt_on and w.ch.chance(w.lock_yield):
            w.yield_()
        while True:
            if real.acquire(False):
                return True
            if not blocking:
                return False
            if not w.block(lambda: not real.locked(), None if timeout < 0 else timeout):
                return False

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def _at_fork_reinit(self):
        self._real = _thread.allocate_lock()

    __enter__ = acquire

    def __exit__(self, *args):
        self._real.release()


def _sim_start_new_thread(func, args=(), kwargs={}):
    w = WORLD
    if w is None or not w.active or _thread.get_ident() != w.cur_ident:
        return REAL['start_new_thread'](func, args, kwargs)
    thread_obj = getattr(func, '__self__', None)
    name = getattr(thread_obj, '_name', '') or 'thread'
    actor = w.spawn(lambda: func(*args, **kwargs), name)
    if thread_obj is not None:
        thread_obj._dst_actor = actor
    return 0


def _sim_join(self, timeout=None):
    w = WORLD
    actor = getattr(self, '_dst_actor', None)
    if actor is None or w is None or not w.active or _thread.get_ident() != w.cur_ident:
        return REAL['join'](self, timeout)
    w.block(lambda: actor.state == DONE, timeout)


def _sim_is_alive(self):
    actor = getattr(self, '_dst_actor', None)
    if actor is not None:
        return actor.state != DONE
    return REAL['is_alive'](self)


def _sim_sleep(secs):
    w = WORLD
    if w is None or not w.active or _thread.get_ident() != w.cur_ident:
        return REAL['sleep'](secs)
    w.sleep(secs)


FROZEN_NOW = None      # virtual clock for simulations that need no World


def _sim_monotonic():
    w = WORLD
    if w is None:
        return REAL['monotonic']() if FROZEN_NOW is None else FROZEN_NOW
    return w.now


def _sim_time():
    w = WORLD
    if w is None:
        return REAL['time']() if FROZEN_NOW is None else EPOCH + FROZEN_NOW
    return EPOCH + w.now + w.skew


def _sim_gmtime(secs=None):
    return REAL['gmtime'](_sim_time() if secs is None else secs)


def _sim_localtime(secs=None):
    return REAL['gmtime'](_sim_time() if secs is None else secs)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert not any(m.startswith('DHParser') for m in sys.modules), \
        "install() must precede the import of DHParser"
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _sim_start_new_thread
    threading.Thread.join = _sim_join
    threading.Thread.is_alive = _sim_is_alive
    threading._time = _sim_monotonic
    _time_mod.sleep = _sim_sleep
    _time_mod.monotonic = _sim_monotonic
    _time_mod.perf_counter = _sim_monotonic
    _time_mod.time = _sim_time
    _time_mod.gmtime = _sim_gmtime
    _time_mod.localtime = _sim_localtime
    _queue_mod.time = _sim_monotonic
    _queue_mod.SimpleQueue = _queue_mod._PySimpleQueue
    # concurrent.futures.wait() acquires the locks of the futures in the order of their ids, i.e.
    # of their addresses
    import concurrent.futures._base as base
    import itertools
    serial = itertools.count(1)

    def stable_id(obj):
        try:
            return obj._dst_id
        except AttributeError:
            obj._dst_id = n = next(serial)
            return n
    base.id = stable_id
    # ... and iterates over sets of futures and of threads
    base.Future.__hash__ = lambda self: stable_id(self) * 7919
    threading.Thread.__hash__ = lambda self: stable_id(self) * 7919

    def excepthook(args):
        w = WORLD
        if w is not None:
            w.thread_errors.append((str(args.thread and args.thread.name), args.exc_value))
    threading.excepthook = excepthook

    import datetime as _dt
    real_dt = _dt.datetime

    class SimDateTime(real_dt):
        @classmethod
        def now(cls, tz=None):
            return real_dt.fromtimestamp(_sim_time(), tz or _dt.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()
    _dt.datetime = SimDateTime


# ---- instrumentation of the code under test -----------------------------------------------

TOOL = 3


def repo_dir():
    import os
    return os.environ.get('DST_REPO', '/repo')


def instrument(files=None, instructions=(), handler=None):
    """Calls World.preempt_point() (or handler()) at every line executed in the given
    DHParser source files (base names; None = all); at every bytecode instruction for
    files in `instructions`."""
    mon = sys.monitoring
    base = repo_dir().rstrip('/') + '/DHParser/'
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'dst')
    want_line, want_ins = {}, {}

    def interesting(code, cache, names):
        try:
            return cache[code]
        except KeyError:
            fn = code.co_filename
            ok = fn.startswith(base) and code.co_name != '<module>' and \
                (names is None or fn[len(base):] in names)
            cache[code] = ok
            return ok

    ins_names = set(instructions)
    line_names = None if files is None else set(files) - ins_names

    def fire():
        if handler is not None:
            handler()
            return
        w = WORLD
        if w is not None and w.active and w.preempt_on and _thread.get_ident() == w.cur_ident:
            w.preempt_point()

    def on_line(code, line):
        if not interesting(code, want_line, line_names):
            return mon.DISABLE
        fire()

    def on_ins(code, off):
        if not interesting(code, want_ins, ins_names):
            return mon.DISABLE
        fire()

    ev = 0
    if line_names is None or line_names:
        mon.register_callback(TOOL, mon.events.LINE, on_line)
        ev |= mon.events.LINE
    if ins_names:
        mon.register_callback(TOOL, mon.events.INSTRUCTION, on_ins)
        ev |= mon.events.INSTRUCTION
    mon.set_events(TOOL, ev)
    mon.restart_events()


def uninstrument():
    mon = sys.monitoring
    if mon.get_tool(TOOL) is not None:
        mon.set_events(TOOL, 0)
