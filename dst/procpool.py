"""procpool.py - stand-in for concurrent.futures.ProcessPoolExecutor.

A job runs in a real forked child (process isolation, pickling of arguments and results), but
synchronously at a seeded instant of virtual time; its result is delivered after a seeded
virtual delay.  Faults: death of a worker (the pool breaks, as in the standard library:
every pending and later job raises BrokenProcessPool).
"""
import concurrent.futures
import concurrent.futures.process
import os
import pickle
import struct

from concurrent.futures.process import BrokenProcessPool
from concurrent.futures import Future, Executor
from . import kernel

REAL_PPE = concurrent.futures.ProcessPoolExecutor


def run_forked(fn, args, kwargs):
    """Runs fn(*args, **kwargs) in a forked child -> ('ok', value) | ('exc', exception)"""
    blob = pickle.dumps((fn, args, kwargs))
    r, w = os.pipe()
    world = kernel.WORLD
    if world is not None:       # no change of the actor inside of the at-fork handlers
        saved, world.lock_yield = world.lock_yield, 0
    pid = os.fork()
    if world is not None:
        world.lock_yield = saved
    if pid == 0:
        code = 1
        try:
            os.close(r)
            kernel.WORLD = None
            kernel.uninstrument()
            try:
                f, a, k = pickle.loads(blob)
                out = ('ok', f(*a, **k))
                data = pickle.dumps(out)
            except BaseException as e:
                try:
                    data = pickle.dumps(('exc', e))
                    pickle.loads(data)
                except BaseException:
                    data = pickle.dumps(('exc', RuntimeError(repr(e))))
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('!Q', len(data)) + data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if len(raw) < 8:
        return 'exc', BrokenProcessPool('A process in the process pool was terminated abruptly')
    return pickle.loads(raw[8:])


class SimProcessPool(Executor):
    """deterministic process pool"""
    mode = 'fork'            # 'fork' | 'inline'
    max_delay = (0.0, 0.001, 0.01, 0.1, 1.0)

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.world = kernel.WORLD
        self.broken = False
        self.shut = False
        self.pending = []      # (future, fn, args, kwargs)
        self.workers = max_workers or 4
        self.running = 0
        self.initializer, self.initargs = initializer, initargs
        w = self.world
        if w is not None:
            w.__dict__.setdefault('pools', []).append(self)

    def submit(self, fn, /, *args, **kwargs):
        w = kernel.WORLD
        if self.broken:
            raise BrokenProcessPool('A child process terminated abruptly, '
                                    'the process pool is not usable anymore')
        if self.shut:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = Future()
        if w is None or not w.active:
            self._complete(f, *self._execute(fn, args, kwargs))
            return f
        w.ctx.probes['pool_submit'] += 1
        self.pending.append([f, fn, args, kwargs, False])
        self._kick(w)
        return f

    def _kick(self, w):
        while self.running < self.workers:
            job = next((j for j in self.pending if not j[4]), None)
            if job is None:
                return
            job[4] = True
            self.running += 1
            d = w.ch.pick(self.max_delay)
            w.at(d, self._later, self._start_job, job)

    def _execute(self, fn, args, kwargs):
        if self.mode == 'fork':
            return run_forked(fn, args, kwargs)
        try:
            fn, args, kwargs = pickle.loads(pickle.dumps((fn, args, kwargs)))
            return 'ok', fn(*args, **kwargs)
        except BaseException as e:
            return 'exc', e

    def _later(self, fn, *args):
        # own actor, because futures and os.fork() acquire locks
        self.world.spawn(lambda: fn(*args), 'pool')

    def _start_job(self, job):
        f, fn, args, kwargs, _ = job
        w = self.world
        if self.broken or job not in self.pending:
            self.running -= 1
            return
        if not f.set_running_or_notify_cancel():
            self.running -= 1
            self.pending.remove(job)
            self._kick(w)
            return
        plan = w.__dict__.get('pool_faults')
        if plan is not None and plan(self, fn):
            w.ctx.fault('worker_death')
            self._break(w)
            return

        if self.broken:     # all workers are terminated
            return
        kind, val = self._execute(fn, args, kwargs)
        if kind == 'exc' and isinstance(val, BrokenProcessPool):
            w.ctx.fault('worker_suicide')
            w.at(w.ch.pick(self.max_delay), self._later, self._break, w)
            return
        w.at(w.ch.pick(self.max_delay), self._later, self._finish_job, job, kind, val)

    def _finish_job(self, job, kind, val):
        self.running -= 1
        if self.broken or job not in self.pending:
            return
        self.pending.remove(job)
        self._complete(job[0], kind, val)
        self._kick(self.world)

    def _break(self, w):
        self.broken = True
        jobs, self.pending = self.pending, []
        for j in jobs:
            f = j[0]
            if not f.done():
                try:
                    f.set_exception(BrokenProcessPool(
                        'A process in the process pool was terminated abruptly while the '
                        'future was running or pending.'))
                except concurrent.futures.InvalidStateError:
                    pass

    @staticmethod
    def _complete(f, kind, val):
        try:
            if kind == 'ok':
                f.set_result(val)
            else:
                f.set_exception(val)
        except concurrent.futures.InvalidStateError:
            pass

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.shut = True
        w = kernel.WORLD
        if cancel_futures:
            for j in self.pending[:]:
                if j[0].cancel():
                    self.pending.remove(j)
        if wait and w is not None and w.is_actor():
            w.block(lambda: not self.pending)


def install():
    concurrent.futures.ProcessPoolExecutor = SimProcessPool
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPool
