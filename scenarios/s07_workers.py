"""S07 - requests survive the death of a worker process."""
import concurrent.futures
import time

from dst import kernel

from . import srv
from .s02_responses import Req, check_responses
from .srv import frame, rpc


def p_echo(v='', **kw):
    return v


def p_fail(v='', **kw):
    raise ValueError('bad ' + v)


def p_exit(v='', **kw):
    """kills the worker process by itself"""
    import os
    os._exit(3)


def deaths(ctx):
    ch = ctx.ch
    reqs = []
    for i in range(ch.rint(1, 8)):
        kind = ch.pick(('p_echo', 'p_echo', 'p_echo', 'p_fail', 't_echo', 'a_echo', 'p_exit'))
        v = '%s%d' % (kind, i)
        exp = {'p_fail': ('error', None), 'p_exit': ('error', None)}.get(kind, ('result', v))
        reqs.append(Req(i + 1, True, kind, {'v': v}, exp))
    # positions (number of started jobs) at which the worker dies before it has run the job
    n_deaths = ch.rint(0, 4)
    positions = {ch.rint(1, 12) for _ in range(n_deaths)}
    death_after = ch.chance(30)
    ctx.case = '%s deaths at %s' % ([str(r) for r in reqs], sorted(positions))
    count = [0]
    ran = {}

    def plan(pool, fn):
        count[0] += 1
        return count[0] in positions

    async def a_echo(v='', **kw):
        import asyncio
        await asyncio.sleep(0.2)
        return v

    def t_echo(v='', **kw):
        time.sleep(0.2)
        return v

    def orch(rig):
        rig.w.pool_faults = plan
        c = rig.client()
        for r in reqs:
            c.send(frame(r.payload()))
            if ch.chance(40):
                rig.w.sleep(ch.pick((0.0001, 0.01, 0.5, 3.0)))
        rig.net.settle()
        suicidal = any(r.method == 'p_exit' for r in reqs)
        total_deaths = ctx.faults['worker_death'] + ctx.faults['worker_suicide']
        maybe_error = total_deaths >= 2 or suicidal
        lenient = []
        for r in reqs:
            # with two or more deaths, the retry of a request may fail as well
            if maybe_error and r.method == 'p_echo':
                lenient.append(Req(r.ID, True, r.method, r.params, ('any', r.expect[1])))
            else:
                lenient.append(r)
        check_responses(ctx, c, lenient)
        if ctx.violations:
            ctx.ev('handler errors', rig.handler_errors())
        if c.closed_by_server:
            ctx.violate('closed', 'connection closed; %s' % rig.handler_errors())
            return
        # later requests are served normally: no further deaths
        rig.w.pool_faults = None
        for k in range(2):
            c.send(frame(rpc('p_echo', {'v': 'later%d' % k}, 'later%d' % k)))
            rig.net.settle()
            ctx.check(any(m.get('id') == 'later%d' % k and m.get('result') == 'later%d' % k
                          for m in c.rpcs()), 'later', lambda: 'later request is not served: %s'
                      % [m for m in c.rpcs() if m.get('id') == 'later%d' % k])
        pools = rig.w.__dict__.get('pools', [])
        live = [p for p in pools if not p.broken and not p.shut]
        ctx.check(len(live) <= 2, 'leak', '%i pools are alive at the same time' % len(live))
        broken = [p for p in pools if p.broken and not p.shut]
        ctx.check(not broken, 'leak', '%i broken pools have not been shut down' % len(broken))
        # and the server terminates properly
        ctx.check(rig.stop_and_check(60.0), 'not_stopped', 'server does not terminate')

    rig = srv.Rig(ctx, {'p_echo': p_echo, 'p_fail': p_fail, 'p_exit': p_exit, 't_echo': t_echo,
                        'a_echo': a_echo}, cpu={'p_echo', 'p_fail', 'p_exit'},
                  blocking={'t_echo'})
    rig.run(orch)


def environment(ctx):
    """ExecutionEnvironment without a server: execute() and submit_as_process() from several
    tasks and threads at the same time"""
    ch = ctx.ch
    n = ch.rint(1, 6)
    positions = {ch.rint(1, 8) for _ in range(ch.rint(0, 3))}
    submits = ch.rint(0, 3)
    ctx.case = '%d tasks, %d submits, deaths at %s' % (n, submits, sorted(positions))
    count = [0]

    def plan(pool, fn):
        count[0] += 1
        return count[0] in positions

    w = kernel.World(ctx, preempt=False)
    from dst import net
    net.Network(w)

    def main():
        import asyncio
        from DHParser.server import ExecutionEnvironment
        w.pool_faults = plan
        results = []
        sub = []

        async def go():
            env = ExecutionEnvironment(asyncio.get_running_loop())

            def submitter(k):
                for i in range(2):
                    try:
                        f = env.submit_as_process(p_echo, 's%d.%d' % (k, i))
                        sub.append((k, i, f.result()))
                    except concurrent.futures.BrokenExecutor:
                        sub.append((k, i, None))
            actors = [w.spawn(submitter, 'sub%d' % k, (k,)) for k in range(submits)]

            async def one(i):
                await asyncio.sleep(ch.pick((0.0, 0.001, 0.1)))
                r = await env.execute(env.process_executor, p_echo, {'v': 'e%d' % i})
                results.append((i, r))
            try:
                await asyncio.wait_for(asyncio.gather(*(one(i) for i in range(n))), 100.0)
            except asyncio.TimeoutError:
                ctx.violate('hang', 'execute() does not return; got %s' % results)
            for _ in range(200):
                if all(a.state == kernel.DONE for a in actors):
                    break
                await asyncio.sleep(0.5)
            else:
                ctx.violate('hang', 'submit_as_process() does not return')
            # later submissions and calls are served normally
            w.pool_faults = None
            for k in range(2):
                try:
                    f = env.submit_as_process(p_echo, 'later')
                    await asyncio.sleep(10.0)
                    ctx.check(f.done() and f.result() == 'later', 'later', 'submit_as_process(): '
                              'later submission is not served')
                except concurrent.futures.BrokenExecutor as e:
                    ctx.violate('later', 'submit_as_process(): later submission fails: %s' % e)
                r = await env.execute(env.process_executor, p_echo, {'v': 'later'})
                ctx.check(r == ('later', None), 'later', lambda: 'execute(): %r' % (r,))
                if k == 0 and ch.chance(30):
                    for pool in w.__dict__.get('pools', []):
                        if not pool.broken and not pool.shut:
                            ctx.fault('idle_death')
                            pool._break(w)
            env.shutdown()
            r = await env.execute(None, p_echo, {'v': 'x'})
            ctx.check(r[1] is not None, 'closed', 'execute() after shutdown: %r' % (r,))
        asyncio.run(go())
        for i, (res, err) in results:
            ok = res == 'e%d' % i and err is None or \
                err is not None and ctx.faults['worker_death'] >= 2
            ctx.check(ok, 'wrong', 'execute: e%d -> %r, %r' % (i, res, err))
        ctx.check(len(results) == n, 'count', '%i results of %i' % (len(results), n))
        for k, i, r in sub:
            ctx.check(r == 's%d.%d' % (k, i) or r is None and ctx.faults['worker_death'], 'wrong',
                      'submit: %r' % ((k, i, r),))

    w.run(main)


SCENARIOS = [('deaths', deaths, 4), ('environment', environment, 1)]
RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('One run: one server, up to 8 requests on the process pool and elsewhere, up to 4 deaths '
        'of workers at arbitrary jobs or by the procedures themselves.')
REAL = ['DHParser.server.Server, Connection, ExecutionEnvironment', 'asyncio', 'ThreadPoolExecutor']
STUB = ['TCP sockets and selector', 'clock', 'thread scheduler',
        'process pool (jobs run in forked children; breaks like ProcessPoolExecutor)']
ASSUMPTIONS = ['a dead worker breaks the pool as documented for ProcessPoolExecutor']


def warmup():
    return srv.warmup()
