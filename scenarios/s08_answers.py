"""S08 - answers to server-initiated requests reach the task that asked."""
import json

from . import srv
from .srv import frame, rpc

VALUES = ('yes', '', 0, False, None, [], {}, [1, {'a': None}], {'error': 5}, 'ä"\n', 1.5, True)
STRAY = ('{"jsonrpc": "2.0", "id": 4711, "result": 1}', '{"jsonrpc": "2.0", "id": null, "result": 1}',
         '{"jsonrpc": "2.0", "result": 1}', '{"jsonrpc": "2.0", "id": "q", "result": {}}',
         '{"jsonrpc": "2.0", "id": null, "error": {"code": 1, "message": "x"}}',
         '{"jsonrpc": "2.0", "id": [1], "result": 1}', '{"jsonrpc": "2.0", "id": {}, "error": {}}',
         '{"jsonrpc": "2.0", "id": 1.5, "result": null}', '{"jsonrpc": "2.0", "id": true, "result": 0}')


def answers(ctx):
    ch = ctx.ch
    n = ch.rint(1, 6)
    asks = []           # (request id of the client, [(call id, answer)])
    ids = set()
    for i in range(n):
        calls = []
        for _ in range(ch.rint(1, 3)):
            cid = ch.pick((ch.rint(0, 20), -ch.rint(0, 2), 100 + ch.rint(0, 50), 'call%d' % ch.rint(0, 50)))
            while cid in ids:
                cid = (cid + 1) if isinstance(cid, int) else cid + 'x'
            ids.add(cid)
            v = ch.pick(VALUES)
            calls.append((cid, {'error': {'code': -32000 - len(ids), 'message': str(v)}}
                          if ch.chance(20) else {'result': v}))
        asks.append((i + 1, calls))
    strict = ch.chance(40)
    strays = ch.rint(0, 4)
    extra = ch.rint(0, 3)       # ordinary requests in between
    mode = ch.pick(('tasks', 'tasks', 'sequence', 'late_collect', 'early_collect'))
    ctx.case = 'strict=%s %s strays=%d %s' % (strict, mode, strays, asks)
    holder = {}

    async def ask(n=0, **kw):
        """asks the client one or several questions"""
        import asyncio
        conn = holder['c']
        calls = asks[n - 1][1]

        async def question(cid):
            await conn.server_request('question', {'n': n, 'cid': cid}, cid)
            if mode == 'late_collect':
                await asyncio.sleep(ch.pick((0.0, 0.5, 5.0)))
            return await conn.client_response(cid)

        async def early(cid):
            t = asyncio.ensure_future(conn.client_response(cid))
            await asyncio.sleep(0)
            await conn.server_request('question', {'n': n, 'cid': cid}, cid)
            return await t
        q = early if mode == 'early_collect' else question
        if mode == 'sequence':
            res = [await q(cid) for cid, _ in calls]
        else:
            res = await asyncio.gather(*(q(cid) for cid, _ in calls))
        return {'got': [[cid, {k: r[k] for k in ('result', 'error') if k in r}]
                        for (cid, _), r in zip(calls, res)]}

    def work(v='', **kw):
        return v

    def orch(rig):
        c = rig.client()
        stop = []

        def stray(where):
            ctx.fault('stray_answer')
            c.send(frame(ch.pick(STRAY)))
            if ch.chance(30):
                rig.w.sleep(0.3)

        if strict:
            if strays and ch.chance(50):
                stray('before')
            c.send(frame(rpc('initialize', {}, 'init')))
            if strays and ch.chance(50):
                stray('during')
            c.wait_rpc_id('init')
            c.send(frame(rpc('initialized', {})))
        for i, _ in asks:
            c.send(frame(rpc('ask', {'n': i}, i)))
            if ch.chance(30):
                rig.w.sleep(ch.pick((0.01, 1.0)))
        answer = {cid: a for _, calls in asks for cid, a in calls}
        pending, sent = [], []
        left = strays
        todo = extra
        idle = 0
        while idle < 3:
            msgs, problem = c.messages()
            if problem and 'exceeds' not in problem and 'unterminated' not in problem:
                ctx.violate('undecodable', problem)
                return
            asked = [m[1] for m in msgs if m[0] == 'rpc' and m[1].get('method') == 'question']
            progress = len(asked) > len(sent)
            for m in asked[len(sent):]:
                if m.get('id') is None:
                    ctx.violate('without_id', 'question without an id: %s' % m)
                    return
                pending.append(m)
                sent.append(m['id'])
            if left and ch.chance(30):
                left -= 1
                stray('between')
            if todo and ch.chance(30):
                c.send(frame(rpc('work', {'v': 'w%d' % todo}, 'w%d' % todo)))
                todo -= 1
            # hold answers back to let several questions accumulate; any order
            if pending and ch.chance(60):
                q = pending.pop(ch.draw(len(pending)))
                a = dict(answer.get(q['id'], {'result': 'unexpected question'}))
                a.update(jsonrpc='2.0', id=q['id'])
                c.send(frame(json.dumps(a, ensure_ascii=False)))
                if ch.chance(10):           # the client answers twice
                    ctx.fault('duplicate_answer')
                    c.send(frame(json.dumps(a)))
                progress = True
            if pending or progress:
                idle = 0
                rig.w.sleep(ch.pick((0.001, 0.1, 2.0)))
            else:
                rig.net.settle()
                idle += 1
        rig.net.settle()
        msgs, problem = c.messages()
        err = lambda: '; handler errors: %s' % rig.handler_errors()
        if problem or c.closed_by_server:
            ctx.violate('closed', 'connection ended: ' + problem + err())
            return
        res = {}
        for m in msgs:
            if m[0] == 'rpc' and 'method' not in m[1] and m[1].get('id') is not None:
                res.setdefault(m[1]['id'], []).append(m[1])
        for i, calls in asks:
            want = {'got': [[cid, a] for cid, a in calls]}
            got = res.get(i, [])
            ctx.check(len(got) == 1 and got[0].get('result') == want, 'misrouted', lambda:
                      'task %d: %s instead of %s%s' % (i, json.dumps(got)[:400],
                                                       json.dumps(want)[:300], err()))
        for k in range(todo + 1, extra + 1):
            ctx.check([x.get('result') for x in res.get('w%d' % k, [])] == ['w%d' % k],
                      'disturbed', lambda: 'ordinary request w%d: %s%s'
                      % (k, res.get('w%d' % k), err()))
        if strict and ch.chance(50):
            c.send(frame(rpc('shutdown', {}, 'down')))
            c.send(frame(ch.pick(STRAY)))
            rig.net.settle()
            ctx.check(c.wait_rpc_id('down', 0.1) and not c.closed_by_server, 'disturbed',
                      lambda: 'stray answer after shutdown' + err())
        q = holder['c'].response_queues
        left_over = [k for k in q if k in answer]
        ctx.check(len(left_over) <= ctx.faults['duplicate_answer'], 'leak',
                  'queues of answered requests are kept: %s' % left_over)

    rig = srv.Rig(ctx, {'ask': ask, 'work': work}, strict=strict,
                  callback=lambda conn: holder.__setitem__('c', conn))
    rig.run(orch)


SCENARIOS = [('answers', answers, 1)]
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('One run: up to six server-side tasks with up to three questions each, answered by the '
        'client in a seeded order with seeded delays, plus stray and duplicate answers.')
REAL = ['DHParser.server.Server and Connection', 'asyncio streams, transports and tasks']
STUB = ['TCP sockets and selector', 'clock']
ASSUMPTIONS = ['the ids of concurrently open server requests are distinct']


def warmup():
    return srv.warmup()
