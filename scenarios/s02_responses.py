"""S02 - exactly one response per JSON-RPC request, carrying its id and its own result."""
import json

from scenarios import srv
from scenarios.srv import frame, rpc

warmup = srv.warmup

TABLE = {'echo': srv.echo, 'a_delay': srv.a_delay, 't_delay': srv.t_delay,
         'p_value': srv.p_value, 'fail': srv.fail, 'a_fail': srv.a_fail, 't_fail': srv.fail,
         'p_fail': srv.fail, 'errdict': srv.errdict, 'nothing': srv.nothing,
         'unserialisable': srv.unserialisable, 'raw_json': srv.raw_json, 'large': srv.large}
CPU = {'p_value', 'p_fail'}
BLOCKING = {'t_delay', 't_fail'}

TEXTS = ('plain', 'with "quotes" and \\ backslash', 'ÄÖÜ ß €', '\U0001F600 emoji', 'line\nbreak\t',
         'Content-Length: 12\r\n\r\n{"jsonrpc"}', '', '{"jsonrpc": "2.0"}', "it's")
VALUES = (0, 1, -5, False, True, '', [], {}, [1, [2, {'a': None}]], {'k': 'v', 'code': 7},
          2.5, {'message': 'hi'})


class Req:
    def __init__(self, ID, has_id, method, params, expect, extra=None):
        self.ID, self.has_id, self.method, self.params = ID, has_id, method, params
        self.expect = expect            # ('result', value) | ('error', None) | ('any', None)
        self.extra = extra or {}

    def payload(self):
        d = {'jsonrpc': '2.0'}
        if self.method is not None:
            d['method'] = self.method
        if self.params is not Ellipsis:
            d['params'] = self.params
        if self.has_id:
            d['id'] = self.ID
        d.update(self.extra)
        return json.dumps(d, ensure_ascii=bool(self.extra.get('_ascii')))

    def __str__(self):
        return '%s(%s)#%s' % (self.method, self.params, self.ID if self.has_id else '-')


def gen_request(ch, n, used):
    has_id = not ch.chance(15)
    ID = n + 1
    if has_id and ch.chance(25):
        ID = ch.pick(('s%d' % n, 'id "%d"' % n, str(n + 1000), 2 ** 40 + n, 'ü%d' % n))
    if has_id and ch.chance(5):
        ID = 0 if 0 not in used else ID
    text = ch.pick(TEXTS) + '#%d' % n
    kind = ch.weighted([(5, 'echo'), (4, 'a_delay'), (4, 't_delay'), (3, 'p_value'), (2, 'fail'),
                        (1, 'a_fail'), (1, 't_fail'), (1, 'p_fail'), (2, 'value'),
                        (1, 'errdict'), (1, 'nothing'), (1, 'unserialisable'), (1, 'raw_json'),
                        (2, 'large'), (2, 'list'), (1, 'noparams'), (1, 'unknown'), (1, 'badargs'),
                        (1, 'nomethod'), (1, 'badversion'), (1, 'badparams')])
    delay = ch.pick((0.0, 0.001, 0.05, 0.3, 1.0, 2.5))
    if kind == 'echo':
        r = Req(ID, has_id, 'echo', {'v': text}, ('result', text))
    elif kind in ('a_delay', 't_delay', 'p_value'):
        r = Req(ID, has_id, kind, {'v': text, 'delay': delay}, ('result', text))
    elif kind in ('fail', 'a_fail', 't_fail', 'p_fail'):
        r = Req(ID, has_id, kind, {'v': text, 'kind': ch.pick(
            ('value', 'type', 'name', 'key', 'custom', 'unicode'))}, ('error', None))
    elif kind == 'value':
        v = ch.pick(VALUES)
        r = Req(ID, has_id, 'echo', {'v': v}, ('result', v))
    elif kind == 'errdict':
        r = Req(ID, has_id, 'errdict', {'v': text}, ('error', None))
    elif kind == 'nothing':
        r = Req(ID, has_id, 'nothing', {}, ('result', None))
    elif kind == 'unserialisable':
        r = Req(ID, has_id, 'unserialisable', {}, ('error', None))
    elif kind == 'large':
        size = ch.pick((3000, 70000, 200000))
        r = Req(ID, has_id, 'large', {'v': text, 'size': size}, ('result', text + 'x' * size))
    elif kind == 'raw_json':
        r = Req(ID, has_id, 'raw_json', {'v': text}, ('result', {'raw': text}))
    elif kind == 'list':
        r = Req(ID, has_id, 'echo', [text], ('any', text))
    elif kind == 'noparams':
        r = Req(ID, has_id, 'echo', ch.pick((..., None, {})), ('any', None))
    elif kind == 'unknown':
        r = Req(ID, has_id, 'no_such_method', {'v': text}, ('error', None))
    elif kind == 'badargs':
        r = Req(ID, has_id, ch.pick(('raw_json', 'p_value')), [1, 2, 3, 4, 5], ('error', None))
    elif kind == 'nomethod':
        r = Req(ID, has_id, ch.pick(('', None, 5)), {}, ('error', None))
    elif kind == 'badversion':
        r = Req(ID, has_id, 'echo', {'v': text}, ('any', None),
                {'jsonrpc': ch.pick(('1.0', 2.0, None))})
    else:
        r = Req(ID, has_id, 'echo', ch.pick((5, 'text', True)), ('any', None))
    used.add(ID)
    return r


def check_responses(ctx, client, reqs, maybe=()):
    """oracle; ids in `maybe` may be answered any number of times"""
    msgs, problem = client.messages()
    if problem:
        ctx.violate('undecodable', problem)
        return
    got = {}
    for m in msgs:
        if m[0] != 'rpc':
            ctx.violate('stray', 'non-JSON-RPC message from server: %r' % (m[1][:200],))
            continue
        obj = m[1]
        if 'method' in obj:
            continue
        if ('result' in obj) == ('error' in obj):
            ctx.violate('malformed', 'neither/both result and error: %s' % json.dumps(obj)[:300])
        ID = obj.get('id')
        if ID is None:
            ctx.check('error' in obj, 'stray', 'result without id: %s' % json.dumps(obj)[:300])
        else:
            got.setdefault((type(ID).__name__, ID), []).append(obj)
    for r in reqs:
        if not r.has_id:
            continue
        answers = got.pop((type(r.ID).__name__, r.ID), [])
        if r.ID in maybe:
            continue
        if len(answers) != 1:
            ctx.violate('count', '%i responses to request %s: %s'
                        % (len(answers), r, json.dumps(answers)[:400]))
            continue
        a = answers[0]
        kind, val = r.expect
        if kind == 'result':
            ok = 'result' in a and a['result'] == val and type(a['result']) == type(val)
            ctx.check(ok, 'wrong', lambda: 'request %s expected result %r, got %s'
                      % (r, str(val)[:200], json.dumps(a)[:500]))
        elif kind == 'error':
            ctx.check('error' in a and isinstance(a['error'].get('code'), int)
                      and isinstance(a['error'].get('message'), str), 'wrong',
                      lambda: 'request %s expected error, got %s' % (r, json.dumps(a)[:300]))
        elif val is not None:
            ctx.check('error' in a or a.get('result') == val, 'wrong',
                      lambda: 'request %s got %s' % (r, json.dumps(a)[:300]))
    for (t, ID), answers in got.items():
        ctx.violate('stray', 'response(s) with an id nobody used: %s' % json.dumps(answers)[:400])


def handshake(c):
    c.send(frame(rpc('initialize', {'processId': 1}, 'init')))
    c.wait_rpc_id('init')
    c.send(frame(rpc('initialized', {})))


def many_requests(ctx, preempt=False):
    ch = ctx.ch
    strict = ch.chance(30)
    table = dict(TABLE)
    if strict:
        table['initialize'] = lambda **kw: {'capabilities': {}}
    n = ch.rint(1, 12)
    used = set()
    reqs = [gen_request(ch, i, used) for i in range(n)]
    style = ch.pick((0, 0, 1, 3))
    ctx.case = 'strict=%s %s' % (strict, '; '.join(str(r) for r in reqs))

    def orch(rig):
        c = rig.client()
        if strict:
            handshake(c)
        stalled = ch.chance(25)
        if stalled:                 # the client does not read for a while
            ctx.fault('stalled_reader')
            c.reading = False
        for r in reqs:
            ctx.ev('send', r)
            if not c.send(frame(r.payload(), style)):
                ctx.violate('closed', 'server closed the connection while requests were sent; '
                            'handler errors: %s' % rig.handler_errors())
                return
            if ch.chance(40):
                rig.w.sleep(ch.pick((0.0001, 0.002, 0.05, 0.5, 3.0)))
        # liveness: all answers must have arrived when the system has come to rest
        if stalled:
            rig.w.sleep(ch.pick((0.0, 1.0, 30.0)))
            c.reading = True
        rig.net.settle()
        if c.closed_by_server:
            ctx.violate('closed', 'connection closed by server although client is connected; '
                        'handler errors: %s' % rig.handler_errors())
        extra = [Req('init', True, 'initialize', {}, ('any', None))] if strict else []
        check_responses(ctx, c, reqs + extra)
        if ctx.violations:
            ctx.ev('handler errors', rig.handler_errors())
        # the server must still be usable
        c.send(frame(rpc('echo', {'v': 'alive'}, 'probe')))
        rig.net.settle()
        ctx.check(c.wait_rpc_id('probe', 0.1), 'unusable', 'no answer to a later request')

    rig = srv.Rig(ctx, table, CPU, BLOCKING, strict=strict, preempt=preempt)
    if any(r.method == 'large' for r in reqs):
        rig.net.window = max(rig.net.window, 16384)
    rig.run(orch)


def duplicates(ctx):
    """ids that are re-used while the first request is still running, plus bystanders"""
    ch = ctx.ch
    reqs, used = [], set()
    n = ch.rint(1, 6)
    for i in range(n):
        reqs.append(gen_request(ch, i, used))
    dup = ch.pick((7777, 'dup'))
    dups = [Req(dup, True, ch.pick(('a_delay', 't_delay', 'p_value')),
                {'v': 'd%d' % i, 'delay': ch.pick((0.0, 0.3, 1.0))}, ('any', None))
            for i in range(ch.rint(2, 3))]
    allr = ch.shuffle(reqs + dups)
    ctx.case = '; '.join(str(r) for r in allr)

    def orch(rig):
        c = rig.client()
        for r in allr:
            c.send(frame(r.payload()))
            ctx.faults['duplicate_id'] += r in dups
            if ch.chance(30):
                rig.w.sleep(ch.pick((0.001, 0.1, 2.0)))
        rig.net.settle()
        check_responses(ctx, c, allr, maybe={dup})
        nd = sum(1 for m in c.rpcs() if m.get('id') == dup)
        ctx.check(1 <= nd <= len(dups), 'count', '%i responses to %i requests with the same id'
                  % (nd, len(dups)))
        c.send(frame(rpc('echo', {'v': 'alive'}, 'probe')))
        rig.net.settle()
        ctx.check(c.wait_rpc_id('probe', 0.1), 'unusable', lambda: 'no answer to a later request; '
                  'handler errors: %s' % rig.handler_errors())

    rig = srv.Rig(ctx, TABLE, CPU, BLOCKING)
    rig.net.window = max(rig.net.window, 16384)
    rig.run(orch)


GARBAGE = (b'{"jsonrpc": "2.0", "method": "echo", "id": 5', b'{"jsonrpc"}', b'[{"jsonrpc": "2.0"}]',
           b'{"jsonrpc": "2.0", "id": 77, "method": "ec\xff\xfeho"}', b'{"jsonrpc": "2.0"}',
           b'"jsonrpc"', b'[[[["jsonrpc"]]]]', b'{"jsonrpc": "2.0", "id": [1], "method": "echo"}',
           b'{"jsonrpc": "2.0", "id": {"a": 1}, "method": "echo"}',
           b'{"jsonrpc": "2.0", "method": ["echo"], "params": {}}',
           b'{"jsonrpc": "2.0", "id": 1.5, "method": "echo", "params": {}}',
           b'{"jsonrpc": "2.0", "id": true, "method": "nothing", "params": {}}',
           b'[' * 3000 + b'"jsonrpc"' + b']' * 3000,
           b'{"jsonrpc": "2.0", "id": null, "method": "echo", "params": {"v": 1}}',
           b'{"jsonrpc": "2.0", "result": 5, "id": 99}',
           b'{"jsonrpc": "2.0", "result": null, "id": 98}',
           b'{"jsonrpc": "2.0", "error": {"code": 1, "message": "x"}, "id": 97}')


def garbage(ctx):
    """malformed messages between good requests"""
    ch = ctx.ch
    used, items = set(), []
    for i in range(ch.rint(1, 6)):
        items.append(gen_request(ch, i, used))
    for i in range(ch.rint(1, 3)):
        items.insert(ch.rint(0, len(items)), ch.pick(GARBAGE))
    ctx.case = '; '.join(str(r)[:60] for r in items)

    def orch(rig):
        c = rig.client()
        for r in items:
            if isinstance(r, bytes):
                ctx.fault('garbage', r[:60])
                c.send(frame(r))
            else:
                c.send(frame(r.payload()))
            if ch.chance(50):
                rig.w.sleep(ch.pick((0.001, 0.1, 2.0)))
        reqs = [r for r in items if not isinstance(r, bytes)]
        rig.net.settle()
        msgs, problem = c.messages()
        if problem:
            ctx.violate('undecodable', problem)
            return
        for r in reqs:
            if r.has_id:
                k = sum(1 for m in msgs if m[0] == 'rpc' and m[1].get('id') == r.ID
                        and type(m[1].get('id')) == type(r.ID))
                ctx.check(k == 1, 'count', lambda: '%i responses to %s; handler errors: %s; '
                          'received %r' % (k, r, rig.handler_errors(), bytes(c.data)[:500]))
        c.send(frame(rpc('echo', {'v': 'alive'}, 'probe')))
        rig.net.settle()
        ctx.check(c.wait_rpc_id('probe', 0.1), 'unusable', lambda: 'no answer to a later request; '
                  'handler errors: %s' % rig.handler_errors())

    rig = srv.Rig(ctx, TABLE, CPU, BLOCKING)
    rig.net.window = max(rig.net.window, 16384)
    rig.run(orch)


SCENARIOS = [('many_requests', many_requests, 6), ('duplicates', duplicates, 1),
             ('garbage', garbage, 2)]
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = 'One run: one server, one client, up to 12 concurrent requests, one network profile.'
REAL = ['DHParser.server.Server', 'asyncio streams/transports/tasks', 'ThreadPoolExecutor',
        'log, configuration']
STUB = ['TCP sockets and selector', 'clock', 'thread scheduler',
        'process pool (job runs in a forked child at a simulated time)']
ASSUMPTIONS = ['TCP delivers bytes in order without loss']
