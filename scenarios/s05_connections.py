"""S05 - one primary client at a time; the server becomes free again after any disconnect."""
import types

from . import srv
from .srv import frame, rpc

ENDS = ('close', 'half', 'reset', 'exit', 'mid_message_close', 'mid_message_half',
        'mid_message_reset', 'close_unread', 'silent_half', 'shutdown_exit', 'stalled_close')
SERVICE = ('identify_plain', 'identify_framed', 'identify_rpc', 'info_plain', 'info_rpc', 'http',
           'info_http', 'logging_http', 'serve_http', 'initialize', 'ordinary', 'ordinary_plain',
           'exit', 'shutdown', 'initialized', 'answer', 'garbage', 'nothing_close',
           'nothing_reset', 'nothing_half', 'fragment_close', 'fragment_half', 'two_requests',
           'rst_after_request', 'logging_rpc', 'bad_utf8', 'http_garbage',
           'survey_plain', 'survey_framed', 'survey_rpc', 'survey_http')
UNFRAMED = ('identify_plain', 'info_plain', 'http', 'info_http', 'logging_http', 'serve_http',
            'ordinary_plain', 'bad_utf8', 'http_garbage', 'survey_plain', 'survey_http')
UNANSWERED = ('exit', 'initialized', 'answer', 'nothing_close', 'nothing_reset', 'nothing_half',
              'fragment_close', 'fragment_half', 'rst_after_request')


def service_data(kind, tag):
    return {
        'identify_plain': b'identify()', 'identify_framed': frame(b'identify()'),
        'identify_rpc': frame(rpc('identify', {}, 1)), 'info_plain': b'info()',
        'info_rpc': frame(rpc('info', {}, 1)), 'http': b'GET /identify HTTP/1.1\r\n\r\n',
        'info_http': b'GET /info HTTP/1.1\r\n\r\n',
        'logging_http': b'GET /nothing/at/all HTTP/1.1\r\n\r\n',
        'serve_http': b'GET /serve/nofile.html HTTP/1.1\r\n\r\n',
        'initialize': frame(rpc('initialize', {'tag': tag}, 1)),
        'ordinary': frame(rpc('work', {'tag': tag}, 1)),
        'ordinary_plain': b'work("%s")' % tag.encode(),
        'exit': frame(rpc('exit', {})), 'shutdown': frame(rpc('shutdown', {}, 1)),
        'initialized': frame(rpc('initialized', {})),
        'answer': frame('{"jsonrpc": "2.0", "id": 1, "result": "x"}'),
        'garbage': frame('{"jsonrpc": "2.0", '), 'two_requests':
            frame(rpc('identify', {}, 1)) + frame(rpc('work', {'tag': tag}, 2)),
        'fragment_close': frame(rpc('identify', {}, 1))[:-3],
        'fragment_half': frame(rpc('identify', {}, 1))[:-3],
        'rst_after_request': frame(rpc('identify', {}, 1)),
        'logging_rpc': frame(rpc('identify', [], 1)),
        'survey_plain': b'survey()', 'survey_framed': frame(b'survey()'),
        'survey_rpc': frame(rpc('survey', {}, 1)),
        'survey_http': b'GET /survey HTTP/1.1\r\n\r\n',
        'bad_utf8': b'\xff\xfe\x00', 'http_garbage': b'GET \n\n'}.get(kind, b'')


def connections(ctx):
    ch = ctx.ch
    strict = ch.chance(40)
    rounds = []
    for _ in range(ch.rint(1, 3)):
        rounds.append((ch.pick(ENDS), [ch.pick(SERVICE) for _ in range(ch.rint(0, 3))],
                       ch.rint(0, 3)))
    ctx.case = 'strict=%s %s' % (strict, rounds)
    ran = []

    def work(tag='', *a, **kw):
        ran.append(tag)
        return tag

    async def slow(tag='', delay=0.5, **kw):
        import asyncio
        ran.append(tag)
        await asyncio.sleep(delay)
        return tag

    def blocking(tag='', delay=0.5, **kw):
        ran.append(tag)
        srv.time.sleep(delay)
        return tag * 10

    async def ask(tag='', **kw):
        conn = rig.server.connection
        ran.append(tag)
        await conn.server_request('question', {'tag': tag}, 900 + len(ran))
        r = await conn.client_response(900 + len(ran))
        return str(r)

    def big(tag='', **kw):
        ran.append(tag)
        return 'B' * 200000

    takes = ch.pick((0.0, 0.5, 4.0, 20.0))

    async def survey(server, *args, **kw):      # a service that takes its time
        import asyncio
        await asyncio.sleep(takes)
        return 'survey completed'

    def secondary(rig, primary, kind, tag):
        """one further connection; returns when it has ended (or is left alone)"""
        try:
            b = rig.client('S' + tag)
        except ConnectionRefusedError:
            ctx.violate('refused', 'second connection refused: %s' % rig.handler_errors())
            return
        if kind in UNFRAMED:
            b.sock.split = 1
        if ch.chance(30):
            rig.w.sleep(ch.pick((0.01, 1.0, 5.0)))
        data = service_data(kind, tag)
        if data:
            b.send(data)
        if kind.endswith('_close'):
            b.close()
        elif kind.endswith('_half'):
            b.shut_wr()
        elif kind.endswith('_reset') or kind == 'rst_after_request':
            rig.w.sleep(ch.pick((0.0, 0.001, 0.1)))
            b.reset()
        return b

    def orch(rig):
        rig.server.register_service_rpc('survey()', types.MethodType(survey, rig.server))
        for ri, (end, services, nreq) in enumerate(rounds):
            a = rig.client('P%d' % ri)
            rig.w.sleep(2.5)            # connection reaches the server before any other
            label = 'round %d: %s' % (ri, rounds)
            # is it the primary client, with fresh state?
            if strict:
                a.send(frame(rpc('work', {'tag': 'early%d' % ri}, 'early')))
                rig.net.settle()
                m = [x for x in a.rpcs() if x.get('id') == 'early']
                if not (len(m) == 1 and 'error' in m[0] and m[0]['error']['code'] == -32002
                        and 'not initialized' in m[0]['error']['message']):
                    ctx.violate('not_fresh', 'new primary client is not in the uninitialized state'
                                ': %s; %s; %s' % (bytes(a.data)[:300], label,
                                                  rig.handler_errors()))
                    return
                srv_hand(a)
            a.send(frame(rpc('work', {'tag': 'full%d' % ri}, 'full')))
            rig.net.settle()
            m = [x for x in a.rpcs() if x.get('id') == 'full']
            if not (len(m) == 1 and m[0].get('result') == 'full%d' % ri):
                ctx.violate('not_primary', 'client does not get full access: %r; %s; %s'
                            % (bytes(a.data)[-300:], label, rig.handler_errors()))
                return
            # requests in flight while further clients come and go
            for k in range(nreq):
                meth = ch.pick(('slow', 'blocking', 'ask', 'work', 'big'))
                a.send(frame(rpc(meth, {'tag': 'r%d.%d' % (ri, k)}
                                 | ({'delay': ch.pick((0.1, 2.0, 8.0))}
                                    if meth in ('slow', 'blocking') else {}), 'q%d' % k)))
                if ch.chance(50):
                    rig.w.sleep(ch.pick((0.001, 0.3, 3.0)))
            if ch.chance(50):
                rig.net.settle()
            bs = []
            for si, kind in enumerate(services):
                n = len(ran)
                tag = 't%d.%d' % (ri, si)
                b = secondary(rig, a, kind, tag)
                if b is None:
                    return
                bs.append((kind, tag, b))
                if ch.chance(60):
                    rig.net.settle()
            rig.net.settle()
            if any(kind.startswith('survey') for kind, _, _ in bs):
                rig.w.sleep(takes)
                rig.net.settle()
            for kind, tag, b in bs:
                err = lambda: '%s (%s): got %r; %s; %s' % (kind, tag, bytes(b.data)[:200], label,
                                                           rig.handler_errors())
                if tag in ran:
                    ctx.violate('full_access', 'procedure called from a further connection: ' + err())
                if kind in ('nothing_close', 'nothing_reset', 'fragment_close',
                            'rst_after_request'):
                    continue
                ctx.check(b.closed_by_server, 'left_open',
                          lambda: 'service connection is not closed: ' + err())
                if kind not in UNANSWERED:
                    ctx.check(len(b.data) > 0 or b.rst, 'unanswered', err)
                    if kind in ('identify_plain', 'identify_framed', 'identify_rpc', 'http'):
                        ctx.check(b'already connected' in b.data, 'service', err)
                    if kind.startswith('survey'):
                        ctx.check(b'survey completed' in b.data, 'service', err)
                    if kind in ('info_plain', 'info_rpc', 'info_http'):
                        ctx.check(b'work' in b.data and b'slow' in b.data, 'service', err)
                        if kind == 'info_http':
                            ctx.check(b'<html' in b.data, 'service', err)
            # the primary client has not been disturbed
            if a.closed_by_server:
                ctx.violate('disturbed', 'primary connection has been closed; %s; %s'
                            % (label, rig.handler_errors()))
                return
            a.send(frame(rpc('work', {'tag': 'still%d' % ri}, 'still')))
            rig.net.settle()
            m = [x for x in a.rpcs() if x.get('id') == 'still']
            if not (len(m) == 1 and m[0].get('result') == 'still%d' % ri):
                ctx.violate('disturbed', 'primary client is not served any more: %s; %s; %s'
                            % (m, label, rig.handler_errors()))
                return
            # more work in flight at the moment of the disconnect
            for k in range(ch.rint(0, 3)):
                meth = ch.pick(('slow', 'blocking', 'ask', 'big'))
                a.send(frame(rpc(meth, {'tag': 'e%d.%d' % (ri, k)}
                                 | ({'delay': ch.pick((0.1, 2.0, 8.0))}
                                    if meth in ('slow', 'blocking') else {}), 'e%d' % k)))
            if ch.chance(50):
                rig.w.sleep(ch.pick((0.0, 0.01, 0.5, 3.0)))
            ctx.fault('end_' + end)
            if end.startswith('mid_message'):
                msg = frame(rpc('work', {'tag': 'partial'}, 77))
                a.send(msg[:ch.rint(1, len(msg) - 1)])
                rig.w.sleep(ch.pick((0.0, 0.01, 1.0)))
            if end in ('close_unread', 'stalled_close'):
                a.reading = False
                a.send(frame(rpc('big', {'tag': 'x'}, 78)) * ch.rint(1, 4))
                rig.w.sleep(ch.pick((0.0, 0.5, 5.0)))
            if end in ('exit', 'shutdown_exit'):
                if end == 'shutdown_exit':
                    a.send(frame(rpc('shutdown', {}, 98)))
                a.send(frame(rpc('exit', {})))
            elif end.endswith('half'):
                a.shut_wr()
            elif end.endswith('reset'):
                a.reset()
            else:
                a.close()
            # a busy worker thread does not keep the server from becoming free
            t0 = rig.w.now
            rig.net.settle()
            rig.w.sleep(max(0.0, 12.0 - (rig.w.now - t0)))
            if end in ('exit', 'half', 'shutdown_exit', 'mid_message_half'):
                ctx.check(a.closed_by_server, 'left_open', lambda: 'connection left open by the '
                          'server after %s; %s' % (end, label))
                a.close()
            ctx.check('partial' not in ran, 'partial', 'incomplete request has been executed')
            if rig.down:
                ctx.violate('died', 'server died: %r; %s' % (rig.srv_exc, label))
                return
        a = rig.client('last')
        rig.w.sleep(2.5)
        if strict:
            srv_hand(a)
        a.send(frame(rpc('work', {'tag': 'last'}, 'last')))
        rig.net.settle()
        ctx.check(ran.count('last') == 1 and any(x.get('result') == 'last' for x in a.rpcs()),
                  'not_primary', lambda: 'server is not free after %s; got %r; %s'
                  % (rounds, bytes(a.data)[:300], rig.handler_errors()))
        # service calls by http from the primary connection
        a.sock.split, a.sock.window = 1, 4096
        n = len(a.data)
        a.send(b'GET /info HTTP/1.1\r\n\r\n')
        rig.net.settle()
        ctx.check(b'<html' in a.data[n:] and b'work' in a.data[n:], 'service',
                  lambda: 'info by http from the primary connection: %r' % bytes(a.data[n:])[:300])

    def srv_hand(c):
        c.send(frame(rpc('initialize', {'processId': 1}, 'init')))
        c.wait_rpc_id('init')
        c.send(frame(rpc('initialized', {})))

    rig = srv.Rig(ctx, {'work': work, 'slow': slow, 'blocking': blocking, 'ask': ask, 'big': big},
                  blocking={'blocking'}, strict=strict)
    rig.net.window = max(rig.net.window, 8192)
    rig.run(orch)


def race(ctx):
    """several clients connect, request and disconnect at the same time; afterwards exactly
    one of those that are still connected can have had full access at any time"""
    ch = ctx.ch
    n = ch.rint(2, 4)
    plans = [[(ch.pick((0.0, 0.001, 0.3, 1.0, 4.0)), ch.pick(('req', 'req', 'close', 'reset',
                                                              'half', 'exit')))
              for _ in range(ch.rint(1, 5))] for _ in range(n)]
    ctx.case = str(plans)
    ran = []
    overlap = []

    async def work(tag='', **kw):
        import asyncio
        conn = rig.server.connection
        ran.append((tag.split('.')[0], id(conn), rig.w.now))
        await asyncio.sleep(0.05)
        if rig.server.connection is not conn:
            overlap.append(tag)
        return tag

    def orch(rig):
        def one(i):
            try:
                c = rig.client('K%d' % i)
            except OSError:
                return
            for k, (pause, what) in enumerate(plans[i]):
                rig.w.sleep(pause)
                if what == 'req':
                    c.send(frame(rpc('work', {'tag': '%d.%d' % (i, k)}, k + 1)))
                    continue
                ctx.fault('end_' + what)
                if what == 'exit':
                    c.send(frame(rpc('exit', {})))
                else:
                    getattr(c, {'close': 'close', 'reset': 'reset', 'half': 'shut_wr'}[what])()
                break
        actors = [rig.w.spawn(one, 'k%d' % i, (i,)) for i in range(n)]
        rig.w.block(lambda: all(a.state == srv.kernel.DONE for a in actors))
        rig.net.settle()
        owners = {}
        for client, conn, t in ran:
            owners.setdefault(conn, set()).add(client)
        for conn, cl in owners.items():
            ctx.check(len(cl) == 1, 'shared', 'requests of several clients processed on one '
                      'connection: %s' % cl)
        # calls of different clients never alternate
        seq = [r[0] for i, r in enumerate(ran) if i == 0 or ran[i - 1][0] != r[0]]
        ctx.check(len(seq) == len(set(seq)), 'two_primaries',
                  'several clients with full access at the same time: %s' % [r[0] for r in ran])
        ctx.check(not overlap, 'lost_primary', 'connection replaced while its request was being '
                  'processed: %s' % overlap)
        for c in rig.clients:
            if not c.sock.closed:
                c.close()
        rig.net.settle()
        rig.w.sleep(12.0)
        z = rig.client('last')
        rig.w.sleep(2.5)
        z.send(frame(rpc('work', {'tag': 'last'}, 'last')))
        rig.net.settle()
        ctx.check(any(x.get('result') == 'last' for x in z.rpcs()), 'not_primary', lambda:
                  'server is not free: %r; %s' % (bytes(z.data)[:300], rig.handler_errors()))

    rig = srv.Rig(ctx, {'work': work})
    rig.run(orch)


SCENARIOS = [('connections', connections, 4), ('race', race, 2)]
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('One run: up to three successive primary clients with requests in flight, up to three '
        'further connections each, one way of ending every connection.')
REAL = ['DHParser.server.Server and Connection', 'asyncio streams, transports and tasks',
        'ThreadPoolExecutor']
STUB = ['TCP sockets and selector', 'clock', 'thread scheduler']
ASSUMPTIONS = ['TCP delivers bytes in order without loss',
               'a client that vanishes without FIN or RST is not noticed (no keep-alive)']


def warmup():
    return srv.warmup()
