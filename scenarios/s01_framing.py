"""S01 - requests are framed independently of how the transport cuts the byte stream."""
import json

from . import srv
from .srv import frame, rpc

TEXTS = ('', 'x', 'text with spaces', 'äöü€\U0001F600', 'a\nb\r\nc', '\r\n\r\n', '\n\n',
         'Content-Length: 5\r\n\r\nhello', 'Content-Length: 0\n\n', 'Content-Length:',
         'Content-Type: x\r\n', '{"a": [1, "}"]}', '"', '\\', '\t', '\u2028', '}{', 'GET / HTTP',
         'Content-Length: 99999', 'identify()', 'ß' * 30, 'C', 'Conten')
PLAIN = ('plain', 'plain text', 'äöü', 'line\nline2', 'x\r\n\r\ny', '{"a": 1}',
         'see Content-Length: 7\r\n\r\nthere', '', ' ', '\n', 'C', 'Content', 'Content-Len',
         'Content-Length: 3\r\n\r\nabc', 'GE', 'x' * 300, '{', '[', 'null')


def gen_messages(ch, n):
    msgs = []       # (wire bytes, recorded value)
    for i in range(n):
        style = ch.pick((0, 0, 1, 2, 3, 4))
        if ch.chance(30):
            text = ch.pick(PLAIN)
            # plain data is handed over to the default procedure
            msgs.append((frame(text.encode(), style), text))
        else:
            text = '%d:%s' % (i, ch.pick(TEXTS))
            if ch.chance(8):
                text += ch.pick(('ä', 'z', '\\"')) * ch.pick((1000, 9000, 70000))
            ID = None if ch.chance(50) else i + 1
            payload = rpc('record', {'v': text}, ID)
            obj = json.loads(payload)
            if ch.chance(40):                       # members of a JSON object have no order
                keys = ch.shuffle(list(obj))
                obj = {key: obj[key] for key in keys}
                payload = json.dumps(obj, ensure_ascii=False)
            if ch.chance(20):
                payload = json.dumps(obj, indent=1)      # ASCII, with newlines
            msgs.append((frame(payload, style), text))
    return msgs


def short(v):
    return v if len(v) < 60 else v[:40] + '...(%d)' % len(v)


def framing(ctx):
    ch = ctx.ch
    msgs = gen_messages(ch, ch.rint(1, 9))
    wire = b''.join(m[0] for m in msgs)
    ends, p = [], 0
    for m in msgs:
        p += len(m[0])
        ends.append(p)
    how = ch.pick(('open', 'half', 'truncated', 'close', 'reset', 'cut_close'))
    cut = len(wire)
    if how in ('truncated', 'cut_close'):
        k = ch.rint(0, len(msgs) - 1)
        start = ends[k - 1] if k else 0
        # cut right within message k: bias to the header and the last bytes
        size = len(msgs[k][0])
        cut = start + ch.pick((ch.rint(0, min(size - 1, 60)), size - 1 - ch.rint(0, min(5, size - 1)),
                               ch.rint(0, size - 1)))
    complete = sum(1 for e in ends if e <= cut)
    tail = wire[(ends[complete - 1] if complete else 0):cut]
    expected = [m[1] for m in msgs[:complete]]
    ctx.case = '%s cut=%d of %d; %s' % (how, cut, len(wire), [short(v) for v in expected])
    got = []

    def record(*args, **kw):
        got.append(args[0] if args else kw.get('v'))
        return len(got)

    def orch(rig):
        c = rig.client()
        data = wire[:cut]
        pos = 0
        # the client writes in pieces of its own; the network cuts and coalesces these again
        for n in ch.sizes(len(data), ch.pick((1, 1, 3, 8)), ends):
            piece = data[pos:pos + n]
            bnd = [e - pos for e in ends if pos < e < pos + n]
            if not c.send(piece, bnd):
                break
            pos += n
            if ch.chance(40):
                rig.w.sleep(ch.pick((0.001, 0.02, 0.7, 4.0)))
        if how in ('half', 'truncated'):
            if ch.chance(50):
                rig.net.settle()
            c.shut_wr()
        elif how in ('close', 'cut_close'):
            c.close()
        elif how == 'reset':
            c.reset()
        if how != 'open':
            ctx.fault('end_' + how)
        rig.net.settle()
        exact = how in ('open', 'half', 'truncated')
        ok = got == expected if exact else got == expected[:len(got)]
        if not ok and exact or not exact and not ok:
            # less than a recognisable header may be taken for plain data
            if tail and len(tail) < len(b'Content-') and got == expected + [tail.decode()]:
                ok = True
            elif not exact and tail and len(tail) < len(b'Content-') and got[:-1] == expected:
                ok = True
        ctx.check(ok, 'sequence', lambda: 'processed %s instead of %s (end: %s, incomplete rest '
                  '%r); handler errors: %s' % ([short(str(g)) for g in got],
                                               [short(v) for v in expected], how, tail[:60],
                                               rig.handler_errors()))

    rig = srv.Rig(ctx, {'record': record, 'default': record})
    rig.run(orch)


def two_connections(ctx):
    """each connection has a stream of its own: a service connection that sends fragments
    does not disturb the primary client's stream"""
    ch = ctx.ch
    msgs = gen_messages(ch, ch.rint(1, 5))
    service = frame(b'identify()', ch.rint(0, 4))
    expected = [m[1] for m in msgs]
    got = []
    ctx.case = str([short(v) for v in expected])

    def record(*args, **kw):
        got.append(args[0] if args else kw.get('v'))
        return len(got)

    def orch(rig):
        a, b = rig.client('A'), None
        rig.w.sleep(3.0)
        b = rig.client('B')
        wire = b''.join(m[0] for m in msgs)
        pa = ch.sizes(len(wire), 6)
        pb = ch.sizes(len(service), 4)
        i = j = 0
        while pa or pb:
            if pa and (not pb or ch.chance(60)):
                n = pa.pop(0)
                a.send(wire[i:i + n])
                i += n
            else:
                n = pb.pop(0)
                b.send(service[j:j + n])
                j += n
            if ch.chance(60):
                rig.w.sleep(ch.pick((0.001, 0.1, 3.0)))
        rig.net.settle()
        ctx.check(got == expected, 'sequence', lambda: 'processed %s instead of %s; %s'
                  % ([short(str(g)) for g in got], [short(v) for v in expected],
                     rig.handler_errors()))
        bm, problem = b.messages()
        ctx.check(not problem and len(bm) == 1 and b'already connected' in bytes(b.data),
                  'service', lambda: 'service call not answered: %r %s'
                  % (bytes(b.data)[:200], rig.handler_errors()))
        ctx.check(not a.closed_by_server, 'closed', 'primary connection has been closed')

    rig = srv.Rig(ctx, {'record': record, 'default': record})
    rig.run(orch)


SCENARIOS = [('framing', framing, 6), ('two_connections', two_connections, 1)]
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('One run: one server, one stream of up to 9 framed messages, one way of cutting, '
        'coalescing and delaying the bytes, one way of ending the stream.')
REAL = ['DHParser.server.Server', 'asyncio streams, transports and tasks']
STUB = ['TCP sockets and selector', 'clock']
ASSUMPTIONS = ['TCP delivers bytes in order without loss',
               'fragments shorter than "Content-" may be taken for plain data']


def warmup():
    return srv.warmup()
