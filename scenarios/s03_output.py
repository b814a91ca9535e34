"""S03 - everything the server sends can be decoded by a standard client."""
import json

from . import srv
from .srv import frame, rpc

TEXTS = ('', 'x', 'äöü€\U0001F600', 'a\nb\r\nc\t\x00\x01\x1f\x7f', '"quoted" \\ \\"', '\u2028\u2029',
         '\r\n\r\n', 'Content-Length: 5\r\n\r\nhello', '{"jsonrpc": "2.0"}', '\ud800', 'x\udfffy',
         '</script>', '\ufeff', 'ß' * 100, "'", '{}', '{', '[1, 2')
BIG = ('ä', 'z', '"', '\n', '\U0001F600')


class Weird:
    def __repr__(self):
        return '<weird "\n\\ \udc80>'


class WeirdError(Exception):
    def __str__(self):
        return 'weird "\n\\ ä \x00'


def text_eq(sent, text):
    """the text, possibly with undecodable lone surrogates replaced"""
    if isinstance(sent, bytes):
        try:
            sent = sent.decode('utf-8')
        except UnicodeDecodeError:
            return False
    if any(0xD800 <= ord(c) <= 0xDFFF for c in text):
        return True
    return sent == text


def gen_text(ch):
    t = ch.pick(TEXTS)
    if ch.chance(10):
        t += ch.pick(BIG) * ch.pick((500, 5000, 30000))
    return t


def gen_value(ch, depth=0):
    k = ch.draw(10 if depth < 3 else 6)
    if k < 3:
        return gen_text(ch)
    if k == 3:
        return ch.pick((0, -1, 1.5, 10 ** 20, 1e300))
    if k == 4:
        return ch.pick((True, False))
    if k == 5:
        return ch.pick((0, '', 3))
    if k in (6, 7):
        return [gen_value(ch, depth + 1) for _ in range(ch.rint(0, 3))]
    # keys 'error' or 'code' have a meaning of their own
    return {'k' + gen_text(ch)[:2000]: gen_value(ch, depth + 1) for _ in range(ch.rint(0, 3))}


def rpc_stream(ctx):
    """concurrent json-rpc results, errors and server-initiated calls on one stream"""
    ch = ctx.ch
    items = []
    for i in range(ch.rint(1, 8)):
        kind = ch.pick(('value', 'value', 'slow', 'thread', 'bytes', 'bytearray', 'exc', 'weird',
                        'notify', 'request', 'view'))
        items.append((i + 1, kind, gen_value(ch) if kind not in ('bytes', 'bytearray', 'view')
                      else gen_text(ch), ch.pick((0.0, 0.0, 0.01, 0.3))))
    ctx.case = '; '.join('%s %s' % (k, str(v)[:30]) for _, k, v, _ in items)
    holder = {}

    async def call(n=0, **kw):
        import asyncio
        _, kind, value, delay = items[n - 1]
        if kind in ('slow', 'notify', 'request'):
            await asyncio.sleep(delay)
        if kind == 'exc':
            raise ValueError(json.dumps(value, ensure_ascii=False))
        if kind == 'weird':
            return Weird() if delay else _raise(WeirdError())
        if kind == 'bytes':
            return json.dumps(value).encode()
        if kind == 'bytearray':
            return bytearray(json.dumps(value).encode())
        if kind == 'view':
            from DHParser.stringview import StringView
            return {'view': StringView(value)}
        if kind == 'notify':
            await holder['c'].server_notification('note', {'k': value, 'n': n})
        if kind == 'request':
            await holder['c'].server_request('ask', {'k': value, 'n': n}, 1000 + n)
        return value

    def blocking(n=0, **kw):
        srv.time.sleep(items[n - 1][3])
        return items[n - 1][2]

    def orch(rig):
        c = rig.client()
        for i, kind, v, d in items:
            c.send(frame(rpc('blocking' if kind == 'thread' else 'call', {'n': i}, i)))
            if ch.chance(30):
                rig.w.sleep(ch.pick((0.001, 0.1, 1.0)))
            if ch.chance(15):           # slow reader: server's write buffer fills up
                ctx.fault('slow_reader')
                c.reading = False
                rig.w.sleep(ch.pick((1.0, 20.0)))
                c.reading = True
        rig.net.settle(cap=50000.0)
        msgs, problem = c.messages()
        if problem:
            ctx.violate('undecodable', problem)
            return
        seen = {}
        for m in msgs:
            if m[0] != 'rpc':
                ctx.violate('undecodable', 'not a JSON-RPC message: %r' % (m[1][:200],))
                return
            o = m[1]
            if 'method' in o:
                seen[('call', o['params']['n'])] = o['params']['k']
            else:
                ctx.check(('result' in o) != ('error' in o), 'malformed', lambda: str(o)[:300])
                seen[o.get('id')] = o
        for i, kind, v, d in items:
            o = seen.get(i)
            if o is None:
                ctx.violate('missing', 'no answer to call %i (%s %r); handler errors: %s'
                            % (i, kind, str(v)[:80], rig.handler_errors()))
                continue
            if kind in ('exc', 'weird'):
                ctx.check('error' in o and isinstance(o['error'].get('message'), str), 'content',
                          lambda: '%s answered with %s' % (kind, str(o)[:200]))
            else:
                want = {'view': v} if kind == 'view' else v
                ctx.check(same(o.get('result', ...), want), 'content', lambda:
                          '%s: %r instead of %r' % (kind, str(o)[:300], str(want)[:200]))
            if kind in ('notify', 'request'):
                ctx.check(same(seen.get(('call', i), ...), v), 'content', lambda: 'server call %s'
                          ' arrived as %r' % (str(v)[:200], seen.get(('call', i), '-')))

    rig = srv.Rig(ctx, {'call': call, 'blocking': blocking}, blocking={'blocking'},
                  callback=lambda conn: holder.__setitem__('c', conn))
    if ch.chance(50):
        rig.net.window = ch.pick((3000, 10000, 40000))
    rig.run(orch)


def same(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and text_eq(a, b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        if any(any(0xD800 <= ord(c) <= 0xDFFF for c in k) for k in b):
            return isinstance(a, dict) and len(a) == len(b)
        return isinstance(a, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in b)
    return type(a) == type(b) and a == b


def _raise(e):
    raise e


def plain_and_http(ctx):
    """one request after the other: framed or bare plain data, http"""
    ch = ctx.ch
    form = ch.pick(('framed', 'bare', 'http'))
    items = []
    for i in range(ch.rint(1, 6)):
        kind = ch.pick(('str', 'str', 'bytes', 'bytearray', 'obj', 'none', 'exc', 'weird', 'deep',
                        'badurl', 'invalid'))
        items.append((kind, gen_text(ch) if kind not in ('obj',) else gen_value(ch)))
    ctx.case = form + ' ' + '; '.join('%s %s' % (k, str(v)[:30]) for k, v in items)

    def call(key='', *args, **kw):
        if not str(key).startswith('r'):
            return 'invalid'
        kind, v = items[int(str(key)[1:].strip('()'))]
        if kind == 'str':
            return v
        if kind == 'bytes':
            return v.encode(errors='backslashreplace')
        if kind == 'bytearray':
            return bytearray(v.encode(errors='backslashreplace'))
        if kind == 'obj':
            return [v]
        if kind == 'exc':
            raise ValueError(v)
        if kind == 'weird':
            return Weird()
        if kind == 'deep':
            d = []
            for _ in range(20000):
                d = [d]
            return d
        return None

    def request(i):
        kind, v = items[i]
        if form == 'http':
            if kind == 'badurl':
                return b'GET / \n HTTP/1.1\r\n\r\n'
            if kind == 'invalid':
                return b'GET /\xff\xfe/\x80 HTTP/1.1\r\n\r\n'
            return b'GET /call/r%d HTTP/1.1\r\nHost: localhost\r\n\r\n' % i
        if kind == 'invalid':
            return b'\xff\xfe bad \x80'
        if kind == 'badurl':
            return b'no_such_function(1, 2)'
        return b'r%d' % i if ch.chance(50) else b'call("r%d")' % i

    def orch(rig):
        c = rig.client()
        if form != 'framed':
            c.sock.split = 1            # an unframed chunk is a request by definition
        for i, (kind, v) in enumerate(items):
            n = len(c.data)
            req = request(i)
            c.send(frame(req) if form == 'framed' else req)
            rig.net.settle(cap=50000.0)
            part = bytes(c.data[n:])
            err = lambda: 'request %r (%s %r) answered by %r; handler errors: %s' \
                % (req, kind, str(v)[:60], part[:300], rig.handler_errors())
            if kind == 'none' and form != 'http':
                ctx.check(not part, 'content', err)
                continue
            if form == 'bare':
                body = part
                if not (kind in ('str', 'bytes', 'bytearray') and not v):
                    ctx.check(part, 'missing', err)
                try:
                    body.decode('utf-8')
                except UnicodeDecodeError:
                    ctx.violate('undecodable', err())
                    return
                if body[:1] == b'{':        # taken for json-rpc and framed by respond()
                    continue
                if body.startswith(b'Content-Length:') and body.endswith(v.encode(
                        errors='backslashreplace') if isinstance(v, str) else b''):
                    continue
            else:
                msgs, problem = srv.parse_stream(part, False)
                if problem or len(msgs) != 1:
                    ctx.violate('undecodable' if problem else 'missing',
                                '%s %i messages; %s' % (problem, len(msgs), err()))
                    return
                m = msgs[0]
                if m[0] != ('http' if form == 'http' else m[0]):
                    ctx.violate('undecodable', err())
                    return
                body = m[2] if m[0] == 'http' else m[1]
            if kind in ('str', 'bytes', 'bytearray'):
                ctx.check(text_eq(body, v), 'content', err)
            elif kind == 'obj':
                try:
                    got = json.loads(body)
                except ValueError:
                    got = ...
                if form != 'http':      # http uses a pretty-printed form
                    ctx.check(same(got, [v]), 'content', err)

    rig = srv.Rig(ctx, {'call': call, 'default': call}, blocking={'call'} if ch.chance(30) else ())
    rig.run(orch)


SCENARIOS = [('rpc_stream', rpc_stream, 3), ('plain_and_http', plain_and_http, 2)]
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('One run: one server, one client, up to 8 requests whose results and errors carry '
        'arbitrary text, one network profile.')
REAL = ['DHParser.server.Server and Connection', 'asyncio streams, transports and tasks',
        'json encoding of DHParser.toolkit/nodetree']
STUB = ['TCP sockets and selector', 'clock', 'thread scheduler']
ASSUMPTIONS = ['TCP delivers bytes in order without loss',
               'lone surrogates may be replaced, NaN and Infinity are not used as results']


def warmup():
    import DHParser.nodetree
    return srv.warmup()
