"""S10 - stream transports deliver all bytes, in order, exactly once."""
import io
import json

from dst import kernel
from . import srv
from .srv import frame, rpc

PIECES = (b'a', b'\n', b'line\n', b'two\nlines\n', b'no newline', b'\r\n\r\n', b'x' * 40, b'\n\n',
          b'end', bytes(range(128, 160)), b'y' * 300 + b'\n', b'z' * 5000)


class RawPipe(io.RawIOBase):
    """One end of a simulated operating system pipe."""

    def __init__(self, w, ctx, shared, mode, capacity):
        self.w, self.ctx, self.sh, self.mode, self.capacity = w, ctx, shared, mode, capacity

    def readable(self):
        return self.mode == 'r'

    def writable(self):
        return self.mode == 'w'

    def readinto(self, b):
        sh = self.sh
        self.w.block(lambda: sh['buf'] or sh['weof'])
        n = min(len(b), len(sh['buf']))
        if n > 1 and self.ctx.ch.chance(30):
            self.ctx.fault('short_read')
            n = self.ctx.ch.rint(1, n)
        b[:n] = sh['buf'][:n]
        del sh['buf'][:n]
        return n

    def write(self, b):
        sh = self.sh
        self.w.block(lambda: sh['reof'] or len(sh['buf']) < self.capacity)
        if sh['reof']:
            self.ctx.fault('broken_pipe')
            raise BrokenPipeError(32, 'Broken pipe')
        n = min(len(b), self.capacity - len(sh['buf']))
        if n > 1 and self.ctx.ch.chance(30):
            self.ctx.fault('short_write')
            n = self.ctx.ch.rint(1, n)
        sh['buf'] += bytes(b[:n])
        return n

    def close(self):
        if not self.closed:
            self.sh['weof' if self.mode == 'w' else 'reof'] = True
        super().close()


def buffered(w, ctx, sh, cap, size):
    """Buffered files as in the standard library (the Python implementation, with the locking
    of the C implementation: close() waits for a pending read or write)."""
    import _pyio
    _pyio.Lock = kernel.SimLock

    class Reader(_pyio.BufferedReader):
        def __init__(self, *args):
            self._op = kernel.SimLock()
            super().__init__(*args)

        def read(self, n=-1):
            with self._op:
                self._checkClosed('read of closed file')
                return super().read(n)

        def readline(self, size=-1):
            with self._op:
                self._checkClosed('readline of closed file')
                res = bytearray()
                while not res.endswith(b'\n'):
                    b = _pyio.BufferedReader.read(self, 1)
                    if not b:
                        break
                    res += b
                return bytes(res)

        def close(self):
            if hasattr(self, '_op'):
                with self._op:
                    super().close()

        def __del__(self):
            pass

    class Writer(_pyio.BufferedWriter):
        def __init__(self, *args):
            self._op = kernel.SimLock()
            super().__init__(*args)

        def writelines(self, lines):
            for line in lines:
                self.write(line)

        def write(self, b):
            with self._op:
                return super().write(b)

        def close(self):
            if hasattr(self, '_op'):
                with self._op:
                    super().close()

        def __del__(self):
            pass

    return (Reader(RawPipe(w, ctx, sh, 'r', cap), size), Writer(RawPipe(w, ctx, sh, 'w', cap), size))


def make_pipe(ctx, w, kind):
    """-> (object to read from, object to write to, close the reading end)"""
    from DHParser.testing import MockStream
    if kind == 'mock':
        p = MockStream('sim')
        return p, p, p.close
    sh = {'buf': bytearray(), 'weof': False, 'reof': False}
    cap = ctx.ch.pick((65536, 100, 4096, 7))
    r, wr = buffered(w, ctx, sh, cap, ctx.ch.pick((8192, 16, 1)))

    def close_reading_end():
        sh['reof'] = True
    return r, wr, close_reading_end


def gen_data(ch, n):
    return [ch.pick(PIECES) for _ in range(n)]


def short(b):
    return repr(b) if len(b) < 80 else '%r...(%d bytes)' % (bytes(b[:60]), len(b))


def watch(*instructions):
    kernel.instrument(files=('server.py', 'testing.py'), instructions=instructions)


def mock_stream(ctx):
    """reading and writing a MockStream in different threads"""
    from DHParser.testing import MockStream
    ch = ctx.ch
    pieces = gen_data(ch, ch.rint(1, 8))
    sent = b''.join(pieces)
    plan = [(ch.pick(('write', 'write', 'writelines')), ch.chance(60)) for _ in pieces]
    closing = ch.chance(60)
    ctx.case = 'close=%s %s' % (closing, [short(p) for p in pieces])
    w = kernel.World(ctx, preempt=True)
    got, eof = [], [False]

    def writer(pipe):
        i = 0
        while i < len(pieces):
            how, flush = plan[i]
            if how == 'write':
                pipe.write(pieces[i])
                i += 1
            else:
                k = ch.rint(1, 3)
                pipe.writelines(pieces[i:i + k])
                i += k
            if flush:
                pipe.flush()
            if ch.chance(30):
                w.sleep(ch.pick((0.001, 0.1, 2.0)))
        pipe.flush()
        if closing:
            pipe.close()

    def reader(pipe):
        total = 0
        while total < len(sent) or closing:
            rest = len(sent) - total
            ops = ['readline', 'n', 'all']
            op = ch.pick(ops)
            if not closing:
                # without end-of-file requests beyond the data would have to wait forever
                if b'\n' not in sent[total:]:
                    op = 'n'
            if op == 'readline':
                d = pipe.readline()
                want = sent[total:].split(b'\n')[0] + b'\n'
                if want[:rest] != d:
                    ctx.violate('line', 'readline() returned %s instead of %s'
                                % (short(d), short(want[:rest])))
                    return
            elif op == 'n':
                n = ch.pick((1, 2, 7, 64, 4000, 20000))
                if not closing:
                    n = min(n, rest)
                d = pipe.read(n)
                if len(d) != min(n, rest):
                    ctx.violate('size', 'read(%i) returned %s where %i bytes were to come'
                                % (n, short(d), rest))
                    return
            else:
                d = pipe.read()
                if not d and rest:       # nothing there yet
                    if ch.chance(50):
                        w.sleep(0.01)
                    continue
            total += len(d)
            got.append(d)
            if closing and not d:
                eof[0] = True
                if total < len(sent):
                    ctx.violate('early_eof', 'end-of-file after %i of %i bytes' % (total, len(sent)))
                return

    def main():
        pipe = MockStream('sim')
        a = w.spawn(lambda: writer(pipe), 'writer')
        b = w.spawn(lambda: reader(pipe), 'reader')
        if not w.block(lambda: b.state == kernel.DONE, 200.0):
            ctx.violate('hang', 'the reader does not terminate; read %i of %i bytes so far'
                        % (sum(map(len, got)), len(sent)))
        w.block(lambda: a.state == kernel.DONE, 200.0)
        for x in (a, b):
            ctx.check(x.exc is None, 'exception', lambda: '%s: %r' % (x.name, x.exc))

    watch('testing.py')
    try:
        w.run(main)
    finally:
        kernel.uninstrument()
    res = b''.join(got)
    if not ctx.violations:
        ctx.check(res == sent, 'data', lambda: 'read %s instead of %s' % (short(res), short(sent)))


def proxies(ctx):
    """StreamWriterProxy -> pipe -> StreamReaderProxy, each side with an event loop in its own
    thread; several tasks write"""
    import asyncio
    from DHParser.server import StreamReaderProxy, StreamWriterProxy
    from dst import net as simnet
    ch = ctx.ch
    kind = ch.pick(('mock', 'os'))
    tasks = [gen_data(ch, ch.rint(1, 4)) for _ in range(ch.rint(1, 3))]
    one_thread = ch.chance(25) and kind == 'mock'
    ending = ch.pick(('close', 'write_eof', 'close_wait'))
    ctx.case = '%s %s %s' % (kind, ending, [[short(p) for p in t] for t in tasks])
    w = kernel.World(ctx, preempt=True)
    simnet.Network(w)
    sent, got = [], []
    done = []

    def main():
        r, wr, _ = make_pipe(ctx, w, kind)
        reader, writer = StreamReaderProxy(r), StreamWriterProxy(wr)

        async def produce(pieces):
            for p in pieces:
                sent.append(p)
                writer.write(p)
                if ch.chance(70):
                    await writer.drain()
                if ch.chance(30):
                    await asyncio.sleep(ch.pick((0.0, 0.01, 1.0)))

        async def writing():
            await asyncio.gather(*(produce(t) for t in tasks))
            if ch.chance(50):
                await writer.drain()
            if ch.chance(30):
                await asyncio.sleep(1.0)
            if ending == 'write_eof':
                writer.write_eof()
            else:
                writer.close()
                if ending == 'close_wait':
                    await writer.wait_closed()
            done.append('w')

        async def reading():
            while not reader.at_eof():
                if ch.chance(30):
                    await asyncio.sleep(ch.pick((0.0, 0.01, 1.0)))
                n = ch.pick((-1, -1, 1, 5, 100, 3000, 1 << 30))
                d = await reader.read(n)
                if 1 <= n < (1 << 20) and len(d) > n:
                    ctx.violate('size', 'read(%i) returned %i bytes' % (n, len(d)))
                got.append(d)
            done.append('r')

        def run(coro):
            def body():
                asyncio.run(coro())
            return body
        if one_thread:
            async def both():
                await asyncio.gather(reading(), writing())
            actors = [w.spawn(run(both), 'both')]
        else:
            actors = [w.spawn(run(writing), 'writing'), w.spawn(run(reading), 'reading')]
        if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 500.0):
            ctx.violate('hang', 'not finished: %s; read %i of %i bytes'
                        % ([a.name for a in actors if a.state != kernel.DONE],
                           sum(map(len, got)), sum(map(len, sent))))
            return
        for a in actors:
            ctx.check(a.exc is None, 'exception', lambda: '%s: %r' % (a.name, a.exc))

    watch()
    try:
        w.run(main)
    finally:
        kernel.uninstrument()
    if not ctx.violations:
        a, b = b''.join(got), b''.join(sent)
        ctx.check(a == b, 'data', lambda: 'read %s instead of %s' % (short(a), short(b)))


def blocks(ctx):
    """read_full_block() and read_full_content() take exactly one message from the stream"""
    import asyncio
    from DHParser.server import StreamReaderProxy, read_full_block
    from DHParser.testing import read_full_content
    from dst import net as simnet
    ch = ctx.ch
    kind = ch.pick(('mock', 'os', 'asyncio'))
    bodies = [ch.pick((b'', b'body', b'with\nnew\nlines\n', b'x' * 3000, b'{"a":\r\n\r\n1}', b'\n',
                       'äöü\n€'.encode())) for _ in range(ch.rint(1, 3))]
    msgs = [frame(b, ch.pick((0, 0, 1, 2, 3, 4))) for b in bodies]
    stream = b''.join(msgs)
    cut = len(stream)
    if ch.chance(30):
        cut = ch.rint(1, len(stream))
    which = ch.pick(('block', 'block', 'content')) if kind != 'asyncio' else 'block'
    ctx.case = '%s %s cut=%d of %d %s' % (kind, which, cut, len(stream), [short(m) for m in msgs])
    w = kernel.World(ctx, preempt=True)
    simnet.Network(w)
    data = stream[:cut]
    box = {}

    def main():
        if kind == 'asyncio':
            async def reading():
                reader = asyncio.StreamReader()

                async def feed():
                    pos = 0
                    for n in ch.sizes(len(data), 5):
                        reader.feed_data(data[pos:pos + n])
                        pos += n
                        await asyncio.sleep(ch.pick((0.0, 0.1)))
                    reader.feed_eof()
                t = asyncio.ensure_future(feed())
                box['r'] = [await read_full_block(reader)]
                await t
            actors = [w.spawn(lambda: asyncio.run(reading()), 'reading')]
        else:
            r, wr, _ = make_pipe(ctx, w, kind)
            reader = StreamReaderProxy(r)

            def writing():
                pos = 0
                for n in ch.sizes(len(data), 5):
                    wr.write(data[pos:pos + n])
                    wr.flush()
                    pos += n
                    if ch.chance(30):
                        w.sleep(ch.pick((0.001, 0.5)))
                wr.close()

            async def reading():
                box['r'] = []
                for _ in range(len(msgs)):
                    if which == 'content':
                        d = await read_full_content(reader)
                        box['r'].append(d)
                        if not d:
                            break
                    else:
                        h, d, rest = await read_full_block(reader)
                        box['r'].append((h, d, rest))
                        if rest or not d:
                            break
            actors = [w.spawn(writing, 'writing'),
                      w.spawn(lambda: asyncio.run(reading()), 'reading')]
        if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 500.0):
            ctx.violate('hang', 'not finished: %s; got %s' % (
                [a.name for a in actors if a.state != kernel.DONE], str(box)[:300]))
            return
        for a in actors:
            ctx.check(a.exc is None, 'exception', lambda: '%s: %r' % (a.name, a.exc))

    watch()
    try:
        w.run(main)
    finally:
        kernel.uninstrument()
    if ctx.violations:
        return
    pos = 0
    for i, res in enumerate(box['r']):
        end = pos + len(msgs[i])
        if which == 'content':
            want = data[pos:end]
            ctx.check(res == want, 'content', lambda: 'message %d: %s instead of %s'
                      % (i, short(res), short(want)))
        else:
            h, d, rest = res
            want = data[pos:end]
            m = len(msgs[i]) - len(bodies[i])
            complete = end <= cut
            if complete:
                ctx.check(d == want and h == m, 'block', lambda: 'message %d: header %d, %s instead '
                          'of header %d, %s' % (i, h, short(d), m, short(want)))
                ctx.check(data[end:].startswith(rest) and (kind != 'asyncio' or rest == data[end:]),
                          'backlog', lambda: 'backlog %s, following data %s'
                          % (short(rest), short(data[end:])))
            else:
                ctx.check(d + rest == want, 'block', lambda: 'incomplete message %d: %s + %s '
                          'instead of %s' % (i, short(d), short(rest), short(want)))
        if ctx.violations:
            return
        pos = end


def server(ctx):
    """a server that communicates via pipes"""
    from DHParser.server import StreamReaderProxy, StreamWriterProxy
    ch = ctx.ch
    kind = ch.pick(('mock', 'os'))
    n = ch.rint(0, 6)
    reqs = []
    for i in range(n):
        m = ch.pick(('echo', 'a_delay', 't_delay', 'fail'))
        v = '%d-%s' % (i, ch.pick(('x', 'a\nb', 'äö', 'q"', 'Content-Length: 3\r\n\r\nabc', 'l' * 3000)))
        p = {'v': v}
        if 'delay' in m:
            p['delay'] = ch.pick((0.0, 0.1, 2.0))
        s = rpc(m, p, i + 1)
        if ch.chance(25):
            s = json.dumps(json.loads(s), indent=1)
        reqs.append((m, v, frame(s, ch.pick((0, 0, 0, 2)))))
    end = ch.pick(('stop', 'stop_framed', 'stop_rpc', 'eof', 'eof_midway', 'eof_in_header', 'broken'))
    ctx.case = '%s %s %s' % (kind, end, [(m, short(v.encode())) for m, v, _ in reqs])
    rig = srv.Rig(ctx, {'echo': srv.echo, 'a_delay': srv.a_delay, 't_delay': srv.t_delay,
                        'fail': srv.fail}, preempt=ch.chance(50), strict=False)
    w = rig.w
    state = {'out': bytearray(), 'eof': False}

    def orch(rig):
        r1, w1, close_r1 = make_pipe(ctx, w, kind)   # client -> server
        r2, w2, close_r2 = make_pipe(ctx, w, kind)   # server -> client
        reader, writer = StreamReaderProxy(r1), StreamWriterProxy(w2)
        server = rig.make_server()
        server.echo_log = False
        exc = []

        def body():
            try:
                server.run_stream_server(reader, writer)
            except BaseException as e:
                exc.append(e)
            close_r1()
        actor = w.spawn(body, 'server')

        def receiver():
            while True:
                d = r2.read(1)
                if not d:
                    state['eof'] = True
                    return
                state['out'] += d
        rx = w.spawn(receiver, 'client-rx')
        w.sleep(0.01)

        def send(data):
            pos = 0
            for k in ch.sizes(len(data), 4):
                try:
                    w1.write(data[pos:pos + k])
                    w1.flush()
                except (OSError, ValueError):
                    return
                pos += k
                if ch.chance(30):
                    w.sleep(ch.pick((0.001, 0.2)))

        def close_w1():
            try:
                w1.close()
            except OSError:
                pass

        def answered(k):
            return sum(1 for m in srv.parse_stream(state['out'])[0] if m[0] == 'rpc') >= k
        for _, _, data in reqs:
            send(data)
            if ch.chance(20):
                w.sleep(3.0)
        orderly = ch.chance(60)
        if orderly:
            w.block(lambda: answered(n), 60.0)
        if end == 'stop':
            send(srv.stop_request('plain') + b'\n')
        elif end == 'stop_framed':
            send(frame(srv.stop_request('plain')))
        elif end == 'stop_rpc':
            send(srv.stop_request('rpc'))
        else:
            ctx.fault('end_' + end)
            if end == 'eof_midway':
                d = frame(rpc('echo', {'v': 'never complete\n...'}, 99))
                send(d[:len(d) - ch.rint(1, 30)])
            elif end == 'eof_in_header':
                send(b'Content-Length: 1')
            elif end == 'broken' and kind == 'os':
                close_r2()
                send(frame(rpc('echo', {'v': 'nobody listens'}, 98)))
            close_w1()
        err = lambda: '; %s %s' % (rig.handler_errors(), exc)
        if end.startswith('stop') and kind == 'os':
            # a read from an operating system pipe cannot be interrupted: the client closes
            # its end when it has seen the end of the server's output
            if not w.block(lambda: rx.state == kernel.DONE, 60.0):
                ctx.violate('hang', 'the output pipe is not closed after a stop request' + err())
                return
            close_w1()
        if not w.block(lambda: actor.state == kernel.DONE, 120.0):
            ctx.violate('hang', 'server does not terminate (%s)' % end + err())
            return
        ctx.check(not exc, 'exception', lambda: 'run_stream_server raised %r' % exc)
        ctx.check(server.stage.value == 0, 'stage', 'server is not offline afterwards')
        if end == 'broken':
            return
        if not w.block(lambda: rx.state == kernel.DONE, 60.0):
            ctx.violate('no_eof', 'the output pipe has not been closed')
            return
        msgs, problem = srv.parse_stream(state['out'])
        ctx.check(not problem, 'undecodable', lambda: problem + err())
        res = {}
        for m in msgs:
            if m[0] == 'rpc':
                res.setdefault(m[1].get('id'), []).append(m[1])
        for i, (m, v, _) in enumerate(reqs):
            got = res.get(i + 1, [])
            if m == 'fail':
                good = len(got) == 1 and 'error' in got[0]
            else:
                good = len(got) == 1 and got[0].get('result') == v
            if not orderly and not good and (not got or 'error' in got[0]) and len(got) <= 1:
                # requests under way when the server stops or the stream ends may be cut short
                good = end.startswith('stop') or m in ('a_delay', 't_delay')
            ctx.check(good, 'answer', lambda: 'request %d (%s): %s%s'
                      % (i + 1, m, json.dumps(got)[:300], err()))
        if end.startswith('stop'):
            text = bytes(state['out'])
            ctx.check(b'stopped!' in text, 'stop_reply', lambda: 'stop request not answered: %s'
                      % short(text[-200:]) + err())

    if rig.w.preempt_on:
        watch()
    try:
        rig.run(orch, start=False)
    finally:
        kernel.uninstrument()


SCENARIOS = [('mock_stream', mock_stream, 3), ('proxies', proxies, 3), ('blocks', blocks, 2),
             ('server', server, 3)]
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('One run: a byte sequence with a seeded mixture of writes, flushes, reads and line-reads '
        'in different threads, or a server that is driven through two pipes.')
REAL = ['MockStream', 'StreamReaderProxy, StreamWriterProxy', 'read_full_block, read_full_content',
        'DHParser.server.Server', 'asyncio']
STUB = ['thread scheduler', 'operating system pipe', 'clock']
ASSUMPTIONS = ['one reading thread per stream',
               'MockStream.read() without size returns the data available at the moment']


def warmup():
    return srv.warmup()
