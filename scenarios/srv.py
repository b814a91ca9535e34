"""srv.py - rig for simulations of DHParser's language server.

The real DHParser.server.Server runs (real asyncio streams, transports, tasks, thread pools)
on the simulated network; scripted clients are actors with blocking simulated sockets.
"""
import json
import time

from dst import kernel, net, procpool

PORT = 8888
HOST = '127.0.0.1'


# ---- remote procedures (module level: the process pool pickles them) -------------------

def echo(*args, **kwargs):
    kwargs.pop('ID', None)
    if args and not kwargs:
        return args[0] if len(args) == 1 else list(args)
    return kwargs.get('v', 'nothing')


async def a_delay(delay=0.0, v='', **kw):
    import asyncio
    await asyncio.sleep(float(delay))
    return v


def t_delay(delay=0.0, v='', **kw):
    time.sleep(float(delay))
    return v


def p_value(delay=0.0, v='', **kw):
    return v


class CustomError(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


def fail(kind='value', v='', **kw):
    if kind == 'type':
        raise TypeError('bad type ' + v)
    if kind == 'name':
        raise NameError('bad name ' + v)
    if kind == 'key':
        raise KeyError(v)
    if kind == 'custom':
        raise CustomError(v, '"quoted\\" \n text ÄÖ')
    if kind == 'unicode':
        raise ValueError('ungültig \u20ac \U0001F600 "q" \\ \n\t' + v)
    raise ValueError('bad value ' + v)


async def a_fail(kind='value', v='', **kw):
    return fail(kind, v)


def errdict(v='', **kw):
    return {'error': {'code': -32050, 'message': 'declared error "%s"' % v}}


def nothing(**kw):
    return None


def unserialisable(**kw):
    return object()


def large(v='', size=0, **kw):
    return v + 'x' * size


def raw_json(v='', **kw):
    return json.dumps({'raw': v}).encode()


# ---- client side ------------------------------------------------------------------------

def frame(payload, style=0):
    if isinstance(payload, str):
        payload = payload.encode()
    if style == 1:
        return b'Content-Length: %i\n\n' % len(payload) + payload
    if style == 2:
        return b'Content-Length: %i\r\nContent-Type: application/vscode-jsonrpc; ' \
               b'charset=utf-8\r\n\r\n' % len(payload) + payload
    if style == 4:
        return b'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n' \
               b'Content-Length: %i\r\n\r\n' % len(payload) + payload
    if style == 3:
        return b'Content-Length:%i\r\n\r\n' % len(payload) + payload
    return b'Content-Length: %i\r\n\r\n' % len(payload) + payload


def rpc(method, params=None, ID=None, **extra):
    d = {'jsonrpc': '2.0', 'method': method}
    if params is not None:
        d['params'] = params
    if ID is not None:
        d['id'] = ID
    d.update(extra)
    return json.dumps(d, ensure_ascii=False)


def parse_stream(data, json_bodies=True):
    """Splits the byte stream sent by the server as a client would.
    -> (messages, problem or '')   messages: ('rpc', obj) ('http', head, body) ('raw', bytes)"""
    data = bytes(data)
    msgs = []
    i = 0
    while i < len(data):
        if data.startswith(b'Content-Length:', i):
            j = data.find(b'\r\n\r\n', i)
            if j < 0:
                return msgs, 'unterminated header: %r' % data[i:i + 80]
            try:
                n = int(data[i:j].split(b'\r\n')[0].split(b':')[1])
            except ValueError:
                return msgs, 'bad Content-Length: %r' % data[i:j]
            body = data[j + 4:j + 4 + n]
            if len(body) < n:
                return msgs, 'Content-Length %i exceeds the %i bytes sent: %r' \
                    % (n, len(body), data[i:j + 4 + n][:200])
            i = j + 4 + n
            if not json_bodies:
                msgs.append(('raw', body))
                continue
            try:
                obj = json.loads(body.decode('utf-8'))
                if isinstance(obj, dict):
                    msgs.append(('rpc', obj))
                else:
                    msgs.append(('raw', body))
            except UnicodeDecodeError as e:
                return msgs, 'not UTF-8: %s in %r' % (e, body[:120])
            except ValueError as e:
                if body[:1] == b'{':
                    return msgs, 'not JSON: %s in %r' % (e, body[:160])
                msgs.append(('raw', body))
        elif data.startswith(b'HTTP/1.1', i):
            j = data.find(b'\n\n', i)
            if j < 0:
                return msgs, 'unterminated HTTP header'
            head = data[i:j + 2]
            n = 0
            for line in head.split(b'\n'):
                if line.startswith(b'Content-Length:'):
                    n = int(line.split(b':')[1])
            body = data[j + 2:j + 2 + n]
            if len(body) < n:
                return msgs, 'HTTP body too short: %i < %i' % (len(body), n)
            i = j + 2 + n
            msgs.append(('http', head, body))
        else:
            ks = [k for k in (data.find(b'Content-Length:', i), data.find(b'HTTP/1.1', i))
                  if k >= 0]
            j = min(ks) if ks else len(data)
            msgs.append(('raw', data[i:j]))
            i = j
    return msgs, ''


class Client:
    """scripted client: sends from the calling actor, a helper actor receives."""

    def __init__(self, rig, name):
        self.rig, self.name = rig, name
        self.sock = None
        self.data = bytearray()
        self.chunks = []           # (virtual time, bytes)
        self.eof = False
        self.rst = False
        self.reading = True

    def connect(self, retries=0):
        w = self.rig.w
        while True:
            try:
                self.sock = self.rig.net.b_connect(PORT)
                break
            except ConnectionRefusedError:
                if retries <= 0:
                    raise
                retries -= 1
                w.sleep(0.1)
        self.rig.ctx.ev(self.name, 'connected', self.sock.name)
        w.spawn(self._receiver, self.name + '-rx')
        return self

    def _receiver(self):
        try:
            while True:
                if not self.reading:
                    self.rig.w.block(lambda: self.reading)
                d = self.sock.b_recv(None)
                if not d:
                    self.eof = True
                    break
                self.data += d
                self.chunks.append((self.rig.w.now, d))
        except (ConnectionError, TimeoutError, BrokenPipeError):
            self.rst = True
        self.rig.ctx.ev(self.name, 'eof' if self.eof else 'reset', len(self.data))

    @property
    def closed_by_server(self):
        return self.eof or self.rst

    def send(self, data, boundaries=()):
        if isinstance(data, str):
            data = data.encode()
        off = self.sock.sent_total
        self.sock.boundaries = tuple(off + b for b in boundaries)
        try:
            self.sock.b_send(data)
            return True
        except (ConnectionError, TimeoutError, BrokenPipeError, OSError):
            return False

    def messages(self):
        return parse_stream(self.data)

    def rpcs(self):
        return [m[1] for m in self.messages()[0] if m[0] == 'rpc']

    def wait(self, pred, timeout):
        """-> True if pred() became true in time"""
        return self.rig.w.block(pred, timeout)

    def wait_rpc_id(self, ID, timeout=30.0):
        return self.wait(lambda: any(m.get('id') == ID for m in self.rpcs()), timeout)

    def wait_closed(self, timeout=30.0):
        return self.wait(lambda: self.closed_by_server, timeout)

    def close(self):
        self.rig.ctx.ev(self.name, 'close')
        self.sock.close()

    def shut_wr(self):
        self.rig.ctx.ev(self.name, 'shutdown_wr')
        self.sock.shutdown(1)

    def reset(self):
        self.rig.ctx.ev(self.name, 'rst')
        self.sock.reset()


class Rig:
    def __init__(self, ctx, table=None, cpu=(), blocking=(), strict=False, preempt=False,
                 name='SimServer', callback=None, netprofile=True, step_cap=2_000_000):
        self.ctx = ctx
        self.w = kernel.World(ctx, step_cap=step_cap, preempt=preempt)
        self.net = net.Network(self.w)
        if netprofile:
            self.net.configure(ctx.ch)
        self.table = dict(table or {})
        self.cpu, self.blocking = set(cpu), set(blocking)
        self.strict, self.name = strict, name
        self.callback = callback
        self.server = None
        self.srv_actor = None
        self.srv_exc = None
        self.clients = []

    def make_server(self):
        from DHParser.server import Server
        kw = {}
        if self.callback is not None:
            kw['connection_callback'] = self.callback
        self.server = Server(self.table, self.cpu, self.blocking, server_name=self.name,
                             strict_lsp=self.strict, **kw)
        return self.server

    def start(self):
        if self.server is None:
            self.make_server()

        def body():
            try:
                self.server.run_tcp_server(HOST, PORT)
            except BaseException as e:
                self.srv_exc = e
        self.srv_exc = None
        self.srv_actor = self.w.spawn(body, 'server')
        ok = self.w.block(lambda: PORT in self.net.listeners
                          or self.srv_actor.state == kernel.DONE, 30.0)
        if not ok or self.srv_actor.state == kernel.DONE:
            self.ctx.violate('startup', 'server did not come online: %r' % (self.srv_exc,),
                             stop=True)
        # let the serving task start, so that stop requests can be honoured
        self.w.sleep(0.01)

    @property
    def down(self):
        return self.srv_actor is None or self.srv_actor.state == kernel.DONE

    def client(self, name=None, retries=3):
        c = Client(self, name or 'C%d' % len(self.clients))
        c.connect(retries)
        self.clients.append(c)
        return c

    def handler_errors(self):
        """exceptions that escaped from the server's tasks"""
        res = []
        for loop in self.w.__dict__.get('loops', []):
            for msg, exc in loop.errors:
                if exc is not None:
                    res.append('%s: %s: %s' % (msg, type(exc).__name__, exc))
        return res

    def stop_and_check(self, timeout=60.0, kind='plain'):
        """closes all clients, sends a stop request on a new connection and demands that the
        server terminates within `timeout` virtual seconds."""
        for c in self.clients:
            if c.sock is not None and not c.sock.closed:
                c.close()
        self.w.sleep(8.0)
        if self.down:
            return True
        try:
            s = self.client('stopper')
            if kind in ('plain', 'http'):
                s.sock.split = 1        # unframed data: one segment is one request
        except (ConnectionRefusedError, OSError):
            s = None
        if s is not None:
            s.send(stop_request(kind))
        ok = self.w.block(lambda: self.down, timeout)
        return ok

    def run(self, orchestrate, start=True):
        """orchestrate(rig) is run as the main actor"""
        def main():
            if start:
                self.start()
            return orchestrate(self)
        return self.w.run(main)


def stop_request(kind='plain'):
    if kind == 'http':
        return b'GET __STOP_SERVER__ HTTP'
    if kind == 'rpc':
        return frame(rpc('__STOP_SERVER__', {}, 'stop'))
    if kind == 'framed':
        return frame(b'__STOP_SERVER__')
    return b'__STOP_SERVER__'


def warmup():
    import DHParser.server
    import DHParser.lsp
    import DHParser.toolkit as tk
    import concurrent.futures.thread
    import asyncio.staggered
    return DHParser.server
