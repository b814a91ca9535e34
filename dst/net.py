"""net.py - simulated TCP network, simulated sockets and the simulated asyncio event loop.

The event loop is the standard library's selector event loop (real transports, real streams,
real asyncio.Server) on top of a simulated selector, simulated sockets and virtual time.
"""
import asyncio
import selectors
import socket as _socket
from asyncio import base_events, selector_events

from . import kernel

LATENCIES = (0.0002, 0.001, 0.004, 0.02, 0.1, 0.5, 2.0)


class SimSocket:
    family = 0
    type = _socket.SOCK_STREAM
    proto = 0

    def __init__(self, net, name):
        self.net = net
        self.world = net.world
        self.name = name
        self.fd = net.next_fd()
        net.by_fd[self.fd] = self
        self.peer = None
        self.rbuf = bytearray()
        self.r_eof = False
        self.err = None            # pending error (ConnectionResetError)
        self.closed = False
        self.w_shut = False
        self.inflight = 0          # bytes sent by me, not yet delivered
        self.t_last = 0.0          # delivery time of my last segment (FIFO)
        self.window = net.window
        self.latency = net.latency
        self.jitter = net.jitter
        self.split = net.split     # max number of segments per send
        self.boundaries = ()
        self.stalled_until = 0.0
        self.sent_total = 0
        self.dead = False          # network dropped this direction (partition)

    # -- low level: called on the receiving socket from world events

    def _rx(self, data):
        self.net.activity += 1
        self.net.flying -= 1
        self.peer.inflight -= len(data)
        if self.closed:
            # data for a fully closed socket -> RST to the sender
            self._emit(self.world.now + self.latency, self.peer._rx_reset)
            return
        if self.err is None:
            self.rbuf += data

    def _emit(self, t, fn, *args):
        self.net.flying += 1
        self.world.at_time(t, fn, *args)

    def _rx_eof(self):
        self.net.activity += 1
        self.net.flying -= 1
        self.r_eof = True

    def _rx_reset(self):
        self.net.activity += 1
        self.net.flying -= 1
        if not self.closed and self.err is None:
            self.err = ConnectionResetError(104, 'Connection reset by peer')
            self.rbuf.clear()

    # -- socket interface used by asyncio transports

    def fileno(self):
        return self.fd

    def getsockname(self):
        return ('127.0.0.1', self.fd)

    def getpeername(self):
        return ('127.0.0.1', 0)

    def setblocking(self, flag):
        pass

    def gettimeout(self):
        return 0.0

    def setsockopt(self, *a):
        pass

    def readable(self):
        return bool(self.rbuf) or self.r_eof or self.err is not None

    def writable(self):
        return self.err is not None or self.room() > 0

    def room(self):
        return self.window - self.inflight - len(self.peer.rbuf)

    def recv(self, n):
        if self.rbuf:
            data = bytes(self.rbuf[:n])
            del self.rbuf[:n]
            self.net.activity += 1
            return data
        if self.err is not None:
            err, self.err = self.err, BrokenPipeError(32, 'Broken pipe')
            if isinstance(err, BrokenPipeError):
                return b''
            raise err
        if self.r_eof:
            return b''
        raise BlockingIOError()

    def send(self, data):
        if self.closed or self.w_shut:
            raise BrokenPipeError(32, 'Broken pipe')
        if self.err is not None:
            raise self.err
        room = self.room()
        if room <= 0:
            raise BlockingIOError()
        data = bytes(data[:room])
        self._transmit(data)
        return len(data)

    def sendmsg(self, buffers):
        return self.send(b''.join(bytes(b) for b in buffers))

    def _delay(self):
        d = self.latency
        if self.jitter:
            k = self.world.ch.draw(4)
            if k:
                d += self.jitter * (1, 3, 10)[k - 1]
                self.world.ctx.faults['net_delay'] += 1
        return d

    def _transmit(self, data):
        ch = self.world.ch
        off = self.sent_total
        self.sent_total += len(data)
        self.inflight += len(data)
        self.net.activity += 1
        parts = [len(data)]
        if self.split > 1 and len(data) > self.net.min_split:
            rel = [b - off for b in self.boundaries if 0 < b - off < len(data)]
            parts = ch.sizes(len(data), self.split, rel)
            if len(parts) > 1:
                self.world.ctx.faults['net_split'] += len(parts) - 1
        p = 0
        for n in parts:
            seg = data[p:p + n]
            p += n
            t = max(self.t_last, self.world.now + self._delay(), self.stalled_until)
            if t == self.t_last:
                self.world.ctx.probes['net_coalesced'] += 1
            self.t_last = t
            self._emit(t, self.peer._rx, seg)

    def shutdown(self, how):
        if self.closed or self.w_shut:
            return
        self.w_shut = True
        t = max(self.t_last, self.world.now + self.latency)
        self.t_last = t
        self._emit(t, self.peer._rx_eof)

    def close(self):
        if self.closed:
            return
        self.shutdown(_socket.SHUT_WR)
        if self.rbuf and self.err is None:
            # unread data at close -> RST (as TCP does)
            t = max(self.t_last, self.world.now + self.latency)
            self._emit(t, self.peer._rx_reset)
        self.closed = True
        self.net.by_fd.pop(self.fd, None)

    def reset(self):
        """abortive close: RST to the peer, overtaking undelivered data."""
        if self.closed:
            return
        self._emit(self.world.now + self.latency, self.peer._rx_reset)
        self.closed = True
        self.net.by_fd.pop(self.fd, None)

    def detach(self):
        return self.fd

    # -- blocking interface for scripted clients (called from actors)

    def b_send(self, data):
        while data:
            if self.err is not None or self.closed:
                raise ConnectionResetError('reset')
            if self.room() <= 0:
                if not self.world.block(lambda: self.writable() or self.closed, 30.0):
                    raise TimeoutError('peer does not read')
                continue
            n = self.send(data)
            data = data[n:]

    def b_recv(self, timeout=None, n=1 << 20):
        """-> bytes, b'' on EOF; raises TimeoutError, ConnectionResetError"""
        if not self.world.block(lambda: self.readable() or self.closed, timeout):
            raise TimeoutError('no data')
        if self.closed:
            raise ConnectionResetError('closed')
        return self.recv(n)


class SimListener:
    family = 0
    type = _socket.SOCK_STREAM
    proto = 0

    def __init__(self, net, addr):
        self.net = net
        self.addr = addr
        self.fd = net.next_fd()
        net.by_fd[self.fd] = self
        self.queue = []
        self.closed = False

    def fileno(self):
        return self.fd

    def getsockname(self):
        return self.addr

    def setblocking(self, flag):
        pass

    def gettimeout(self):
        return 0.0

    def listen(self, backlog=100):
        self.net.listeners[self.addr[1]] = self

    def readable(self):
        return bool(self.queue)

    def writable(self):
        return False

    def accept(self):
        if not self.queue:
            raise BlockingIOError()
        sock = self.queue.pop(0)
        return sock, ('127.0.0.1', sock.fd)

    def close(self):
        if not self.closed:
            self.closed = True
            if self.net.listeners.get(self.addr[1]) is self:
                del self.net.listeners[self.addr[1]]
            self.net.by_fd.pop(self.fd, None)
            for s in self.queue:
                s.reset()
            self.queue = []

    def shutdown(self, how):
        pass


class Network:
    def __init__(self, world):
        self.world = world
        world.net = self
        self.by_fd = {}
        self.fd_counter = 1000
        self.listeners = {}
        self.window = 1 << 16
        self.latency = 0.0005
        self.jitter = 0.0
        self.split = 1
        self.min_split = 1         # shorter pieces of data are never split
        self.activity = 0
        self.flying = 0            # segments under way
        self.refuse = []           # injected errors for the next connects
        self.blackhole = None      # (from, until): SYN packets are lost in this interval
        self.conn_counter = 0

    def next_fd(self):
        self.fd_counter += 1
        return self.fd_counter

    def configure(self, ch):
        """draws a network profile for the run"""
        self.latency = ch.pick(LATENCIES[:5])
        self.jitter = ch.pick((0.0, 0.0, 0.001, 0.01, 0.1, 0.4))
        self.split = ch.pick((1, 2, 3, 6, 12))
        self.window = ch.pick((1 << 16, 1 << 16, 4096, 256, 64))

    def pair(self, port):
        """establishes a connection to a listener -> client socket, or raises"""
        if self.refuse:
            e = self.refuse.pop(0)
            if e is not None:
                raise e
        lst = self.listeners.get(port)
        if lst is None or lst.closed:
            raise ConnectionRefusedError(111, 'Connection refused')
        self.conn_counter += 1
        n = self.conn_counter
        c = SimSocket(self, 'c%d' % n)
        s = SimSocket(self, 's%d' % n)
        c.peer, s.peer = s, c
        lst.queue.append(s)
        return c

    def in_transit(self):
        return self.flying > 0

    def settle(self, quiet=6.0, cap=5000.0):
        """blocks the calling actor until the network has been idle for `quiet` seconds.
        -> False if that did not happen within `cap` seconds"""
        end = self.world.now + cap
        while self.world.now < end:
            a = self.activity
            self.world.sleep(quiet)
            if a == self.activity and not self.in_transit():
                return True
        return False

    def b_connect(self, port):
        self.world.sleep(self.latency)
        return self.pair(port)


class SimSelector:
    def __init__(self, loop):
        self.loop = loop
        self.map = {}

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        if fd in self.map:
            raise KeyError(fd)
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self.map[fd] = key
        return key

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self.map.pop(fd)

    def modify(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self.map[fd] = key
        return key

    def get_map(self):
        return self.map

    def get_key(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self.map[fd]

    def close(self):
        self.map.clear()

    def _ready(self):
        res = []
        by_fd = self.loop.net.by_fd
        for fd, key in self.map.items():
            s = by_fd.get(fd)
            if s is None:
                continue
            m = 0
            if key.events & selectors.EVENT_READ and s.readable():
                m |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and s.writable():
                m |= selectors.EVENT_WRITE
            if m:
                res.append((key, m))
        return res

    def select(self, timeout=None):
        loop, w = self.loop, self.loop.world
        loop.woken = False
        w.now += 1e-6                 # every loop iteration costs a little time
        loop.iterations += 1
        # every piece of data that moves through the network justifies some more iterations
        if loop.iterations > loop.max_iterations + 4 * getattr(w.net, 'activity', 0):
            loop.iterations = 0
            raise kernel.StepLimit('event loop exceeded %i iterations' % loop.max_iterations)
        if timeout == 0:
            if len(w.actors) > 1 and w.ch.chance(loop.yield_percent):
                w.yield_()
            else:
                w._run_due()
        else:
            # woken is set by call_soon_threadsafe()
            w.block(lambda: loop.woken or bool(loop._ready) or bool(self._ready()), timeout)
        res = self._ready()
        if len(res) > 1:
            res = w.ch.shuffle(res)
        return res


class SimLoop(selector_events.BaseSelectorEventLoop):
    """Real asyncio selector loop on a simulated selector and virtual clock."""
    max_iterations = 60000
    yield_percent = 25

    def __init__(self, world, net):
        self.world = world
        self.net = net
        self.woken = False
        self.iterations = 0
        super().__init__(SimSelector(self))
        self.errors = []
        self.set_exception_handler(self._on_error)
        self._clock_resolution = 1e-9

    def _on_error(self, loop, context):
        exc = context.get('exception')
        if isinstance(exc, kernel.Deadlock):
            raise exc
        self.errors.append((context.get('message', ''), exc))

    def time(self):
        return self.world.now

    def _make_self_pipe(self):
        self._ssock = self._csock = None

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        self.woken = True

    def _ensure_fd_no_transport(self, fd):
        return

    async def create_server(self, protocol_factory, host=None, port=None, *,
                            backlog=100, ssl=None, start_serving=True, **kw):
        if port in self.net.listeners:
            raise OSError(98, 'error while attempting to bind on address: '
                              'address already in use')
        lst = SimListener(self.net, (host, port))
        server = base_events.Server(self, [lst], protocol_factory, None, backlog, None, None)
        if start_serving:
            server._start_serving()
            await asyncio.sleep(0)
        return server

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        await asyncio.sleep(self.net.latency)
        hole, tries = self.net.blackhole, 0
        while hole and hole[0] <= self.world.now < hole[1]:
            tries += 1                  # SYN retransmission with exponential back-off
            if tries > 6:
                raise OSError(110, 'Connection timed out')
            await asyncio.sleep(2.0 ** (tries - 1))
        sock = self.net.pair(port)
        transport, protocol = await self._create_connection_transport(
            sock, protocol_factory, None, '')
        return transport, protocol


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    """asyncio.run() inside a world gets a SimLoop."""

    def new_event_loop(self):
        w = kernel.WORLD
        if w is not None and w.net is not None:
            loop = SimLoop(w, w.net)
            loops = w.__dict__.setdefault('loops', [])
            loops.append(loop)
            return loop
        return super().new_event_loop()


def install():
    asyncio.set_event_loop_policy(SimPolicy())
