"""S09 - client-side helpers give a correct verdict within their timeout."""
from dst import kernel, net
from . import srv
from .srv import HOST, PORT

TRANSIENT = (ConnectionResetError(104, 'Connection reset by peer'),
             ConnectionAbortedError(103, 'Software caused connection abort'),
             OSError(99, 'Cannot assign requested address'), BrokenPipeError(32, 'Broken pipe'),
             OSError(113, 'No route to host'))
TIMEOUTS = (3.0, 0.5, 1.0, 10.0, 0.0)


class Peer:
    """A scripted server."""

    def __init__(self, rig, ctx, behaviour):
        self.rig, self.w, self.ctx, self.behaviour = rig, rig.w, ctx, behaviour
        self.listener = None
        self.served = 0

    def up(self):
        self.listener = net.SimListener(self.rig.net, (HOST, PORT))
        self.listener.listen()
        self.w.spawn(self.accepting, 'peer')

    def down(self):
        if self.listener is not None:
            self.listener.close()

    def accepting(self):
        lst = self.listener
        while True:
            self.w.block(lambda: lst.queue or lst.closed)
            if lst.closed:
                return
            s, _ = lst.accept()
            self.served += 1
            self.w.spawn(lambda: self.serve(s), 'peer-conn')

    def request(self, s):
        d = b''
        while b'STOP_SERVER__' not in d and b'identify()' not in d:
            more = s.b_recv(None)
            d += more
            if not more:
                break
        return d

    def serve(self, s):
        b = self.behaviour
        try:
            if b == 'silent':
                self.ctx.fault('silent')
                return
            if b == 'resetter':
                self.ctx.fault('reset')
                self.w.sleep(self.ctx.ch.pick((0.0, 0.001, 0.2)))
                s.reset()
            elif b == 'closer':
                self.ctx.fault('close')
                self.w.sleep(self.ctx.ch.pick((0.0, 0.001, 0.2)))
                s.close()
            elif b == 'half':
                self.request(s)
                self.ctx.fault('half_answer')
                s.b_send(b'Content-Length: 500\r\n\r\nonly the beginning')
            elif b == 'slow':
                self.request(s)
                self.w.sleep(self.delay)
                s.b_send(b'Slow Server')
                self.w.sleep(0.5)
                s.close()
            elif b == 'stops_late':
                d = self.request(s)
                if b'STOP' in d:
                    s.b_send(b'stopping')
                    s.close()
                    self.w.sleep(self.delay)
                    self.down()
                else:
                    s.close()
            elif b == 'immortal':
                self.request(s)
                s.b_send(b'never!')
                s.close()
        except (ConnectionError, TimeoutError, OSError):
            pass


class Unreachable:
    """Every attempt to connect fails with an error other than 'connection refused'."""

    def __init__(self, errno):
        self.errno = errno

    def pop(self, _):
        return OSError(self.errno, 'network error')


def helpers(ctx):
    import asyncio
    from DHParser import server as S
    ch = ctx.ch
    helper = ch.pick(('connect', 'probe', 'stopped', 'stop'))
    T = ch.pick(TIMEOUTS)
    kinds = ['real', 'none', 'late', 'late_real', 'silent', 'resetter', 'closer', 'half', 'slow',
             'stops_late', 'immortal', 'blackhole', 'transient', 'unreachable']
    kind = ch.pick(kinds)
    t_up = T * ch.pick((0.0, 0.1, 0.5, 0.9, 0.97, 2.5, 6.0))
    t_down = T * ch.pick((0.1, 0.5, 0.9, 0.97, 3.5, 8.0))
    goes_down = helper == 'stopped' and ch.chance(60)
    if kind == 'transient':
        errs = [ch.pick(TRANSIENT) for _ in range(ch.rint(1, 6))]
    busy = kind in ('real', 'late_real') and ch.chance(30)
    loop_goes_on = ch.chance(30)
    ctx.case = '%s(timeout=%s) %s up=%.2f down=%s busy=%s' % (
        helper, T, kind, t_up, t_down if goes_down else '-', busy)
    rig = srv.Rig(ctx, {'echo': srv.echo})
    # the network must be fast in comparison with the timeout
    rig.net.latency = min(rig.net.latency, 0.001)
    rig.net.jitter = min(rig.net.jitter, 0.01)
    if helper == 'probe':
        rig.net.split = 1       # the probe is not framed: one segment is one request
    w = rig.w
    bound = 5 * max(T, float(S.SERVER_REPLY_TIMEOUT)) + 2.0
    box = {}

    def orch(rig):
        peer = None
        if kind in ('real', 'transient'):
            rig.start()
        elif kind == 'late_real':
            ctx.fault('late_start')
        elif kind == 'late':
            ctx.fault('late_start')
            peer = Peer(rig, ctx, 'immortal')
        elif kind == 'blackhole':
            ctx.fault('syn_loss')
            rig.net.blackhole = (0.0, ch.pick((1e9, T * 0.4, T * 2.5)))
            if rig.net.blackhole[1] < 1e8:
                rig.start()
        elif kind == 'unreachable':
            errno = ch.pick((101, 113, 99, 24))
            ctx.fault('unreachable')
            rig.net.refuse = Unreachable(errno)
        elif kind != 'none':
            peer = Peer(rig, ctx, kind)
            peer.delay = T * ch.pick((0.1, 0.5, 0.9, 4.0))
            peer.up()
        if kind == 'transient':
            rig.net.refuse = list(errs)
            for e in errs:
                ctx.fault('connect_error', type(e).__name__)
        if busy and kind == 'real':
            rig.client('busy')
        t0 = w.now
        if kind == 'late':
            w.at(t_up, peer.up)
        if kind == 'late_real':
            def starter():
                w.sleep(t_up)
                rig.start()
            w.spawn(starter, 'starter')
        if goes_down and kind not in ('none', 'blackhole', 'unreachable'):
            def stopper():
                w.sleep(t_down)
                ctx.fault('server_goes_down')
                if peer is not None:
                    peer.down()
                elif rig.srv_actor is not None and not rig.down:
                    rig.net.refuse = []
                    try:
                        s = rig.client('s')
                        s.sock.split = 1
                        s.send(srv.stop_request())
                    except OSError:
                        pass
            w.spawn(stopper, 'stopper')

        async def call():
            try:
                if helper == 'connect':
                    r, wr = await S.asyncio_connect(HOST, PORT, T)
                    box['result'] = 'connected'
                    box['sock'] = wr
                    return
                if helper == 'probe':
                    box['result'] = await S.probe_tcp_server(HOST, PORT, T)
                elif helper == 'stopped':
                    box['result'] = await S.has_server_stopped(HOST, PORT, T)
            except Exception as e:
                box['exc'] = e
            box['t'] = w.now - t0
            box['listening'] = PORT in rig.net.listeners
            if loop_goes_on:
                # the calling program goes on; helpers must not occupy the server
                await asyncio.sleep(60.0)

        def body():
            try:
                if helper == 'stop':
                    box['result'] = S.stop_tcp_server(HOST, PORT, T)
                    box['listening'] = PORT in rig.net.listeners
                else:
                    asyncio.run(call())
            except Exception as e:
                box['exc'] = e
        a = w.spawn(body, 'helper')
        done = w.block(lambda: 'result' in box or 'exc' in box or a.state == kernel.DONE, bound)
        res, exc = box.get('result'), box.get('exc')
        what = '%r' % (exc,) if exc is not None else '%r' % (res,)
        if not done:
            ctx.violate('timeout', '%s(timeout=%s) has not returned within %.1f s' % (helper, T, bound))
            return
        el = w.now - t0
        listening = PORT in rig.net.listeners
        # -- verdicts
        if helper == 'connect':
            reachable = kind not in ('none', 'blackhole', 'unreachable') and \
                (kind not in ('late', 'late_real') or t_up <= T * 0.975 and T > 0)
            if kind == 'blackhole':
                if exc is not None:
                    ctx.check(isinstance(exc, OSError), 'exception', 'connect raised ' + what)
            elif reachable:
                if kind == 'transient' and T == 0:
                    pass
                else:
                    ctx.check(res == 'connected', 'verdict', 'could not connect to a server that '
                              'is up after %.2f of %.2f s: %s' % (t_up, T, what))
            elif res == 'connected':
                ctx.check(kind not in ('none', 'unreachable'), 'verdict', 'connected to nobody')
            else:
                ctx.check(isinstance(exc, OSError), 'exception', 'connect raised ' + what)
        elif helper == 'probe':
            ctx.check(exc is None and isinstance(res, str), 'exception', 'probe raised ' + what)
            if exc is None:
                if kind == 'real' and T > 0:
                    ctx.check('SimServer' in res, 'verdict', 'probe of a running server: ' + what)
                elif kind in ('none', 'silent', 'resetter', 'closer', 'unreachable'):
                    ctx.check(res == '', 'verdict', 'probe returned %r' % res)
                elif kind == 'slow' and T > 0:
                    ctx.check(res == ('Slow Server' if peer.delay < T else '')
                              or 0.8 * T < peer.delay < T + 0.5, 'verdict',
                              'answer after %.2f of %.2f s: %r' % (peer.delay, T, res))
            if kind == 'real' and not goes_down:
                w.sleep(10.0)
                free = rig.server.connection is None
                ctx.check(free or busy, 'occupied', 'the server is occupied by the probe')
        elif helper == 'stopped':
            ctx.check(exc is None and isinstance(res, bool), 'exception',
                      'has_server_stopped raised ' + what)
            if exc is None:
                if res:
                    # with a timeout of zero or a late start: nobody there at that moment
                    ctx.check(not box['listening'] or kind in ('late', 'late_real'), 'verdict',
                              'reports a stopped server, but it is still there')
                    ctx.check(kind != 'blackhole', 'verdict', 'reports a server as stopped '
                              'from which nothing has been heard')
                else:
                    ctx.check(kind != 'none', 'verdict', 'reports a running server, but there is none')
                    down_at = t_down + (8.0 if peer is None else 0.0)
                    ctx.check(not (goes_down and down_at <= 0.97 * T) or kind in (
                        'late', 'late_real', 'blackhole', 'stops_late', 'unreachable'), 'verdict',
                              'did not notice that the server stopped after %.2f of %.2f s'
                              % (t_down, T))
        elif helper == 'stop':
            if exc is not None:
                ctx.check(isinstance(exc, AssertionError) and 'Could not stop' in str(exc),
                          'exception', 'stop_tcp_server raised ' + what)
                if kind == 'stops_late':
                    ctx.check(peer.delay > 0.9 * T, 'verdict', 'stop reported as failed although '
                              'the server stopped after %.2f of %.2f s' % (peer.delay, T))
                ctx.check(kind not in ('none', 'real'), 'verdict', what)
            elif res is None:
                ctx.check(kind != 'none', 'verdict', 'reports to have stopped nobody')
                if T > 0:
                    ctx.check(not box['listening'], 'verdict',
                              'reports success, but the server is still running')
            else:
                ctx.check(isinstance(res, OSError), 'exception', what)
                ctx.check(kind not in ('real', 'stops_late', 'immortal', 'slow'), 'verdict',
                          'an orderly server could not be stopped: ' + what)

    rig.run(orch, start=False)


def detached(ctx):
    """detach_server(): the script runs in an actor of its own (stand-in for the other process)"""
    import subprocess
    import sys
    from DHParser import server as S
    ch = ctx.ch
    delay = ch.pick((0.0, 0.05, 0.5, 1.5, 2.5, 6.0, 50.0))
    old = ch.chance(35)
    crash = ch.chance(10)
    loop_stays = ch.chance(50)
    name = 'Detached%d' % ch.rint(1, 999)
    ctx.case = 'start-up takes %.2f s%s%s' % (delay, ', another server to be stopped' if old else '',
                                              ', script crashes' if crash else '')
    rig = srv.Rig(ctx, {'echo': srv.echo}, name='OldServer')
    rig.net.latency = min(rig.net.latency, 0.001)
    rig.net.jitter = min(rig.net.jitter, 0.01)
    rig.net.window = max(rig.net.window, 4096)
    w = rig.w
    procs = []

    class Popen:
        def __init__(self, args, **kwargs):
            assert len(procs) == 0, 'second process'
            assert args[1] == '-c', args
            self.exc = None

            def body():
                w.sleep(delay)
                path = list(sys.path)
                try:
                    if not crash:
                        exec(compile(args[2], '<detached>', 'exec'), {'__name__': '__main__'})
                except BaseException as e:
                    self.exc = e
                finally:
                    sys.path[:] = path
            self.actor = w.spawn(body, 'detached')
            procs.append(self)

    def orch(rig):
        if old:
            rig.start()
            rig.w.sleep(1.0)
        box = {}

        def body():
            saved = subprocess.Popen
            subprocess.Popen = Popen
            try:
                S.detach_server(HOST, PORT, 'import scenarios.srv',
                                '{"echo": scenarios.srv.echo}, cpu_bound=frozenset(), '
                                'blocking=frozenset(), server_name="%s"' % name)
                box['ok'] = True
            except Exception as e:
                box['exc'] = e
            finally:
                subprocess.Popen = saved
        t0 = w.now
        a = w.spawn(body, 'detach')
        if not w.block(lambda: a.state == kernel.DONE, 60.0):
            ctx.violate('timeout', 'detach_server() has not returned within 60 s')
            return
        if not ctx.check(len(procs) == 1, 'process', 'no process has been started: %r' % box.get('exc')):
            return
        proc = procs[0]
        ctx.ev('detached', sorted(box), round(w.now - t0, 3))
        if delay <= 2.5 and not crash and not old:
            ctx.check('ok' in box, 'verdict', 'detach_server() failed although the server is up '
                      'after %.2f s: %r; %r' % (delay, box.get('exc'), proc.exc))
        if delay > 10 and not old or crash and not old:
            ctx.check('ok' not in box, 'verdict', 'detach_server() returned without a server')
        if 'exc' in box:
            ctx.check(isinstance(box['exc'], OSError), 'exception', 'raised %r' % (box['exc'],))
        if old:         # another server on the same port might be taken for the new one
            w.sleep(delay + 20.0)
            if not crash:
                ctx.check(rig.down, 'replaced', 'the other server on the same port is still running')
        elif 'exc' in box:
            w.sleep(delay + 20.0)
        if crash:
            ctx.check(proc.actor.state == kernel.DONE, 'harness', 'script has not ended')
            return
        c = rig.client()
        c.sock.split = 1
        c.send(b'identify()')
        ok = c.wait(lambda: name.encode() in bytes(c.data), 30.0)
        ctx.check(ok, 'answer', lambda: 'the detached server does not answer: %r; script: %r; %s'
                  % (bytes(c.data)[:200], proc.exc, rig.handler_errors()))
        c.send(srv.frame(srv.rpc('echo', {'v': 'x'}, 7)))
        ok = c.wait_rpc_id(7, 30.0)
        ctx.check(ok, 'answer', lambda: 'the detached server does not answer a second request: %r'
                  % bytes(c.data)[:300])
        c.close()
        w.sleep(1.0)
        res = S.stop_tcp_server(HOST, PORT, 10.0)
        ctx.check(res is None, 'stop', 'stopping the detached server: %r' % (res,))
        w.block(lambda: proc.actor.state == kernel.DONE, 20.0)
        ctx.check(proc.actor.state == kernel.DONE and proc.exc is None, 'stop',
                  lambda: 'the process of the detached server %s: %r' % (
                      'has ended' if proc.actor.state == kernel.DONE else 'is still running', proc.exc))
        ctx.nontrivial = True

    rig.run(orch, start=False)


SCENARIOS = [('helpers', helpers, 15), ('detached', detached, 1)]
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('One run: one helper with one timeout against one kind of server behaviour (real server, '
        'late start, late stop, silent, resetting, closing, unreachable, transient errors).')
REAL = ['asyncio_connect, probe_tcp_server, has_server_stopped, stop_tcp_server, detach_server, Server',
        'asyncio streams, transports and tasks']
STUB = ['TCP sockets and selector', 'clock', 'misbehaving servers are scripted',
        'subprocess.Popen (the script of a detached server is executed by an actor)']
ASSUMPTIONS = ['the (unframed) identify-request of the probe arrives in one segment',
               '"a small factor of the timeout": five times the timeout (at least 3 s) plus 2 s']


def warmup():
    return srv.warmup()
