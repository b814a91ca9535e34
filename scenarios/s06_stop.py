"""S06 - a stop request always terminates the server in bounded time."""
from . import srv
from .srv import frame, rpc

FORMS = ('plain', 'framed', 'http', 'rpc')
BOUND = 60.0        # virtual seconds after the stop request has been sent (longest job: 8 s)


def stop(ctx):
    ch = ctx.ch
    strict = ch.chance(30)
    form = ch.pick(FORMS)
    by = ch.pick(('primary', 'further', 'further', 'both', 'two_further', 'successor'))
    work = [ch.pick(('slow', 'blocking', 'ask', 'big', 'process', 'work'))
            for _ in range(ch.rint(0, 4))]
    idle = [ch.pick(('idle', 'fragment', 'halfclosed', 'info_unread', 'gone'))
            for _ in range(ch.rint(0, 3))]
    primary_reads = ch.chance(70)
    late = [ch.pick((0.0, 0.001, 0.5, 2.0, 4.0, 9.0)) for _ in range(ch.rint(0, 2))]
    restarts = ch.pick((0, 1, 1, 2))
    same_object = ch.chance(60)
    ctx.case = 'strict=%s %s by %s; %s; idle %s; reads=%s late=%s' \
        % (strict, form, by, work, idle, primary_reads, late)

    async def slow(delay=0.5, **kw):
        import asyncio
        await asyncio.sleep(delay)
        return 'slow'

    def blocking(delay=0.5, **kw):
        srv.time.sleep(delay)
        return 'blocking'

    async def ask(**kw):
        conn = rig.server.connection
        await conn.server_request('question', {}, 900)
        return str(await conn.client_response(900))

    def big(**kw):
        return 'B' * 150000

    def echo(v='', **kw):
        return v

    table = {'slow': slow, 'blocking': blocking, 'ask': ask, 'big': big, 'work': echo,
             'process': srv.p_value}

    def send_stop(c, form):
        if form in ('plain', 'http'):
            c.sock.split = 1
        c.send(srv.stop_request(form))
        ctx.ev('stop request', c.name, form)

    def one_life(rig, life):
        primary = rig.client('P%d' % life)
        rig.w.sleep(2.5)
        if strict and ch.chance(60):
            primary.send(frame(rpc('initialize', {}, 'init')))
            primary.wait_rpc_id('init')
            primary.send(frame(rpc('initialized', {})))
        else:
            # is the server really up (again)?
            primary.send(frame(rpc('identify', {}, 'id')))
            rig.net.settle()
            if not any(m.get('id') == 'id' for m in primary.rpcs()):
                ctx.violate('restart', 'server does not answer after start no. %i; %s'
                            % (life + 1, rig.handler_errors()))
                return False
        if not primary_reads:
            primary.reading = False
        for k, kind in enumerate(work):
            primary.send(frame(rpc(kind, {'delay': ch.pick((0.1, 2.0, 8.0))}
                                   if kind in ('slow', 'blocking') else {}, k + 1)))
            if ch.chance(40):
                rig.w.sleep(ch.pick((0.001, 0.5, 2.0)))
        others = []
        for k, kind in enumerate(idle):
            b = rig.client('I%d.%d' % (life, k))
            others.append(b)
            if kind == 'fragment':
                b.send(b'Content-Length: 100\r\n\r\n{"json')
            elif kind == 'halfclosed':
                b.shut_wr()
            elif kind == 'info_unread':
                b.reading = False
                b.send(frame(rpc('info', {}, 1)))
            elif kind == 'gone':
                b.close()
        if by == 'successor':
            primary.close() if ch.chance(50) else primary.reset()
            if ch.chance(50):
                rig.w.sleep(ch.pick((0.5, 4.0, 12.0)))
        rig.w.sleep(ch.pick((0.0, 0.001, 0.5, 3.0)))
        stoppers = []
        if by in ('primary', 'both'):
            send_stop(primary, form)
            stoppers.append((primary, form))
        if by != 'primary':
            for k in range(2 if by == 'two_further' else 1):
                try:
                    s = rig.client('X%d.%d' % (life, k), retries=0)
                except ConnectionRefusedError:
                    continue
                f = form if k == 0 and by != 'both' else ch.pick(FORMS)
                send_stop(s, f)
                stoppers.append((s, f))
        t0 = rig.w.now
        for d in sorted(late):
            # clients that come while the server is terminating
            rig.w.sleep(max(0.0, t0 + d - rig.w.now))
            try:
                x = rig.client('L%d' % len(rig.clients), retries=0)
                ctx.fault('late_client')
                if ch.chance(60):
                    x.send(frame(rpc('work', {'v': 1}, 1)))
            except (ConnectionRefusedError, OSError):
                pass
        ok = rig.w.block(lambda: rig.down, BOUND + t0 - rig.w.now)
        if not ok:
            ctx.violate('not_stopped', 'server still running %.0f s after the stop request (%s by '
                        '%s); handler errors: %s' % (rig.w.now - t0, form, by,
                                                     rig.handler_errors()))
            return False
        ctx.check(rig.srv_exc is None, 'exception', lambda: 'run_tcp_server() has raised %r'
                  % (rig.srv_exc,))
        ctx.check(srv.PORT not in rig.net.listeners or rig.net.listeners[srv.PORT].closed,
                  'listening', 'port is still open after the server has terminated')
        from DHParser.server import SERVER_OFFLINE
        ctx.check(rig.server.stage.value == SERVER_OFFLINE, 'stage',
                  'server is down, but its stage is %s' % rig.server.stage.value)
        rig.net.settle()
        answered = 0
        for s, f in stoppers:
            if not s.reading:
                s.reading = True
                rig.net.settle()
            if b'stopped' in s.data:
                answered += 1
            ctx.check(s.closed_by_server, 'left_open', 'connection of %s left open' % s.name)
        clean = not (by == 'primary' and (not primary_reads or work)) and by != 'both'
        if clean:
            ctx.check(answered >= 1, 'unanswered', lambda: 'stop request (%s by %s) not answered: '
                      '%s; %s' % (form, by, [bytes(s.data)[:100] for s, f in stoppers],
                                  rig.handler_errors()))
        for c in rig.clients:
            c.reading = True
        rig.net.settle()
        for c in rig.clients:
            ctx.check(c.closed_by_server or c.sock.closed, 'left_open',
                      'connection of %s left open' % c.name)
        return True

    def orch(rig):
        for life in range(restarts + 1):
            if life:
                for c in rig.clients:
                    if not c.sock.closed:
                        c.close()
                rig.clients.clear()
                if not same_object:
                    rig.server = None
                rig.start()
            if not one_life(rig, life):
                return

    rig = srv.Rig(ctx, table, cpu={'process'}, blocking={'blocking'}, strict=strict)
    rig.net.window = max(rig.net.window, 8192)
    rig.run(orch)


SCENARIOS = [('stop', stop, 1)]
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('One run: one server with up to four requests in flight and up to three further idle '
        'connections, one or two stop requests, up to two restarts.')
REAL = ['DHParser.server.Server and Connection', 'asyncio streams, transports and tasks',
        'ThreadPoolExecutor']
STUB = ['TCP sockets and selector', 'clock', 'thread scheduler', 'process pool']
ASSUMPTIONS = ['the longest procedure takes 8 s; a running procedure is not aborted']


def warmup():
    return srv.warmup()
