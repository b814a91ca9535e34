"""S12 - a command of a generated server script that succeeds has got the complete answer of its own kind of server."""
import contextlib
import io
import json
import os
import re
import sys
import types

from dst import kernel, net, fs, procpool
from . import srv
from .srv import HOST, PORT

SERVERS = None
NAME = 'Simu'
DEFAULT = 8890
OTHER_PORT = 9123
SIZES = (('ok', 1), ('text äöü € \U0001F600\n', 20), ('', 1), ('long äöü line of text\n', 4000),
         ('<p>very long</p> ß\n', 20000))


def answers():
    for i, (t, n) in enumerate(SIZES):
        yield os.path.join('/nowhere', 'doc%d.dsl' % i), 'result %d: ' % i + t * n + ' END'


ANSWERS = dict(answers())
DOCS = sorted(ANSWERS)


FAILING = '/nowhere/failing.dsl'        # a document for which the compiler raises an exception


def compile_src(source, *args, **kwargs):
    if source == FAILING:
        raise ValueError('cannot compile ' + source)
    return ANSWERS.get(source, 'unknown document: ' + source)


BATCH = {'a.dsl': 'first', 'b c.dsl': 'second document', 'bad.dsl': 'not good', 'ö.dsl': ''}


def work(args: 'Tuple[str, str, CancelQuery]') -> str:
    """processes one file in a worker process"""
    source, out, _ = args
    with open(source, 'r', encoding='utf-8') as f:
        text = f.read()
    stem = os.path.join(out, os.path.splitext(os.path.basename(source))[0])
    with open(stem + '.res', 'w', encoding='utf-8') as f:
        f.write(text.upper())
    if 'bad' in os.path.basename(source):
        with open(stem + '_ERRORS.txt', 'w', encoding='utf-8') as f:
            f.write('errors')
        return stem + '_ERRORS.txt'
    return ''


def batch_process(file_names, out_dir, *, submit_func=None, log_func=None, cancel_func=None):
    import DHParser.dsl as dsl
    return dsl.batch_process(file_names, out_dir, work, submit_func=submit_func, log_func=log_func)


class Foreign:
    """another program on a port of its own"""

    def __init__(self, rig, ctx, port, behaviour):
        self.rig, self.port, self.behaviour = rig, port, behaviour
        self.received = []
        self.listener = net.SimListener(rig.net, (HOST, port))
        self.listener.listen()
        rig.w.spawn(self.accepting, 'foreign%d' % port)

    def accepting(self):
        w = self.rig.w
        while not self.listener.closed:
            if not w.block(lambda: self.listener.queue or self.listener.closed, 100000.0):
                return
            if self.listener.closed:
                return
            s = self.listener.queue.pop(0)
            if self.behaviour == 'reset':
                s.reset()
            elif self.behaviour == 'close':
                s.close()
            else:
                w.spawn(lambda s=s: self.answering(s), 'foreign-conn')

    def answering(self, s):
        w = self.rig.w
        while True:
            w.block(lambda: s.readable() or s.closed, 1000.0)
            if s.closed or not s.readable():
                return
            try:
                data = s.recv(10000)
            except OSError:
                return
            if not data:
                s.close()
                return
            self.received.append(bytes(data))
            if self.behaviour == 'garbage':
                try:
                    s.send(b'220 mail.example.org ESMTP\r\n\r\n')
                except OSError:
                    return


class Process:
    """one execution of the script"""

    def __init__(self, site, argv, delay=0.0, cwd=''):
        self.site, self.argv, self.out = site, argv, []
        self.code, self.exc = None, None
        self.port = None
        self.is_server = '--startserver' in argv
        self.t0 = site.w.now

        self.cwd = cwd = cwd or os.getcwd()

        def body():
            site.chdir(cwd)
            if delay:
                site.w.sleep(delay)
            ns = {'__name__': '__main__', '__file__': site.script, 'print': self.echo}
            saved = sys.argv
            path = list(sys.path)
            sys.argv = [site.script] + argv
            err = io.StringIO()
            try:
                with contextlib.redirect_stderr(err):
                    exec(site.code, ns)
                self.code = 0
            except SystemExit as e:
                self.code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Exception as e:
                self.exc, self.code = e, 1
            finally:
                sys.argv = saved
                sys.path[:] = path
                self.t1 = site.w.now
        self.actor = site.w.spawn(body, 'server-process' if self.is_server else 'command')

    def echo(self, *args, **kwargs):
        self.out.append(' '.join(str(a) for a in args))

    @property
    def done(self):
        return self.actor.state == kernel.DONE


class Site:
    def __init__(self, ctx, rig, disk):
        import DHParser.dsl as dsl
        self.ctx, self.rig, self.w, self.disk = ctx, rig, rig.w, disk
        template = dsl.read_template('DSLServer.pyi')
        disk.write('project/.keep', b'')
        self.script = disk.path('project', NAME + 'Server.py')
        self.cfg = disk.path('tmp', NAME + 'Server.py.cfg')
        source = template.replace('DSL', NAME)
        # the address is kept in the directory for temporary files
        source = re.sub('''(['"])/tmp/?\\1''', lambda m: repr(disk.path('tmp')), source)
        self.code = compile(source, '<server script>', 'exec')
        self.servers = []
        self.broken = False          # the grammar has errors
        self.delays = []
        self.places = [disk.path('project'), disk.path('else where/deep')]
        if not hasattr(os, 'unshare'):
            self.places = ['']

    def popen(self, args, **kwargs):
        args = [a for a in args if a != sys.executable and a != self.script]
        ch = self.ctx.ch
        delay = ch.pick(self.delays)
        if delay > 5:
            self.ctx.fault('slow_start')
        p = Process(self, list(args), delay)
        p.delay = delay
        self.servers.append(p)
        return p

    def running(self):
        return [p for p in self.servers if not p.done]

    def command(self, *argv, cwd=''):
        return Process(self, list(argv), cwd=cwd or self.ctx.ch.pick(self.places))

    def chdir(self, cwd):
        """gives the thread of this process a working directory of its own"""
        if self.places != ['']:
            os.unshare(os.CLONE_FS)
            os.chdir(cwd)


class Risk:
    """a condition that is evaluated when it is needed"""

    def __init__(self, cond):
        self.cond = cond

    def __bool__(self):
        return bool(self.cond())


def check_answer(ctx, msg, p, want, may_fail):
    """a command has to end in time, without traceback, and - if successful - with the right answer"""
    tail = [s[:200] for s in p.out[-3:]]
    if p.exc is not None:
        ctx.violate('exception', '%s ended with %s: %s; output: %s' % (msg, type(p.exc).__name__, p.exc, tail))
        return False
    if p.code == 0:
        if want is not None:
            got = p.out[-1] if p.out else ''
            ctx.check(want(got), 'answer', lambda: '%s: wrong answer (%d characters): %r ... %r; output: %s' % (
                msg, len(got), got[:100], got[-50:], tail))
        return True
    ctx.check(may_fail, 'failed', lambda: '%s failed: exit code %s, output: %s; servers: %s' % (
        msg, p.code, tail, [(q.argv, q.code, q.exc, q.out[-2:]) for q in p.site.servers]))
    return False


def commands(ctx):
    ch = ctx.ch
    foreign_kind = ch.pick(('', '', '', 'dhparser', 'garbage', 'reset', 'close', 'silent'))
    foreign_port = ch.pick((DEFAULT, DEFAULT, OTHER_PORT)) if foreign_kind else 0
    cfg = ch.pick(('', '', '', 'default', 'other', 'garbage', 'empty'))
    slow = ch.chance(15)
    broken = ch.chance(7)
    rig = srv.Rig(ctx, {'echo': srv.echo}, name='OtherServer')
    rig.net.window = max(rig.net.window, 16384)
    rig.net.latency = min(rig.net.latency, 0.005)
    rig.net.jitter = min(rig.net.jitter, 0.01)
    rig.net.min_split = 80          # the probe sends an unframed request and gets an unframed answer
    explicit = ch.pick(('', '', '', 'port', 'both'))
    # an address on the command line is taken for granted
    options = {'': [], 'port': ['--port', str(OTHER_PORT)],
               'both': ['--host', HOST, '--port', str(OTHER_PORT)]}[explicit]
    plan = []
    for _ in range(ch.rint(1, 2 if broken else 6)):      # (waiting in vain takes many steps)
        kind = ch.pick(('compile', 'compile', 'compile', 'call', 'daemon', 'status', 'stop', 'pair', 'batch'))
        plan.append((kind, ch.pick(DOCS + [FAILING]), ch.pick(DOCS), ch.pick((0.0, 0.0, 1.0, 30.0))))
    # jobs at which their worker process dies
    deaths = {ch.rint(1, 9) for _ in range(ch.rint(1, 3))} if ch.chance(20) else set()
    idle_deaths = ch.chance(30) if deaths else False
    jobs = [0]

    def dies(pool, fn):
        jobs[0] += 1
        return jobs[0] in deaths
    slow_work = ch.chance(10)
    if slow_work:               # longer than any other command would wait
        plan = [p if p[0] in ('daemon', 'status', 'stop') else ('batch',) + p[1:] for p in plan]
    if explicit:
        foreign_port = foreign_port and DEFAULT
        cfg = ''
    ctx.case = 'foreign %s on %s, address file %s, %s%s' % (
        foreign_kind or '-', foreign_port, cfg or '-', [p[0] for p in plan], ', slow start' if slow else '') + ' ' + ' '.join(options)
    disk = fs.FS(ctx)
    with disk:
        site = Site(ctx, rig, disk)
        disk.write('tmp/.keep', b'')
        disk.write('else where/deep/.keep', b'')
        for name, text in BATCH.items():
            disk.write('docs/' + name, text)
        disk.write('docs/.hidden.dsl', 'hidden')
        disk.write('docs/sub/x.dsl', 'below')
        if cfg:
            ctx.fault('address_file', cfg)
            disk.write('tmp/%sServer.py.cfg' % NAME, {
                'default': '%s %i' % (HOST, DEFAULT), 'other': '%s %i' % (HOST, OTHER_PORT),
                'garbage': 'no address', 'empty': ''}[cfg].encode())
        if broken:
            site.broken = True
            ctx.fault('broken_grammar')
            disk.write('project/%s.ebnf' % NAME, b'doc = undefined')
            disk.write('project/%s_ebnf_MESSAGES.txt' % NAME, b'Missing definition of undefined')
        site.delays = (0.0, 0.3, 1.0, 3.0) if not slow else (0.5, 12.0, 40.0)
        # an address file that leads to another program cannot be expected to work at once
        misled = {'default': DEFAULT, 'other': OTHER_PORT}.get(cfg) == foreign_port and foreign_port

        def orch(rig):
            rig.w.pool_faults = dies
            if foreign_kind:
                ctx.fault('foreign_server', foreign_kind)
                if foreign_kind == 'dhparser':
                    rig.make_server()

                    def body():
                        rig.server.run_tcp_server(HOST, foreign_port)
                    rig.srv_actor = rig.w.spawn(body, 'other server')
                    rig.w.sleep(0.5)
                else:
                    Foreign(rig, ctx, foreign_port, foreign_kind)
            for i, (kind, a, b, pause) in enumerate(plan):
                up, started = bool(site.running()), len(site.servers)
                msg = 'command %d %s' % (i, kind)
                # what may go wrong
                # (a second death may strike the second attempt; a pool that has been left broken by
                # former deaths, takes one attempt)
                left = any(pool.broken and not pool.shut for pool in rig.w.__dict__.get('pools', []))
                lost = ctx.faults['worker_death']
                risky = Risk(lambda: broken or slow or bool(misled) or foreign_kind == 'silent'
                             or ctx.faults['worker_death'] - lost + left >= 2)
                opts = options + (['--logging', 'OFF'] if ch.chance(10) else [])
                if kind in ('compile', 'pair', 'call'):
                    args = ('identify()',) if kind == 'call' else (a,)
                    ps = [site.command(*args, *opts)]
                    if kind == 'pair':
                        if ch.chance(50):
                            rig.w.sleep(ch.pick((0.01, 0.3, 1.0)))
                        ps.append(site.command(b, *options))
                    wait(ctx, site, ps, msg)
                    for p, doc in zip(ps, (a, b)):
                        if p.argv[0] == FAILING:
                            # (the message ends with the traceback of the server)
                            ctx.check(p.exc is None and p.code != 0, 'failure', lambda: '%s: the failure of the '
                                      'compiler is not reported: %s' % (msg, p.out[-1:]))
                            if 'Server Error' in ''.join(p.out[-1:]) and not risky:
                                ctx.check(any(FAILING in s for s in p.out), 'failure', lambda: '%s: %s' % (msg, p.out))
                            continue
                        want = (lambda s: (NAME + 'Server') in s) if kind == 'call' \
                            else (lambda s, doc=doc: s == ANSWERS[doc])
                        check_answer(ctx, '%s (%s)' % (msg, ' '.join(p.argv)), p, want, kind == 'pair' or risky)
                elif kind == 'batch':
                    batch(ctx, site, i, options, msg, risky)
                elif kind == 'daemon':
                    p = site.command('--startdaemon', *options)
                    wait(ctx, site, [p], msg)
                    if check_answer(ctx, msg, p, None, risky):
                        ctx.check(len(site.running()) >= 1, 'daemon', lambda: '%s succeeded, but no server is running'
                                  % msg)
                        if up and not risky:
                            ctx.check(len(site.servers) == started, 'daemon', lambda: '%s has started a second server: '
                                      '%s' % (msg, [q.out[-2:] for q in site.servers]))
                elif kind == 'status':
                    p = site.command('--status', *options)
                    wait(ctx, site, [p], msg)
                    ok = check_answer(ctx, msg, p, None, not up or risky)
                    if ok and not up:
                        ctx.check(not any(NAME in s for s in p.out), 'status', lambda: '%s reports a server that is '
                                  'not running: %s' % (msg, p.out))
                    elif ok and not risky:
                        ctx.check(any((NAME + 'Server') in s for s in p.out), 'status', lambda: '%s: %s' % (msg, p.out))
                elif kind == 'stop':
                    p = site.command('--stopserver', *options)
                    wait(ctx, site, [p], msg)
                    ok = check_answer(ctx, msg, p, None, not up or started > 1 or risky)
                    if ok and up and len(site.servers) == 1:
                        down = rig.w.block(lambda: not site.running(), 30.0)
                        ctx.check(down, 'stop', lambda: '%s succeeded, but the server is still running' % msg)
                        ctx.check(not os.path.exists(site.cfg), 'stop', lambda: '%s: the address of the server that '
                                  'has been stopped, has not been removed' % msg)
                    rig.w.sleep(10.0)
                if foreign_kind == 'dhparser':
                    ctx.check(not rig.down, 'foreign', lambda: '%s has stopped the server of another program' % msg)
                    if rig.down:
                        return
                if idle_deaths and ch.chance(30):
                    for pool in rig.w.__dict__.get('pools', []):
                        if not pool.broken and not pool.shut:
                            ctx.fault('idle_death')
                            pool._break(rig.w)
                ctx.ev('step', kind, a, round(rig.w.now, 2), len(site.running()))
                rig.w.sleep(pause)
            for p in site.servers:
                if broken and p.done:
                    ctx.check(any('Missing definition' in s for s in p.out) and p.code != 0, 'grammar', lambda: 'errors '
                              'of the grammar are not reported: exit code %s, output %s' % (p.code, p.out))
                if p.exc is not None:
                    ctx.violate('exception', 'server process %s ended with %r; output: %s' % (p.argv, p.exc, p.out[-3:]))
            ctx.nontrivial = True

        if slow_work:
            procpool.SimProcessPool.max_delay = (0.0, 1.0, 30.0, 60.0)
            ctx.fault('slow_workers')
        with patched(site), contextlib.redirect_stdout(io.StringIO()):
            rig.run(orch, start=False)


def batch(ctx, site, i, options, msg, risky):
    """several documents or all documents of a directory"""
    ch, disk = ctx.ch, site.disk
    cwd = ch.pick(site.places)
    rel = lambda p: os.path.relpath(disk.path(p), cwd) if cwd and ch.chance(70) else disk.path(p)
    if ch.chance(40):
        names = sorted(BATCH)
        files = [rel('docs')]
    else:
        names = ch.shuffle(sorted(BATCH))[:ch.rint(1, 3)]
        files = [rel('docs/' + n) for n in names]
    out = ch.pick(('out%d', 'res %d', '')) if cwd else 'out%d'
    if len(names) == 1 and not out:
        out = 'out'
    place = os.path.join(cwd or disk.root, out % i if '%' in out else out or 'out')
    opts = ['--out', ch.pick((place, os.path.basename(place))) if cwd else place] if out else []
    fresh = not os.path.exists(place)
    p = site.command(*(files + opts + options), cwd=cwd)
    wait(ctx, site, [p], msg)
    errors = sorted(os.path.join(place, os.path.splitext(n)[0] + '_ERRORS.txt') for n in names if 'bad' in n)

    def listed(text):
        try:
            return sorted(json.loads(text)) == errors
        except (ValueError, TypeError):
            return False
    if check_answer(ctx, '%s (%s)' % (msg, ' '.join(repr(a) for a in p.argv)), p, listed, risky):
        got = {f: disk.text(os.path.relpath(os.path.join(place, f), disk.root)) for f in os.listdir(place)} \
            if os.path.isdir(place) else {}
        want = {os.path.splitext(n)[0] + '.res': BATCH[n].upper() for n in names}
        want.update((os.path.basename(e), 'errors') for e in errors)
        ctx.check(got == want or not fresh and all(got.get(k) == v for k, v in want.items()), 'files',
                  lambda: '%s: output files %s instead of %s' % (msg, got, want))


def wait(ctx, site, ps, msg):
    if not site.w.block(lambda: all(p.done for p in ps), 400.0):
        ctx.violate('timeout', '%s has not ended within 400 s; output: %s' % (msg, [p.out[-2:] for p in ps]), stop=True)


@contextlib.contextmanager
def patched(site):
    import multiprocessing
    import subprocess
    import DHParser.dsl as dsl
    module = types.ModuleType(NAME + 'Parser')
    module.compile_src = compile_src
    module.batch_process = batch_process
    saved = subprocess.Popen, multiprocessing.set_start_method, dsl.recompile_grammar
    sys.modules[NAME + 'Parser'] = module
    subprocess.Popen = site.popen
    multiprocessing.set_start_method = lambda *args, **kwargs: None
    dsl.recompile_grammar = lambda *args, **kwargs: not site.broken
    try:
        yield
    finally:
        subprocess.Popen, multiprocessing.set_start_method, dsl.recompile_grammar = saved
        del sys.modules[NAME + 'Parser']


SCENARIOS = [('commands', commands, 1)]
RUNS = {'quick': 1500, 'thorough': 30000}
RULE = ('One run: up to 6 commands of a generated server script (some of them at the same time), one kind of other program on a '
        'port, one state of the address file, start-up times, one network profile.')
REAL = ['DHParser/templates/DSLServer.pyi (the whole script: commands and server process)', 'DHParser.server.Server',
        'asyncio streams, transports and tasks']
STUB = ['TCP sockets and selector', 'clock', 'processes (actors that execute the script in a namespace of their own)',
        'process pool (workers die)', 'compilation of the documents', 'recompile_grammar (D02)']
ASSUMPTIONS = ['a server that needs longer than 15 s to start may be reported as not reachable',
               'commands at the same time may fail, but never with a wrong answer',
               'the directory for temporary files is redirected into the simulated disk']


def warmup():
    from DHParser.configuration import get_config_value
    import DHParser.dsl
    import argparse, multiprocessing, subprocess
    return srv.warmup()
