"""D07 - Log files contain every record exactly once."""
import contextlib
import io
import os

from dst import fs, kernel
from scenarios import corpus as K
from scenarios import srv
from scenarios.c03_singletons import reset as reset_threads
from scenarios.parsing import Injector, mutate, stable_hashes

RULE = ('every record that append_log() accepted is in the log file once, in one piece, in the order of its thread; '
        'records whose writing failed are there at most once or as a prefix; starting, suspending, resuming and '
        'switching logs affects the calling thread only and is undone on every way out; compiling with logs yields the same '
        'result as without, or raises OSError if (and only if) the disk fails; logged trees and histories are '
        'complete; clear_logs() removes logs and nothing else; a server answers all requests even if its log cannot be written')
REAL = ['DHParser/log.py', 'DHParser/configuration.py', 'DHParser/compile.py: compile_source', 'DHParser/trace.py',
        'DHParser/dsl.py: grammar_provider, create_parser', 'DHParser/server.py']
STUB = ['disk (scratch directory; errors, full disk, denied access, short and torn writes, crashes with loss of '
        'buffers, interrupts)', 'thread scheduling', 'clock', 'network']
ASSUMPTIONS = ['create_log() and clear_logs() are meant to destroy records of the log files they name']
PROBE_HASHSEED = '0'
RUNS = {'quick': 6000, 'thorough': 60000}


OS_ERRORS = ('OSError', 'PermissionError', 'FileNotFoundError', 'IsADirectoryError', 'FileExistsError')


def warmup():
    stable_hashes()
    srv.warmup()
    K.load()
    import DHParser.log
    import DHParser.dsl
    import DHParser.trace
    import html             # noqa
    from DHParser.configuration import get_config_value
    get_config_value('log_dir')
    DHParser.dsl.create_parser('doc = /x/')
    for name in K.GRAMMARS:
        K.outcome(lambda: compiled(name, K.documents(name)[0]))


class Records:
    """what has been written to a log and what became of it"""

    def __init__(self):
        self.all = []           # (thread, number, text, state)

    def new(self, ch, t):
        n = len(self.all)
        size = ch.weighted([(5, 10), (2, 300), (1, 9000), (1, 30000)])
        body = ch.pick(('x', 'ä', '\n', '- ', '\u20ac')) * (size // 2)
        parts = ['<%s.%d:' % (t, n), body, ':%s.%d>\n' % (t, n)]
        rec = [t, n, ''.join(parts), 'begun']
        self.all.append(rec)
        if ch.chance(30):
            parts = [''.join(parts)]
        elif ch.chance(30):
            parts = [p for q in parts for p in (q[:len(q) // 2], q[len(q) // 2:])]
        return rec, parts

    def check(self, ctx, text, what):
        """text: content of the log or None"""
        text = (text or '')
        text = text.replace('\r\n', '\n')
        where = {}
        for rec in self.all:
            t, n, r, state = rec
            k = text.count(r)
            if state == 'ok':
                ctx.check(k == 1, 'lost' if k == 0 else 'repeated', lambda: '%s: record %s.%d is in the log %d times: %s' % (
                    what, t, n, k, K.show(text, 600)))
            else:
                ctx.check(k <= 1, 'repeated', lambda: '%s: failed record %s.%d is in the log %d times' % (what, t, n, k))
            if k == 1:
                where[n] = text.index(r)
        last = {}
        for t, n, r, state in self.all:
            if n in where:
                ctx.check(where[n] > last.get(t, -1), 'order', lambda: '%s: record %s.%d is out of order' % (what, t, n))
                last[t] = where[n]
        for t, n, r, state in self.all:
            text = text.replace(r, '')
        for t, n, r, state in self.all:
            if state != 'ok' and n not in where:
                head = '<%s.%d:' % (t, n)
                i = text.find(head)
                if i >= 0:
                    k = 0
                    while k < len(r) and text[i + k:i + k + 1] == r[k]:
                        k += 1
                    text = text[:i] + text[i + k:]
        if all(r[3] == 'ok' for r in self.all):
            rest = [line for line in text.split('\n') if line and not line.startswith('LOG-FILE: ')]
            ctx.check(not rest, 'damaged', lambda: '%s: something else in the log: %s' % (what, K.show(rest, 400)))


def write(ctx, records, name, t, ch):
    """appends one record; -> exception or None"""
    from DHParser.log import append_log
    rec, parts = records.new(ch, t)
    try:
        append_log(name, *parts)
        rec[3] = 'ok'
    except OSError as e:
        rec[3] = 'failed'
        return e
    except BaseException:
        rec[3] = 'failed'
        raise


@contextlib.contextmanager
def place(disk):
    cwd = os.getcwd()
    os.chdir(disk.root)
    try:
        yield
    finally:
        os.chdir(cwd)


def append(ctx):
    """threads append records to the same logs"""
    from DHParser.log import start_logging, create_log
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk, place(disk), contextlib.redirect_stdout(io.StringIO()):
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        how = ch.pick(('logdir', 'logdir', 'path', 'deep'))
        if how == 'logdir':
            start_logging(ch.pick(('LOGS', disk.path('LOGS'))))
            names = ['one.log', 'two.log'][:ch.rint(1, 2)]
            files = ['LOGS/' + n for n in names]
        elif how == 'path':
            names = files = ['./one.log', 'sub/two.log'][:ch.rint(1, 2)]
            files = ['one.log', 'sub/two.log']
        else:
            names = [disk.path('a', 'b', 'c', 'one.log')]
            files = ['a/b/c/one.log']
        logs = {n: Records() for n in names}
        if ch.chance(20):
            create_log(names[0])
        if ch.chance(30):
            disk.arm(ch.pick(('error', 'torn', 'denied', 'full')), ch.rint(0, 12),
                     paths=lambda p: True, ops=fs.WRITING)
        failures = []

        def act(t):
            for _ in range(ch.rint(1, 5)):
                n = ch.pick(names)
                e = write(ctx, logs[n], n, t, ch)
                if e is not None:
                    failures.append(str(e))
                    ctx.check(ctx.faults, 'raised', lambda: 'append_log raised %s: %s' % (type(e).__name__, e))

        def main():
            actors = [w.spawn(lambda i=i: act('T%d' % i), 'T%d' % i) for i in range(ch.rint(2, 4))]
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0)
            for a in actors:
                ctx.check(a.state == kernel.DONE and a.exc is None, 'failed', lambda: '%s %r' % (a.state, a.exc))
        w.run(main)
        disk.disarm()
        for n in names:
            e = write(ctx, logs[n], n, 'end', ch)
            ctx.check(e is None, 'raised', lambda: 'afterwards: append_log raised %s' % e)
        ctx.nontrivial = True
        ctx.case = '%s %s failures: %s' % (how, {n: [(r[0], r[1], len(r[2]), r[3]) for r in logs[n].all] for n in names}, failures)
        for n, f in zip(names, files):
            logs[n].check(ctx, disk.text(f), n)
        left = sorted(set(disk.files()) - set(files) - {'LOGS/info.txt'})
        ctx.check(not left or ctx.faults, 'stray', lambda: 'files left behind: %s' % left)


def history(ctx):
    """appends with crashes, interrupts and disk errors in between"""
    from DHParser.log import start_logging
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, place(disk), contextlib.redirect_stdout(io.StringIO()):
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        start_logging('LOGS')
        log = Records()
        ctx.case = []
        for i in range(ch.rint(2, 8)):
            kind = ch.weighted([(4, ''), (2, 'crash'), (2, 'error'), (1, 'full'), (1, 'torn'), (1, 'interrupt'), (1, 'line')])
            inj = None
            if kind not in ('', 'line'):
                disk.arm(kind, ch.weighted([(4, 0), (2, 1), (1, 2), (1, 4)]))
                if ch.chance(30):
                    disk.short_io = 50
            before = sum(ctx.faults.values())
            try:
                fn = lambda: write(ctx, log, 'one.log', 'T', ch)
                if kind == 'line':
                    inj = Injector(ctx, ('log.py',))
                    e = inj.run(fn, ch.rint(1, 30), KeyboardInterrupt())
                else:
                    e = fn()
            except fs.SimCrash:
                e = 'crash'
                disk.restart()
                reset_threads()
                start_logging('LOGS')
            except KeyboardInterrupt:
                e = 'interrupt'
            disk.disarm()
            ctx.case.append('%s -> %s' % (kind, e))
            if e and kind != 'line':
                ctx.check(sum(ctx.faults.values()) > before, 'raised', 'append_log raised %s' % e)
            ctx.nontrivial = True
        log.check(ctx, disk.text('LOGS/one.log'), 'one.log')


def clear(ctx):
    """threads clear the logs, while others write; files of other kinds belong to somebody else"""
    from DHParser.log import start_logging, clear_logs, create_log, log_dir, is_logging
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx, shuffle=True)
    with disk, place(disk), contextlib.redirect_stdout(io.StringIO()):
        start_logging('LOGS')
        kinds = ch.pick((None, None, frozenset(['.log']), frozenset(['.cst', '.log', '.html'])))
        doomed = kinds or frozenset(['.cst', '.ast', '.log'])
        foreign = {}
        for n in ('notes.txt', 'data.json', 'x.log.bak', 'log', 'sub/one.log', 'page.html', 'tree.ast', 'tree.cst'):
            if ch.chance(25):
                b = ('this is %s\n' % n).encode()
                disk.write('LOGS/' + n, b)
                if '/' in n or os.path.splitext(n)[1] not in doomed:
                    foreign['LOGS/' + n] = b
        if ch.chance(30):
            disk.write('other/one.log', b'elsewhere')
            foreign['other/one.log'] = b'elsewhere'
        names = ['one.log', 'two.log', 'three.ast']
        busy = [0]
        records = {n: Records() for n in names}
        writers = ch.chance(50)
        trouble = ch.chance(20)
        if trouble:
            disk.arm(ch.pick(('error', 'denied', 'interrupt')), ch.rint(0, 6), times=ch.pick((1, 100)))
        steps = []
        clears = [0]

        def intact(when):
            for p, b in foreign.items():
                ctx.check(disk.read(p) == b, 'foreign', lambda: '%s: %s, which is no log, has been lost: %s; %s' % (
                    when, p, sorted(disk.files()), steps))

        def act(t, clearing):
            for _ in range(ch.rint(1, 3)):
                if clearing:
                    busy[0] += 1
                    clears[0] += 1
                    try:
                        clear_logs(*([kinds] if kinds else []))
                        steps.append('%s cleared' % t)
                    except (OSError, KeyboardInterrupt) as e:
                        steps.append('%s clear raised %s' % (t, e))
                        ctx.check(ctx.faults, 'raised', lambda: '%s: clear_logs() raised %r' % (t, e))
                    finally:
                        busy[0] -= 1
                    intact('after clear_logs()')
                    ctx.check(is_logging(), 'suspended', 'logging is off after clear_logs()')
                else:
                    n = ch.pick(names)
                    before = clears[0], busy[0]
                    try:
                        e = write(ctx, records[n], n, t, ch)
                    except KeyboardInterrupt as k:
                        e = k
                    steps.append('%s wrote %s' % (t, n))
                    ctx.check(e is None or ctx.faults or before != (clears[0], 0), 'raised', lambda: '%s: append_log raised %r' % (t, e))
                w.sleep(ch.pick((0.0, 0.01)))

        def main():
            for n in names:
                if ch.chance(60):
                    try:
                        create_log(n) if ch.chance(30) else write(ctx, records[n], n, 'main', ch)
                    except (OSError, KeyboardInterrupt):
                        pass
            k = ch.rint(1, 3)
            actors = [w.spawn(lambda i=i: act('C%d' % i, True), 'C%d' % i) for i in range(k)]
            if writers:
                actors += [w.spawn(lambda i=i: act('T%d' % i, False), 'T%d' % i) for i in range(ch.rint(1, 2))]
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0)
            for a in actors:
                ctx.check(a.state == kernel.DONE and a.exc is None, 'failed', lambda: '%s %r' % (a.state, a.exc))
        w.run(main)
        disk.disarm()
        ctx.nontrivial = True
        ctx.case = '%s %s %s' % (sorted(doomed), sorted(foreign), steps)
        for n in names:                         # what is left of the records is whole
            for rec in records[n].all:
                rec[3] = 'failed'
            records[n].check(ctx, disk.text('LOGS/' + n), n)
        if writers or ctx.faults:
            clear_logs(*([kinds] if kinds else []))
        intact('in the end')
        left = sorted(p for p in disk.files() if p not in foreign)
        if kinds:
            left = [p for p in left if os.path.splitext(p)[1] in kinds]
        ctx.check(not left, 'left', lambda: 'logs left behind by clear_logs(): %s' % left)
        if not any(p.startswith('LOGS/') for p in disk.files()):
            ctx.check(not os.path.isdir(disk.path('LOGS')) or ctx.faults, 'left', 'empty log directory left behind')
        log = Records()
        ctx.check(write(ctx, log, 'one.log', 'end', ch) is None, 'raised', 'log cannot be written afterwards')
        log.check(ctx, disk.text('LOGS/one.log'), 'one.log')


def compiled(name, doc):
    """-> comparable result of compiling with fresh objects"""
    from DHParser.compile import compile_source
    from functools import partial
    import DHParser.transform as T
    outline, _ = K.compilers()
    r = compile_source(doc + '\n', None, K.grammar_class(name)(), partial(
        T.transformer, transformation_table=K.table(name), src_stage='CST', dst_stage='AST'), outline())
    return K.dump(r.result), K.dump_errors(r.messages)


def compiling(ctx):
    """threads compile with logs"""
    from DHParser.configuration import set_config_value, get_config_value
    from DHParser.log import start_logging, is_logging
    import DHParser.dsl as D
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk, place(disk), contextlib.redirect_stdout(io.StringIO()):
        disk.bufsize = ch.pick((512, io.DEFAULT_BUFFER_SIZE))
        name = ch.pick(list(K.GRAMMARS))
        docs = [ch.pick(K.documents(name)) for _ in range(2)]
        tracking = ch.chance(25)
        set_config_value('history_tracking', tracking)
        plain = {d: K.outcome(lambda: compiled(name, d)) for d in docs}
        start_logging('LOGS')
        from DHParser.configuration import access_presets, finalize_presets, set_preset_value
        access_presets()
        set_preset_value('log_syntax_trees', frozenset({'CST', 'AST'}))
        set_preset_value('history_tracking', tracking)
        finalize_presets()
        # what the logs look like after undisturbed runs
        logs = {}
        for d in docs:
            K.outcome(lambda: compiled(name, d))
            for p, b in disk.files().items():
                logs.setdefault(p, set()).add(b)
        import shutil
        shutil.rmtree(disk.path('LOGS'))
        if ch.chance(40):
            disk.arm(ch.pick(('error', 'torn', 'denied', 'full')), ch.rint(0, 15), ops=fs.WRITING, times=ch.pick((1, 3, 100)))
        n = ch.rint(1, 3)
        done = []

        def act(i):
            for _ in range(ch.rint(1, 3)):
                if ch.chance(30):
                    bad = ch.chance(50)
                    r = K.outcome(lambda: D.create_parser('doc = { /x/ ' + ('' if bad else '}')))
                    io_error = r[0] == 'raised' and r[1] in OS_ERRORS and ctx.faults
                    ctx.check(io_error or r[0] == ('raised' if bad else 'ok') and (not bad or r[1] in ('DefinitionError', 'CompilationError')), 'result', lambda:
                              'create_parser: %s' % (r,))
                    ctx.check(is_logging(), 'suspended', 'logging is off after create_parser()')
                d = ch.pick(docs)
                before = bool(ctx.faults)
                r = K.outcome(lambda: compiled(name, d))
                done.append((i, d, r[0]))
                if r[0] == 'raised' and r[1] in OS_ERRORS and plain[d] != r:
                    ctx.check(ctx.faults, 'raised', lambda: 'T%d: compiling with logs raised %s' % (i, r))
                else:
                    ctx.check(r == plain[d], 'result', lambda: 'T%d: %s' % (i, K.diff(r, plain[d])))
                ctx.check(is_logging(), 'suspended', 'logging is off after compiling')

        def main():
            actors = [w.spawn(lambda i=i: act(i), 'T%d' % i) for i in range(n)]
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0)
            for a in actors:
                ctx.check(a.state == kernel.DONE and a.exc is None, 'failed', lambda: '%s %r' % (a.state, a.exc))
        w.run(main)
        disk.disarm()
        ctx.nontrivial = True
        ctx.case = '%s %s %s' % (name, 'history' if tracking else '', done)
        for p, b in disk.files().items():
            if p in logs and p != 'LOGS/info.txt':
                ctx.check(b in logs[p], 'partial', lambda: 'log %s is incomplete: %s' % (p, K.show(b, 400)))
            else:
                ctx.check(ctx.faults or p in logs or p.endswith(('.cst', '.ast', '.log', '.html')), 'stray', lambda: 'file left behind: %s' % p)
        r = K.outcome(lambda: compiled(name, docs[0]))
        ctx.check(r == plain[docs[0]], 'result', lambda: 'afterwards: %s' % (K.diff(r, plain[docs[0]]),))


def switching(ctx):
    """start, suspend, resume and switch logs in several threads, against a model"""
    from DHParser.log import start_logging, suspend_logging, resume_logging, log_dir, local_log_dir, is_logging, append_log
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk, place(disk), contextlib.redirect_stdout(io.StringIO()):
        dirs = ['A', 'B', 'C']
        logs = {d: Records() for d in dirs}
        if ch.chance(60):
            start_logging('A')
        steps = []

        def expect(mine, t):
            ctx.check(is_logging() == bool(mine), 'state', lambda: '%s: is_logging() is %s, but logs go to %r after %s' % (
                t, is_logging(), mine, steps))

        def act(t):
            from DHParser.configuration import get_config_value
            # from now on the thread has its own configuration
            mine = os.path.basename(get_config_value('log_dir'))
            stack = []

            def some(k, depth):
                nonlocal mine
                for _ in range(k):
                    op = ch.weighted([(5, 'write'), (2, 'start'), (2, 'suspend'), (3, 'resume'), (2, 'local'), (1, 'stop'),
                                      (1, 'dir')])
                    steps.append('%s %s' % (t, op))
                    if op == 'write':
                        rec, parts = logs[mine or 'A'].new(ch, t)
                        append_log('x.log', *parts)
                        rec[3] = 'ok' if mine else 'none'
                        if not mine:
                            logs['A'].all.remove(rec)
                    elif op == 'start':
                        mine = ch.pick(dirs)
                        start_logging(mine)
                    elif op == 'stop':
                        start_logging('')
                        mine = ''
                    elif op == 'suspend':
                        save = suspend_logging()
                        stack.append((save, mine))
                        mine = ''
                    elif op == 'resume' and stack:
                        save, mine = stack.pop()
                        resume_logging(save)
                    elif op == 'dir':
                        d = log_dir()
                        ctx.check(os.path.basename(d) == mine, 'state', lambda: '%s: log_dir() is %r instead of %r after %s' % (
                            t, d, mine, steps))
                    elif op == 'local' and depth < 2:
                        d, saved, height = ch.pick(dirs), mine, len(stack)
                        try:
                            with local_log_dir(disk.path(d)):
                                mine = d
                                expect(mine, t)
                                some(ch.rint(0, 3), depth + 1)
                                if ch.chance(30):
                                    raise ValueError()
                        except ValueError:
                            steps.append('%s raise' % t)
                        mine = saved
                        del stack[height:]
                    expect(mine, t)
            some(ch.rint(2, 8), 0)

        def main():
            actors = [w.spawn(lambda i=i: act('T%d' % i), 'T%d' % i) for i in range(ch.rint(1, 3))]
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0)
            for a in actors:
                ctx.check(a.state == kernel.DONE and a.exc is None, 'failed', lambda: '%s %r' % (a.state, a.exc))
        w.run(main)
        ctx.nontrivial = True
        ctx.case = steps
        for d in dirs:
            logs[d].check(ctx, disk.text(d + '/x.log'), d)


def server(ctx):
    """a server whose log cannot be written any more"""
    ch = ctx.ch
    disk = fs.FS(ctx)
    table = {'echo': srv.echo, 't_delay': srv.t_delay, 'fail': srv.fail, 't_fail': srv.fail}
    with disk, place(disk), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        rig = srv.Rig(ctx, table, (), {'t_delay', 't_fail'})

        def orchestrate(rig):
            w = rig.w
            rig.server.start_logging('./server.log') if ch.chance(70) else None
            c = rig.client()
            n = ch.rint(2, 8)
            strike = ch.rint(0, n)
            kinds = []
            for i in range(n):
                if i == strike:
                    disk.arm(ch.pick(('full', 'error', 'denied', 'torn')), ch.rint(0, 3), ops=fs.WRITING | {'open_w'}, times=100)
                    if ch.chance(30):
                        c.send(srv.frame(srv.rpc('logging', [ch.pick(('./other.log', './server.log'))], 1000 + i)))
                kind = ch.pick(('echo', 't_delay', 'fail', 't_fail', 'unknown'))
                kinds.append(kind)
                if not c.send(srv.frame(srv.rpc(kind, {'v': 'text %d' % i}, i + 1))):
                    break
                if ch.chance(40):
                    w.sleep(ch.pick((0.01, 0.5, 2.0)))
            for i, kind in enumerate(kinds):
                ok = c.wait_rpc_id(i + 1, 1200.0)
                ctx.check(ok, 'unanswered', lambda: 'request %d (%s) was not answered; log failing: %s; %s' % (
                    i + 1, kind, dict(ctx.faults), rig.handler_errors()))
                if not ok:
                    break
                m = [m for m in c.rpcs() if m.get('id') == i + 1]
                ctx.check(len(m) == 1 and ('result' in m[0]) == (kind in ('echo', 't_delay')), 'wrong', lambda: 'request %d (%s): '
                          '%s' % (i + 1, kind, m))
            if not ctx.violations:
                c.close()
                w.sleep(10.0)
                c2 = rig.client()
                c2.send(srv.frame(srv.rpc('echo', {'v': 'again'}, 7)))
                ctx.check(c2.wait_rpc_id(7, 1200.0), 'unanswered', lambda: 'second connection: not answered; %s' % rig.handler_errors())
            ctx.check(rig.stop_and_check(), 'hangs', 'server does not stop')
            ctx.case = '%s %s' % (kinds, strike)
        rig.run(orchestrate)
        ctx.nontrivial = True


SCENARIOS = [('append', append, 3), ('history', history, 2), ('compiling', compiling, 2), ('switching', switching, 2),
             ('clear', clear, 2),
             ('server', server, 1)]
