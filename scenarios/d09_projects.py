"""D09 - Creating a project never destroys existing files and can be resumed."""
import contextlib
import io
import os
import stat

from dst import fs, kernel
from scenarios import corpus as K
from scenarios.c03_singletons import reset as reset_threads
from scenarios.parsing import Injector, stable_hashes

RULE = ('files that exist already keep their content and mode (test files may be renumbered); every file that has been '
        'created is complete at any time; no temporary files are left behind unless the process dies; the working directory '
        'and the configuration are restored on every way out; repeating the call without disturbance completes exactly the set '
        'of files of an undisturbed first call; with overwrite=True scripts are either the old or the complete new ones')
REAL = ['DHParser/scripts/dhparser.py: create_project', 'DHParser/dsl.py: create_scripts, recompile_grammar',
        'DHParser/testing.py: create_test_templates', 'DHParser/toolkit.py: write_atomically']
STUB = ['disk (scratch directory; errors, full disk, denied access, short and torn writes, crashes with loss of buffers, '
        'interrupts)']
ASSUMPTIONS = ['completed writes survive a crash of the process in the order in which they were made',
               'no other process creates the same files at the same time']
PROBE_HASHSEED = '0'
RUNS = {'quick': 5000, 'thorough': 50000}

EBNF = '''# Section Heads
@ whitespace = horizontal
doc = { line }
#: Lines
line = word { "," word } eol
#: Words
word = /\\w+/~
#: Ends
eol = /\\n/~
'''
EBNFS = [EBNF, 'doc = /x/\n', EBNF.replace('#: Words\n', ''), EBNF.replace('#: Lines', '#: Rows'), EBNF.replace('eol', 'end')]
MODULE = {}
LAST = {}


def warmup():
    stable_hashes()
    import importlib
    import platform
    platform.system()
    import DHParser.dsl, DHParser.testing      # noqa
    import DHParser.scripts.dhparser as S
    MODULE['S'] = S
    import DHParser.ebnf
    from DHParser.configuration import get_config_value
    get_config_value('log_dir')
    for text in EBNFS:
        K.outcome(lambda: DHParser.dsl.create_parser(text))
        K.outcome(lambda: DHParser.testing.extract_symbols(text))


@contextlib.contextmanager
def place(disk, sub=''):
    cwd = os.getcwd()
    os.chdir(os.path.join(disk.root, sub))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        os.chdir(cwd)
        reset_threads()


def mode(disk, rel):
    return stat.S_IMODE(fs.REAL['stat'](disk.path(rel)).st_mode)


def state(disk):
    return {p: (b, mode(disk, p)) for p, b in disk.files().items()}


def attempt(ctx, disk, fault, fn, files):
    """-> (outcome, disturbed)"""
    ch = ctx.ch
    LAST['times'] = 1
    # reports of an earlier attempt that has been stopped before it could remove them
    LAST['reports'] = {p for p in disk.files() if p.endswith('_MESSAGES.txt')}
    before = sum(ctx.faults.values())
    if fault not in ('', 'line', 'short'):
        kw = {}
        if fault in ('error', 'interrupt', 'crash') and ch.chance(60):
            kw['ops'] = fs.WRITING if ch.chance(70) else {ch.pick(sorted(fs.WRITING | fs.READING))}
        if fault == 'error':
            kw['times'] = ch.pick((1, 1, 3, 100))
            LAST['times'] = kw['times']
        disk.arm(fault, ch.pick((ch.rint(0, 6), ch.rint(0, 30), ch.rint(0, 60))), **kw)
    if fault in ('short', 'torn') or ch.chance(20):
        disk.short_io = 40
    inj = None
    try:
        if fault == 'line':
            inj = Injector(ctx, files)
            r = ('ok', inj.run(fn, ch.pick((ch.rint(1, 60), ch.rint(1, 300))), KeyboardInterrupt('injected')))
        else:
            r = ('ok', fn())
    except SystemExit as e:
        r = ('exit', e.code)
    except Exception as e:
        r = ('raised', type(e).__name__, str(e))
    except KeyboardInterrupt:
        r = ('interrupted',)
    except fs.SimCrash:
        r = ('crash',)
    if disk.crashed and r[0] != 'crash':
        r = ('crash',)
    dead = disk.crashed
    if dead:
        disk.restart()
    disk.disarm()
    if inj is not None and inj.hit:
        ctx.faults['line_interrupt'] += 1
    return r, sum(ctx.faults.values()) > before


FAULTS = ('', 'crash', 'crash', 'error', 'error', 'full', 'denied', 'interrupt', 'torn', 'line', 'line', 'short')
OS_ERRORS = ('OSError', 'PermissionError', 'FileExistsError', 'FileNotFoundError', 'NotADirectoryError', 'IsADirectoryError')


def verify(ctx, disk, when, r, disturbed, before, complete, cwd, movable=(), replace=(), litter=()):
    """conditions after an attempt"""
    after = state(disk)
    names = {}
    for p, (b, m) in before.items():
        q = p
        if p in movable and p not in after:
            d, n = os.path.split(p)
            cands = [x for x in after if os.path.dirname(x) == d and os.path.basename(x)[3:] == n[3:] and x not in before]
            q = cands[0] if cands else p
        if not ctx.check(q in after, 'lost', lambda: '%s (%s): %s is gone' % (when, r, p)):
            continue
        names[q] = p
        ok = after[q][0] == b
        if not ok and p in replace:
            ok = after[q][0] == complete.get(p, (None,))[0]
        ctx.check(ok, 'overwritten', lambda: '%s (%s): %s has been changed: %s' % (when, r, p, K.show(after[q][0], 200)))
        ctx.check(after[q][1] == m or p in replace, 'mode', lambda: '%s (%s): mode of %s changed from %o to %o' % (when, r, p, m, after[q][1]))
    for p, (b, m) in after.items():
        if p in names or p in before:
            continue
        if p in complete:
            ctx.check(b == complete[p][0], 'incomplete', lambda: '%s (%s): %s was created with other content: %s' % (when, r, p, K.show(b, 300)))
            ctx.check(m & 0o700 == complete[p][1] & 0o700, 'mode', lambda: '%s (%s): mode of %s is %o instead of %o' % (when, r, p, m, complete[p][1]))
        elif p not in litter:
            ctx.check(p.endswith('.tmp') and (r[0] in ('crash', 'interrupted') or LAST['times'] > 1) or p.endswith('_MESSAGES.txt') and (
                disturbed or p in LAST['reports']), 'stray',
                      lambda: '%s (%s): stray file %s' % (when, r, p))
    ctx.check(r[0] == 'crash' or os.path.realpath(os.getcwd()) == os.path.realpath(cwd), 'cwd', lambda: '%s (%s): working directory is %s' % (
        when, r, os.getcwd()))
    os.chdir(cwd)
    return after


def project(ctx):
    """create_project"""
    S = MODULE['S']
    ch = ctx.ch
    name = ch.pick(('demo', 'Alpha', 'x_1'))
    form = ch.pick(('plain', 'plain', 'here', 'absolute', '.', 'no/'))

    def layout(disk):
        arg = {'plain': name, 'here': './' + name, 'absolute': disk.path(name), '.': '.', 'no/': 'no/' + name}[form]
        if form == '.':
            os.makedirs(disk.path(name))
            disk.write(name + '/' + name + '.ebnf', 'doc = /x/\n')
            os.chdir(disk.path(name))
        elif form == 'no/':
            return arg
        return arg
    where = '' if form == 'here' else name + '/'
    with fs.FS(ctx) as ref, place(ref):
        arg = layout(ref)
        r, _ = attempt(ctx, ref, '', lambda: S.create_project(name if form == 'no/' else arg), ())
        ref.disarm()
        complete = state(ref)
        if not ctx.check(r[0] == 'ok' and len(complete) >= 7, 'fails', lambda: 'first call in an empty directory: %s %s' % (r, sorted(complete))):
            return
    disk = fs.FS(ctx)
    with disk, place(disk):
        # what is there already
        arg = layout(disk)
        if where and not os.path.exists(disk.path(name)) and ch.chance(50):
            fs.REAL['mkdir'](disk.path(name))
        cwd = os.getcwd()
        if not where or os.path.exists(disk.path(name)):
            for p in sorted(complete):
                if ch.chance(20) and not os.path.exists(disk.path(p)):
                    os.makedirs(os.path.dirname(disk.path(p)), exist_ok=True)
                    disk.write(p, ch.pick(('', 'mine\n', 'mine ' * 300)))
                    fs.REAL['chmod'](disk.path(p), ch.pick((0o644, 0o600, 0o755)))
            if ch.chance(30):
                disk.write(where + 'notes.txt', 'do not lose this\n')
            if ch.chance(20):
                os.makedirs(disk.path(where + 'tests_grammar'), exist_ok=True)
                disk.write(where + 'tests_grammar/03_test_more.ini', '[match:x]\n')
            blocked = not os.path.exists(disk.path(where + 'tests_grammar')) and ch.chance(8)
            if blocked:
                disk.write(where + 'tests_grammar', 'a file\n')
        else:
            blocked = ch.chance(5)
            if blocked:
                disk.write(name, 'a file\n')
        hopeless = form == 'no/'
        n = ch.rint(0, 3)
        before = state(disk)
        story, litter = [], set()
        for i in range(n + 1):
            fault = ch.pick(FAULTS) if i < n else ''
            r, disturbed = attempt(ctx, disk, fault, lambda: S.create_project(arg), ('dhparser.py', 'toolkit.py'))
            when = 'attempt %d%s' % (i, ' (%s)' % fault if fault else '')
            story.append((fault, r[0]))
            ctx.case = '%s %s %s' % (form, story, sorted(before))
            ctx.ev(when, r[0])
            if blocked or hopeless:
                ctx.check(r[0] in ('exit', 'crash', 'interrupted') or disturbed, 'reported', lambda: '%s: %s' % (when, r))
            elif not disturbed:
                ctx.check(r[0] == 'ok', 'fails', lambda: '%s: %s' % (when, r))
            elif r[0] == 'raised':
                ctx.check(r[1] in OS_ERRORS, 'raised', lambda: '%s: %s' % (when, r))
            after = verify(ctx, disk, when, r, disturbed, before, {} if blocked or hopeless else complete, cwd, litter=litter)
            litter |= {p for p in after if p.endswith('.tmp')}
            if r[0] == 'ok' and not blocked and not hopeless:
                missing = sorted(set(complete) - set(after))
                ctx.check(not missing, 'incomplete', lambda: '%s: %s, but %s are missing' % (when, r, missing))
            if ctx.violations:
                break
            # the user works on
            before = {p: s for p, s in after.items() if not p.endswith('.tmp') and not p.endswith('_MESSAGES.txt')}
            for p in sorted(before):
                if ch.chance(10):
                    disk.write(p, disk.read(p) + b'# edited\n')
                    before[p] = (disk.read(p), mode(disk, p))
            if ch.chance(10) and before and not blocked:
                p = ch.pick(sorted(before))
                if p in complete and not p.endswith('.ebnf'):
                    fs.REAL['remove'](disk.path(p))
                    del before[p]
        ctx.nontrivial = True


def scripts(ctx):
    """create_scripts"""
    import DHParser.dsl as D
    ch = ctx.ch
    names = ['alpha', 'beta'] if ch.chance(30) else ['alpha']
    directory = len(names) > 1 or ch.chance(20)
    texts = {n: ch.pick(EBNFS[:3]) for n in names}
    server = ch.pick(('', '', None, 'serve.py'))
    app = ch.pick(('', '', None, 'app.py'))
    if directory:
        server, app = server and '', app and ''
    overwrite = ch.chance(30)
    skip_app = app is None
    arg = 'work' if directory else 'work/alpha.ebnf'

    def call():
        D.create_scripts(arg, '', server, app, overwrite)

    with fs.FS(ctx) as ref, place(ref):
        for n, t in texts.items():
            ref.write('work/%s.ebnf' % n, t)
        base = set(state(ref))
        r, _ = attempt(ctx, ref, '', call, ())
        complete = {p: s for p, s in state(ref).items() if p not in base}
        expected = set()
        for n in names:
            expected.add('work/%sParser.py' % n)
            if server is not None:
                expected.add(server or 'work/%sServer.py' % n)
            if app is not None:
                expected.add(app or 'work/%sApp.py' % n)
        if not ctx.check(r[0] == 'ok' and set(complete) - {p for p in complete if p.endswith('_MESSAGES.txt')} == expected, 'fails', lambda: (
                'first call %s %s %s: %s %s' % (arg, server, app, r, sorted(complete)))):
            return
    scr = {p for p in expected if not p.endswith('Parser.py')}
    disk = fs.FS(ctx)
    with disk, place(disk):
        cwd = os.getcwd()
        for n, t in texts.items():
            disk.write('work/%s.ebnf' % n, t)
        if ch.chance(30):
            disk.write('work/other.py', 'x = 1\n')
        for p in sorted(expected):
            if ch.chance(25):
                disk.write(p, '# my own script\n' if p in scr or ch.chance(50) else complete[p][0])
        story, litter = [], set()
        n = ch.rint(0, 3)
        before = state(disk)
        for i in range(n + 1):
            fault = ch.pick(FAULTS) if i < n else ''
            r, disturbed = attempt(ctx, disk, fault, call, ('dsl.py', 'toolkit.py'))
            when = 'attempt %d%s' % (i, ' (%s)' % fault if fault else '')
            story.append((fault, r[0]))
            ctx.case = '%s %s %s %s %s' % (arg, server, app, overwrite, story)
            ctx.ev(when, r[0], sorted(before))
            if not disturbed:
                ctx.check(r[0] == 'ok', 'fails', lambda: '%s: %s' % (when, r))
            elif r[0] == 'raised':
                ctx.check(r[1] in OS_ERRORS + ('CompilationError', 'DefinitionError'), 'raised', lambda: '%s: %s' % (when, r))
            after = verify(ctx, disk, when, r, disturbed, before, complete, cwd, replace=scr if overwrite else (), litter=litter)
            litter |= {p for p in after if p.endswith('.tmp')}
            if r[0] == 'ok' and (not disturbed or fault == 'short'):
                missing = sorted(expected - set(after))
                ctx.check(not missing, 'incomplete', lambda: '%s: %s are missing' % (when, missing))
                if overwrite:
                    ctx.check(all(after[p] == complete[p] for p in scr if p in after), 'not_replaced', lambda: '%s: %s' % (
                        when, [p for p in scr if after.get(p) != complete[p]]))
            if ctx.violations:
                break
            before = {p: s for p, s in after.items() if not p.endswith('.tmp') and not p.endswith('_MESSAGES.txt')}
            for p in sorted(before):
                if p.endswith('.py') and ch.chance(10) and 'Parser' not in p:
                    disk.write(p, disk.read(p) + b'# edited\n')
                    before[p] = (disk.read(p), mode(disk, p))
        ctx.nontrivial = True


def templates(ctx):
    """create_test_templates"""
    import DHParser.testing as T
    ch = ctx.ch
    text = ch.pick(EBNFS)
    as_dict = ch.chance(30)

    def call(text):
        source = T.extract_symbols(text) if as_dict else ('grammar.ebnf' if as_file else text)
        T.create_test_templates(source, 'tests_grammar')

    def fresh(text):
        with fs.FS(ctx) as ref, place(ref):
            if as_file:
                ref.write('grammar.ebnf', text)
            r, _ = attempt(ctx, ref, '', lambda: call(text), ())
            ctx.check(r[0] == 'ok', 'fails', lambda: 'first call: %s' % (r,))
            return {p: s for p, s in state(ref).items() if p != 'grammar.ebnf'}
    as_file = not as_dict and ch.chance(60)
    complete = fresh(text)
    if ctx.violations:
        return
    disk = fs.FS(ctx, shuffle=ch.chance(50))
    with disk, place(disk):
        cwd = os.getcwd()
        if ch.chance(50):
            fs.REAL['mkdir'](disk.path('tests_grammar'))
            for p in sorted(complete):
                if ch.chance(30):
                    disk.write(p, '[match:own]\nM1: """x"""\n')
                elif ch.chance(20):
                    d, f = os.path.split(p)
                    disk.write('%s/%02d%s' % (d, ch.rint(1, 9), f[2:]), '[match:moved]\n')
        if as_file:
            disk.write('grammar.ebnf', text)
        story, litter = [], set()
        before = state(disk)
        virgin = not any(p.startswith('tests_grammar/') for p in before)
        n = ch.rint(0, 4)
        for i in range(n + 1):
            fault = ch.pick(FAULTS) if i < n else ''
            r, disturbed = attempt(ctx, disk, fault, lambda: call(text), ('testing.py', 'toolkit.py'))
            when = 'attempt %d%s' % (i, ' (%s)' % fault if fault else '')
            story.append((fault, r[0]))
            ctx.case = '%s %s' % (story, sorted(before))
            ctx.ev(when, r[0], EBNFS.index(text))
            if not disturbed:
                ctx.check(r[0] == 'ok', 'fails', lambda: '%s: %s' % (when, r))
            elif r[0] == 'raised':
                ctx.check(r[1] in OS_ERRORS, 'raised', lambda: '%s: %s' % (when, r))
            after = verify(ctx, disk, when, r, disturbed, before, complete, cwd, movable=[p for p in before if p.startswith('tests_grammar/')], litter=litter)
            litter |= {p for p in after if p.endswith('.tmp')}
            if r[0] == 'ok' and len(complete) > 1:
                for p in sorted(complete):
                    ctx.check(p in after or 'ALL_SYMBOLS' in p and not virgin, 'incomplete', lambda: '%s: %s is missing; %s' % (when, p, sorted(after)))
            if ctx.violations:
                break
            before = {p: s for p, s in after.items() if not p.endswith('.tmp')}
            for p in sorted(before):
                if p.endswith('.ini') and ch.chance(15):
                    disk.write(p, disk.read(p) + b'# edited\n')
                    before[p] = (disk.read(p), mode(disk, p))
            if ch.chance(20):
                virgin = False
                text = ch.pick(EBNFS)       # the grammar is edited
                complete = fresh(text)
                if as_file:
                    disk.write('grammar.ebnf', text)
                    before['grammar.ebnf'] = (text.encode(), mode(disk, 'grammar.ebnf'))
                if ctx.violations:
                    break
        ctx.nontrivial = True


SCENARIOS = [('project', project, 4), ('scripts', scripts, 2), ('templates', templates, 3)]
