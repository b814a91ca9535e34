"""Shared by D01 and D02: regeneration of parser scripts on a simulated disk."""
import contextlib
import io
import os

from dst import fs, kernel
from scenarios import corpus as K
from scenarios.parsing import Injector

GRAMMARS = {
    'a': 'doc = { word } EOF\nword = /\\w+/~\nEOF = !/./\n',
    'b': '@ drop = whitespace\ndoc = { word | number }+ EOF\nword = /[a-z]+/~\nnumber = /\\d+/~\nEOF = !/./\n',
    'c': '@ whitespace = horizontal\ndoc = "ä" [ "ö" ] { `x` }\n',
    'warn': 'doc = { word }\nword = /\\w+/\nunused = "x"\n',
    'other dialect': 'doc ::= word { word }\nword ::= /\\w+/~\n',
    'syntax error': 'doc = { word \nword = /\\w+/~ ]\n',
    'undefined': 'doc = { word }\n',
    'empty': '',
    'dialect error': 'doc := "a" b;\nb := ; \n',
}
VALID = ('a', 'b', 'c', 'warn')

CODE = ('#!/usr/bin/env python3\n', 'x = 1\n', 'def f(a, b):\n    """doc"""\n    return {"a": a, "b": [b]}\n',
        '# äöü – “quoted” \u2028 x\n', '', '\n', 'y = """\n#######\n#\n# PARSER\n#\n#######\n"""\n', '\tif x:\n\t\tpass  \n',
        's = "{NAME} {0} {}"\n', 'class C:\n    source_hash__ = "abc"\n', '\x0c\n# form feed\n', 'raw = r"\\n\\1 \\g<0>"\n',
        '"%s" % 1\n', '# ' + 'long ' * 3000 + '\n', 'class H(Grammar):\n    source_hash__ = "0123abc"\n')
NAMES = ('intro', 'imports', 'preprocessor', 'parser', 'ast', 'compiler', 'outro')
WHITE = ' \t\n\r\x0b\x0c'

_ref = {}


def warmup():
    K.load()
    import platform
    import stat
    import DHParser.dsl
    from DHParser.configuration import set_config_value, get_config_value
    platform.system()
    platform.python_version()
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix='dst_ref_', dir='/tmp')
    try:
        for name, src in GRAMMARS.items():
            sub = os.path.join(d, name.replace(' ', '_'))
            os.mkdir(sub)
            p = os.path.join(sub, 'tst.ebnf')
            with open(p, 'w', encoding='utf-8') as f:
                f.write(src)
            if name not in VALID:
                continue
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    ok = DHParser.dsl.recompile_grammar(p)
            except Exception:
                ok = False          # the runs will report that
            if ok:
                with open(os.path.join(sub, 'tstParser.py'), encoding='utf-8') as f:
                    text = f.read()
                _ref[name] = split(text)[3].replace(sub, '<DISK>')
    finally:
        shutil.rmtree(d)


def split(text):
    """-> list of seven sections or None"""
    from DHParser.dsl import RX_SECTION_MARKER
    parts = RX_SECTION_MARKER.split(text)
    return parts if len(parts) == 7 else None


def join(parts):
    from DHParser import dsl as D
    out = []
    for i, m in enumerate((D.SYMBOLS_SECTION, D.PREPROCESSOR_SECTION, D.PARSER_SECTION, D.AST_SECTION,
                           D.COMPILER_SECTION, D.END_SECTIONS_MARKER)):
        out.append(parts[i])
        out.append(D.SECTION_MARKER.format(marker=m))
    return ''.join(out) + parts[6]


def sections(b):
    """like split(), for the content of a script-file"""
    try:
        return split(b.decode('utf-8'))
    except UnicodeDecodeError:
        return None


def snippet(ch):
    return ''.join(ch.pick(CODE) for _ in range(ch.weighted([(1, 0), (4, 1), (3, 2), (1, 4)])))


class Job:
    """one directory with grammars and their scripts"""

    def __init__(self, ctx, disk, names):
        self.ctx, self.disk = ctx, disk
        self.grammar = {n: None for n in names}     # key of GRAMMARS
        self.user = {n: None for n in names}        # sections the user relies on
        self.script = {n: None for n in names}      # bytes of the script before the call
        self.touched = set()
        self.custom = ''        # name of the script chosen by the user

    def ebnf(self, n):
        return self.disk.path(n + '.ebnf')

    def py(self, n):
        return self.custom or n + 'Parser.py'

    def set_grammar(self, n, key):
        self.grammar[n] = key
        self.disk.write(n + '.ebnf', GRAMMARS[key])

    def current(self, n):
        """-> 'missing', 'broken', 'stale', 'current'"""
        b = self.disk.read(self.py(n))
        if b is None:
            return 'missing'
        parts = sections(b)
        if parts is None:
            return 'broken'
        want = _ref.get(self.grammar[n])
        have = parts[3].replace(self.disk.root, '<DISK>')
        return 'current' if want is not None and have == want.replace('tst', n) else 'stale'

    def edit(self, n):
        """the user edits the sections"""
        ch = self.ctx.ch
        b = self.disk.read(self.py(n))
        if b is None:
            return
        parts = sections(b)
        if parts is None:
            return
        for i in range(7):
            if i != 3 and ch.chance(60):
                parts[i] = snippet(ch) if ch.chance(60) else parts[i] + snippet(ch)
        text = join(parts)
        if split(text) != parts:
            return
        self.disk.write(self.py(n), text)

    def remember(self):
        """state before a call"""
        for n in self.grammar:
            b = self.script[n] = self.disk.read(self.py(n))
            self.user[n] = sections(b) if b is not None else None

    def carrier(self, parts, user):
        """do the parts contain everything the user has written?"""
        if parts is None:
            return False
        for i, (new, old) in enumerate(zip(parts, user)):
            if i == 3 or not old.strip(WHITE):
                continue
            if i == 1:
                rest = new[len(old):] if new.startswith(old) else None
                if rest is None or rest.strip() not in (
                        '', 'from DHParser.pipeline import PseudoJunction, create_parser_junction'):
                    return False
            elif new != old:
                return False
        return True

    def preserved(self, n):
        """is everything the user has written somewhere on disk?"""
        old = self.script[n]
        if old is None:
            return True
        files = self.disk.files()
        if any(b == old for b in files.values()):
            return True
        user = self.user[n]
        if user is None:
            return not old.strip()
        return any(self.carrier(sections(b), user) for b in files.values())


def faults(ctx, disk, n):
    """arms at most two faults; -> description"""
    ch = ctx.ch
    kind = ch.weighted([(6, ''), (5, 'crash'), (3, 'error'), (2, 'full'), (2, 'denied'), (2, 'interrupt'), (3, 'line')])
    if not kind or kind == 'line':
        return kind
    where = ch.pick((None, None, 'Parser.py', '.ebnf', 'MESSAGES'))
    paths = (lambda p: where in p) if where else None
    if where == 'Parser.py':
        paths = lambda p: 'Parser.py' in p
    ops = None
    if kind in ('error', 'crash', 'interrupt') and ch.chance(50):
        ops = {ch.pick(sorted(fs.WRITING | fs.READING))}
        if 'write' in ops or ch.chance(30):
            ops = fs.WRITING
    kw = dict(ops=ops) if ops else {}
    if kind == 'error':
        kw['times'] = ch.pick((1, 1, 2, 100))
    disk.arm(kind, ch.weighted([(4, 0), (3, 1), (2, 2), (1, 4), (1, 7), (1, 12)]), paths=paths, **kw)
    return '%s %s %s' % (kind, where or '', sorted(ops) if ops else '')


def call(fn, ctx, line=None):
    """-> ('ok', value) | ('raised', text) | ('crash', )"""
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            if line is not None:
                inj = Injector(ctx, ('dsl.py', 'toolkit.py'))
                value = inj.run(fn, line, KeyboardInterrupt('injected'))
            else:
                value = fn()
        return 'ok', value
    except fs.SimCrash:
        return 'crash',
    except (Exception, KeyboardInterrupt) as e:
        return 'raised', type(e).__name__, str(e)[:200]
    finally:
        ctx.printed = out.getvalue()
        if line is not None and inj.hit:
            ctx.fault('interrupt at line')


def histories(ctx, prop):
    """a sequence of edits and recompilations with faults, then one without"""
    import DHParser.dsl as D
    ch = ctx.ch
    disk = fs.FS(ctx, shuffle=True)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE, 1 << 20))
        names = ['tst'] if ch.chance(70) else ['tst', 'second', 'third'][:ch.rint(2, 3)]
        job = Job(ctx, disk, names)
        if len(names) == 1 and ch.chance(25):
            job.custom = ch.pick(('scripts/myParser.py', 'my_parser.py'))
            disk.write('scripts/.keep', '')
        elsewhere = ch.chance(50)
        cwd = os.getcwd()
        os.chdir('/' if elsewhere else disk.root)
        ctx.case = []
        try:
            for n in names:
                job.set_grammar(n, ch.pick(VALID))
            if ch.chance(80):                           # a first script without faults
                for n in names:
                    job.remember()
                    one(job, prop, [n], 'recompile', False, '')
                    job.edit(n)
            for _ in range(ch.rint(1, 4)):
                if ctx.violations:
                    return
                for n in names:
                    if ch.chance(70):
                        job.set_grammar(n, ch.pick(VALID) if ch.chance(70) else ch.pick(list(GRAMMARS)))
                    if ch.chance(40):
                        job.edit(n)
                    if ch.chance(6) and job.disk.read(job.py(n)) is not None:
                        damage(job, n)
                job.remember()
                op = ch.weighted([(5, 'recompile'), (2, 'force'), (2, 'compile')]) if len(names) == 1 else 'directory'
                f = faults(ctx, disk, names[0])
                one(job, prop, names, op, op != 'compile' and ch.chance(30), f)
            if ctx.violations:
                return
            # --- the causes are removed
            disk.disarm()
            for n in names:
                if job.current(n) == 'broken':
                    os.remove(disk.path(job.py(n)))
                if job.grammar[n] not in VALID:
                    job.set_grammar(n, ch.pick(VALID))
            job.remember()
            op = 'recompile' if len(names) == 1 else 'directory'
            one(job, prop, names, op, False, '')
            before = {n: (disk.read(job.py(n)), disk.mtime(job.py(n))) for n in names
                      if disk.read(job.py(n)) is not None}
            one(job, prop, names, op, False, '')
            after = {n: (disk.read(job.py(n)), disk.mtime(job.py(n))) for n in before}
            if prop == 'D02':
                ctx.check(before == after, 'touched', 'a recompile without changes touches the script')
                left = sorted(set(disk.files()) - {job.py(n) for n in names} - {n + '.ebnf' for n in names}
                              - {n + '_ebnf_MESSAGES.txt' for n in names})
                ctx.check(not [p for p in left if p.endswith(('.py', '.ebnf'))], 'stray',
                          lambda: 'other scripts or grammars left behind: %s' % left)
        finally:
            os.chdir(cwd)


def damage(job, n):
    ch, disk = job.ctx.ch, job.disk
    b = disk.read(job.py(n))
    kind = ch.pick(('marker', 'marker', 'empty', 'binary'))
    if kind == 'marker':
        text = b.decode('utf-8', 'replace')
        i = text.find('####\n#\n# ')
        b = (text[:i] + text[i + 12:]).encode()
    elif kind == 'empty':
        b = b''
    else:
        b = b + b'\xff\xfe\x80'
    disk.write(job.py(n), b)


def one(job, prop, names, op, custom, fault):
    """one call and the checks after it"""
    import DHParser.dsl as D
    from DHParser.configuration import get_config_value
    ctx, disk = job.ctx, job.disk
    ch = ctx.ch
    calls = []
    variant = get_config_value('syntax_variant')
    n0 = names[0]
    line = None
    if fault == 'line':
        line = ch.pick((ch.rint(1, 60), ch.rint(1, 400)))

    def fn():
        if op == 'compile':
            return D.compile_on_disk(job.ebnf(n0), disk.path(job.py(n0)) if custom or job.custom else '')
        if op == 'directory':
            return D.recompile_grammar(disk.root, notify=lambda: calls.append(1))
        return D.recompile_grammar(job.ebnf(n0), disk.path(job.py(n0)) if custom or job.custom else '', op == 'force',
                                   notify=lambda: calls.append(1))
    hits = sum(ctx.faults.values())
    res = call(fn, ctx, line)
    disturbed = sum(ctx.faults.values()) > hits
    what = '%s %s%s -> %s' % (op, {n: job.grammar[n] for n in names}, ' [%s]' % fault if fault else '', res)
    ctx.case.append(what)
    ctx.ev('call', what)
    if res[0] == 'crash':
        disk.restart()
        from scenarios.c03_singletons import reset as reset_threads
        reset_threads()
        from DHParser.configuration import set_config_value
        set_config_value('syntax_variant', variant)
    disk.disarm()
    from DHParser.error import has_errors
    if res[0] == 'ok':
        success = res[1] is True if op != 'compile' else not has_errors(res[1])
    else:
        success = False
    if prop == 'D02' and res[0] != 'crash':
        now = get_config_value('syntax_variant')
        ctx.check(now == variant, 'config', lambda: 'configuration of the caller changed: %s -> %s by %s' % (
            variant, now, what))
    for n in names:
        state = job.current(n)
        old = job.script[n]
        new = disk.read(job.py(n))
        unchanged = new == old
        if prop == 'D01':
            ctx.check(job.preserved(n), 'lost', lambda: '%s: hand-written code of %s is lost: %s\nnow %s' % (
                what, job.py(n), K.show([p for i, p in enumerate(job.user[n] or [old]) if i != 3], 400),
                K.show(new, 1200)))
            if success and not disturbed and job.user[n] is not None:
                ctx.check(job.carrier(sections(new) if new else None, job.user[n]), 'lost',
                          lambda: '%s: sections of %s have been changed' % (what, job.py(n)))
                ctx.check(state == 'current', 'generated', lambda: '%s: generated section of %s does not '
                          'correspond to the grammar (%s)' % (what, job.py(n), state))
            ctx.check(unchanged or state != 'broken', 'destroyed', lambda: '%s: %s was replaced by something that is '
                      'no parser script: %s' % (what, job.py(n), K.show(new, 300)))
            continue
        if success:
            intact = unchanged and state == 'broken' and new and \
                _ref[job.grammar[n]].replace('tst', n) in new.decode('utf-8', 'replace').replace(disk.root, '<DISK>')
            ctx.check(state == 'current' or intact, 'stale', lambda: '%s: %s is %s after a recompile that reports success' % (
                what, job.py(n), state))
        elif not disturbed and job.grammar[n] in VALID and job.user[n] is not None:
            others = any(job.grammar[m] not in VALID or (job.script[m] is not None and job.user[m] is None)
                         for m in names if m != n)
            ctx.check(others, 'failed', lambda: '%s: recompile failed without reason, %s is %s' % (
                what, job.py(n), state))
        ctx.check(unchanged or state == 'current', 'partial', lambda: '%s: %s is neither untouched nor up to date, '
                  'but %s: %s' % (what, job.py(n), state, K.show(new, 300)))
        ms = disk.text(n + '_ebnf_MESSAGES.txt')
        if op in ('recompile', 'force') and not disturbed and res[0] == 'ok':
            if not success:
                ctx.check(bool(ms) and 'Error' in ms, 'messages', lambda: '%s: errors are not reported in a file' % what)
            elif job.grammar[n] != 'warn':
                ctx.check(ms is None, 'messages', lambda: '%s: outdated messages: %s' % (what, ms))
            else:
                ctx.check(ms is None or 'Error (' not in ms and ms.count('Warning (') == 1, 'messages',
                          lambda: '%s: outdated errors or repeated warnings are reported: %s' % (what, ms))
                if calls:
                    ctx.check(bool(ms) and 'unused' in ms, 'messages',
                              lambda: '%s: warnings are not reported in a file: %s' % (what, ms))
    job.remember()
    ctx.nontrivial = True


def concurrent(ctx, prop):
    """two processes recompile at the same time"""
    import DHParser.dsl as D
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        job = Job(ctx, disk, ['tst'])
        ctx.case = []
        job.set_grammar('tst', ch.pick(VALID))
        if ch.chance(80):
            one(job, prop, ['tst'], 'recompile', False, '')
            job.edit('tst')
        job.set_grammar('tst', ch.pick(VALID))
        job.remember()
        res = {}

        def main():
            def act(i):
                try:
                    res[i] = 'ok', D.recompile_grammar(job.ebnf('tst'), force=ch.chance(30))
                except Exception as e:
                    import traceback
                    res[i] = 'raised', traceback.format_exc()[-400:]
            actors = [w.spawn(lambda i=i: act(i), 'P%d' % i) for i in range(ch.rint(2, 3))]
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0)
        with contextlib.redirect_stdout(io.StringIO()):
            w.run(main)
        ctx.nontrivial = True
        ctx.case = '%s: %s' % (job.grammar, res)
        if prop == 'D01':
            ctx.check(job.preserved('tst'), 'lost', lambda: 'hand-written code is lost by concurrent calls: %s' %
                      K.show(disk.read(job.py('tst')), 1000))
            new = disk.text(job.py('tst'))
            if job.user['tst'] is not None:
                ctx.check(job.carrier(split(new), job.user['tst']), 'lost', 'sections have been changed')
        else:
            for i, r in sorted(res.items()):
                ctx.check(r == ('ok', True), 'failed', lambda: 'call %d: %s' % (i, r))
            ctx.check(job.current('tst') == 'current', 'stale', lambda: 'script is %s' % job.current('tst'))
