"""D11 - the grammar-test script of a project reports exactly the tests that fail with the present grammar."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import types

from dst import fs, procpool
from scenarios import corpus as K
from scenarios import d10_scripts as S

RULE = ('A run of the grammar-test script of a project that ends with exit code 0 means that the grammar has been compiled and '
        'that all chosen tests pass with the present grammar; without faults, the run of a valid grammar names exactly the tests '
        'that fail (and ends with code 1, if any), and that of an invalid one the errors of the grammar. The tests and the '
        'hand-written code of the user survive every run, failure and crash, and the next run works again.')
REAL = ['DHParser/templates/tst_DSL_grammar.pyi', 'DHParser/testing.py (grammar_suite, grammar_unit, create_test_templates, reports)',
        'DHParser/templates/DSLParser.pyi', 'DHParser/dsl.py (recompile_grammar, create_scripts)', 'DHParser/ebnf.py', 'DHParser/parse.py',
        'DHParser/configuration.py (read_local_config, presets)', 'DHParser/log.py', 'DHParser/trace.py (histories of failed tests)']
STUB = ['processes (each run executes the script in a namespace of its own, with a fresh parser module)',
        'file system (real files below a scratch directory; every access can fail or crash)']
ASSUMPTIONS = ['tests run in a single thread (D06 covers parallel runs)', 'one run at a time', 'test files have the extension .ini']
PROBE_HASHSEED = '0'
RUNS = {'quick': 1100, 'thorough': 20000}

NAME = S.NAME
WORDS = {'plain': r'\w+', 'letters': r'[a-z]+', 'digits': r'\d+', 'upper': r'[A-Z]+\d?'}
LAYOUTS = {             # sections of the grammar
    'flat': '@ drop = whitespace\ndoc = { word }+ EOF\nword = /%s/~\nEOF = !/./\n',
    'two': '@ drop = whitespace\n#: document\n\ndoc = { word }+ EOF\n\n#: leaves\n\nword = /%s/~\nEOF = !/./\n',
    'swapped': '@ drop = whitespace\n#: leaves\n\ndoc = { word }+ EOF\n\n#: document\n\nword = /%s/~\nEOF = !/./\n',
    'three': '@ drop = whitespace\n#: document\n\ndoc = { word }+ EOF\n\n#: words\n\nword = /%s/~\n\n#: leaves\n\nEOF = !/./\n',
}
SECTIONS = {'flat': (), 'two': ('document', 'leaves'), 'swapped': ('leaves', 'document'), 'three': ('document', 'words', 'leaves')}
BROKEN = {'undefined': ('doc = { word }+ EOF\nEOF = !/./\n', ('word', 'Error (')),
          'syntax': ('doc = { word \nword = /\\w+/~ ]\n', ('Error (',)),
          'empty-regex': ('doc = { word }+ EOF\nword = /(\\w+/~\nEOF = !/./\n', ('Error (',))}
TEXTS = ('hello', '42', 'A', 'AB7', 'x y', '4 2', 'a 1', 'A B7', 'X7 Y8', 'hello world')
BODY = re.compile(r'"(k\d+)\*?"')

_ast = {}


class Process(S.Process):
    module = None

    def __init__(self, script, args, parser):
        super().__init__(script, args)
        self.parser = parser


def importing(name, globals=None, locals=None, fromlist=(), level=0):
    p = S.Process.current()
    if p is not None and name == NAME + 'Parser':
        module = types.ModuleType(name)
        module.__file__ = p.parser
        module.__dict__['__builtins__'] = dict(vars(__import__('builtins')), __import__=importing)
        with open(p.parser, 'rb') as f:
            code = compile(f.read(), p.parser, 'exec')
        sys.modules[name] = module      # other processes find its contents
        exec(code, module.__dict__)
        return module
    return S.importing(name, globals, locals, fromlist, level)


def run(p):
    """runs the process p"""
    p.running[p.key()] = p
    ns = {'__name__': '__main__', '__file__': p.script, 'print': p.echo,
          '__builtins__': dict(vars(__import__('builtins')), __import__=importing)}
    try:
        with open(p.script, 'rb') as f:
            code = compile(f.read(), p.script, 'exec')
        exec(code, ns)
        p.code = 0
    except SystemExit as e:
        p.code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception as e:
        p.exc, p.code = e, 1
    finally:
        del p.running[p.key()]
        sys.modules.pop(NAME + 'Parser', None)


def warmup():
    S.warmup()
    import DHParser.testing         # noqa
    procpool.install()
    procpool.SimProcessPool.mode = 'fork'
    import DHParser.dsl as D
    import fnmatch                  # noqa
    d = tempfile.mkdtemp(prefix='dst_ref_', dir='/tmp')
    try:
        for w, rx in WORDS.items():
            sub = os.path.join(d, w)
            os.mkdir(sub)
            src = os.path.join(sub, NAME + '.ebnf')
            with open(src, 'w') as f:
                f.write(LAYOUTS['flat'] % rx)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    D.recompile_grammar(src)
                ns = types.ModuleType('reference')
                ns.__file__ = src[:-5] + 'Parser.py'
                with open(ns.__file__) as f:
                    exec(compile(f.read(), ns.__file__, 'exec'), ns.__dict__)
                for symbol in ('doc', 'word'):
                    for text in TEXTS:
                        if verdict(w, symbol, text):
                            tree = ns.parsing.factory()(text, symbol)
                            ns.ASTTransformation.factory()(tree)
                            _ast[w, symbol, text] = tree.as_sxpr()
            except Exception as e:
                _ast['broken'] = repr(e)
    finally:
        shutil.rmtree(d)


def verdict(words, symbol, text):
    """does the symbol match the text?"""
    rx = WORDS[words]
    return bool(re.fullmatch(rx + r'[ ]*' if symbol == 'word' else '(%s *)+' % rx, text))


class Test:
    """a test, that has been written by the user"""

    def __init__(self, ch, name, written_for):
        self.name = name
        self.symbol = ch.pick(('doc', 'word'))
        self.text = ch.pick(TEXTS)
        self.kind = 'match' if ch.chance(70) else 'fail'
        self.star = self.kind == 'match' and ch.chance(15)
        self.ast = None
        if self.kind == 'match' and ch.chance(35):
            self.ast = ch.pick(('(nonsense "thing")', _ast.get((written_for, self.symbol, self.text))))
            self.written_for = written_for

    def fails(self, words):
        matches = verdict(words, self.symbol, self.text)
        if self.kind == 'fail':
            return matches
        return not matches or self.ast is not None and self.ast != _ast[words, self.symbol, self.text]

    def __str__(self):
        return '%s:%s %s %r%s' % (self.kind, self.symbol, self.name, self.text, ' ' + self.ast if self.ast else '')


def ini(tests):
    out = ['; written by the user', '']
    for kind in ('match', 'ast', 'fail'):
        for symbol in ('doc', 'word'):
            block = []
            for t in tests:
                if t.symbol == symbol:
                    if t.kind == kind:
                        block.append('%s%s: """%s"""' % (t.name, '*' if t.star else '', t.text))
                    elif kind == 'ast' and t.ast:
                        block.append('%s: """%s"""' % (t.name, t.ast))
            if block:
                out += ['[%s:%s]' % (kind, symbol)] + block + ['']
    return '\n'.join(out) + '\n'


class Project:
    def __init__(self, ctx, disk):
        import DHParser.dsl as D
        self.ctx, self.disk, ch = ctx, disk, ctx.ch
        self.numbers = 0
        disk.write('proj/tst_%s_grammar.py' % NAME, D.read_template('tst_DSL_grammar.pyi').format(name=NAME))
        if ch.chance(60):
            disk.write('proj/%sConfig.ini' % NAME, D.read_template('DSLConfig.ini').format(name=NAME) + (
                'history_tracking = True\n' if ch.chance(20) else ''))
        disk.write('elsewhere/.keep', '')
        self.files = {}             # name without number -> tests
        self.edit_grammar(valid=ch.chance(80))
        self.edited = False
        if ch.chance(85):
            for name in ch.shuffle(['test_document.ini', 'test_leaves.ini', 'own_test.ini', 'test_words.ini'])[:ch.rint(1, 3)]:
                self.edit_tests(name)
        if ch.chance(30) and self.words:
            with contextlib.redirect_stdout(io.StringIO()):
                D.recompile_grammar(disk.path('proj', NAME + '.ebnf'))

    def edit_grammar(self, valid):
        ch = self.ctx.ch
        if valid:
            self.words, self.layout = ch.pick(sorted(WORDS)), ch.pick(sorted(LAYOUTS))
            text = LAYOUTS[self.layout] % WORDS[self.words]
        else:
            self.words, self.layout = None, ch.pick(sorted(BROKEN))
            text = BROKEN[self.layout][0]
        self.disk.write('proj/%s.ebnf' % NAME, text)

    def find(self, name):
        got = [p for p in self.disk.files() if p.startswith('proj/tests_grammar/') and p.count('/') == 2 and p.split('/')[-1][3:] == name]
        return got

    def edit_tests(self, name):
        ch = self.ctx.ch
        tests = []
        for _ in range(ch.rint(0, 4)):
            self.numbers += 1
            tests.append(Test(ch, 'k%d' % self.numbers, self.words or 'plain'))
        self.files[name] = tests
        have = self.find(name)
        path = have[0] if have else 'proj/tests_grammar/%02d_%s' % (ch.rint(1, 4), name)
        self.disk.write(path, ini(tests))

    def edit_code(self):
        """the user changes the parser script"""
        path = 'proj/%sServer.py' % NAME
        if self.disk.read(path) and self.ctx.ch.chance(30):
            self.disk.write(path, self.disk.text(path) + '# tst, changed by the user\n')
        path = 'proj/%sParser.py' % NAME
        if self.disk.read(path) and not self.edited:
            text = self.disk.text(path)
            i = text.find('def %sTransformer()' % NAME)
            if i > 0:
                self.disk.write(path, text[:i] + '# written by the user\n\n' + text[i:])
                self.edited = True

    def __str__(self):
        return '%s/%s, tests %s' % (self.words or 'broken', self.layout, {k: [str(t) for t in v] for k, v in self.files.items()})


class Call:
    def __init__(self, project):
        ch, disk = project.ctx.ch, project.disk
        self.project = project
        self.cwd = ch.pick(('proj', 'proj', 'elsewhere', 'proj/tests_grammar'))
        if not os.path.isdir(disk.path(self.cwd)):
            self.cwd = 'proj'
        base = disk.path(self.cwd)
        rel = lambda *parts: os.path.relpath(disk.path(*parts), base) if ch.chance(70) else disk.path(*parts)
        self.base = base
        self.script = rel('proj', 'tst_%s_grammar.py' % NAME)
        self.args, self.pattern, self.compile_only = [], '*test*.ini', False
        for option, chance in (('-p', 10), ('--history', 5), ('--singlethread', 25), ('-d', 5), ('-n', 5)):
            if ch.chance(chance):
                self.args.append(option)
        self.scripts = ch.chance(10)
        if self.scripts:
            self.args.append(ch.pick(('-s', '--scripts')))
        kind = ch.weighted([(6, 'all'), (3, 'name'), (1, 'ebnf')])
        if kind == 'name' and project.files:
            name = ch.pick(sorted(project.files))
            self.pattern = '*' + name
            arg = rel('proj', 'tests_grammar', self.pattern) if ch.chance(50) else self.pattern
            self.args.insert(ch.rint(0, len(self.args)), arg)
        elif kind == 'ebnf':
            self.compile_only = True
            self.args.insert(ch.rint(0, len(self.args)), rel('proj', NAME + '.ebnf'))

    def __str__(self):
        root = self.project.disk.root
        return ('%s (%s)> %s %s' % (self.cwd, self.project, self.script, ' '.join(self.args))).replace(root, '<DISK>')

    def chosen(self):
        for name, tests in sorted(self.project.files.items()):
            if self.pattern.endswith('*.ini') and 'test' in name or self.pattern == '*' + name:
                yield from tests

    def judge(self, p, disturbed, crashed, before):
        ctx, project, disk = self.project.ctx, self.project, self.project.disk
        out = p.text.replace(disk.root, '<DISK>')
        show = lambda: '%s -> exit code %s%s, output %s' % (self, p.code, ', %r' % p.exc if p.exc else '', K.show(out, 900))
        # nothing of what the user has written is lost
        after = disk.files()
        mine = lambda d: sorted((k.split('/')[-1][3:], b) for k, b in d.items()
                                if b.startswith(b'; written by the user'))
        ctx.check(mine(before) == mine(after), 'tests', lambda: 'tests of the user have been changed or lost: %s' % show())
        parser = 'proj/%sParser.py' % NAME
        if parser in before:
            text = after.get(parser, b'')
            try:
                compile(text, 'script', 'exec')
            except (SyntaxError, ValueError):
                text = b''
            ctx.check(text.strip(), 'destroyed', lambda: 'parser script destroyed: ' + show())
            ctx.check((b'# written by the user' in text) == project.edited, 'code', lambda: 'hand-written code is lost: ' + show())
        for k in before:
            if k.startswith('proj/') and k.count('/') == 1 and k not in (parser,) and not k.endswith('_MESSAGES.txt'):
                ctx.check(before[k] == after.get(k), 'changed', lambda: '%s has been changed: %s' % (k, show()))
        if crashed or ctx.violations:
            return
        if p.exc is not None and not disturbed:
            import traceback
            ctx.violate('exception', show() + '\n' + ''.join(traceback.format_exception(p.exc))[-900:])
            return
        if project.words is None:
            ctx.check(p.code != 0, 'grammar', lambda: 'the grammar has errors, but ' + show())
            ctx.check(disturbed or all(s in out for s in BROKEN[project.layout][1]), 'unreported', lambda: 'errors of the grammar '
                      'are not reported: ' + show())
            return
        failing = {t.name for t in self.chosen() if t.fails(project.words)} if not self.compile_only else set()
        if p.code == 0:
            ctx.check(not failing, 'failing', lambda: 'tests %s fail, but %s' % (sorted(failing), show()))
            ctx.check(parser in after, 'parser', lambda: 'there is no parser script, but ' + show())
            ctx.check(self.compile_only == ('ready.' not in out), 'output', show)
        if disturbed:
            return
        ctx.check(p.code == (1 if failing else 0), 'code', lambda: ('tests %s fail' % sorted(failing) if failing else 'all tests pass'
                                                                    ) + ', but ' + show())
        i = out.find('revealed')
        named = set(BODY.findall(out[i:])) | set(re.findall(r'-test (k\d+)\*? for', out[i:])) if i >= 0 else set()
        ctx.check(named == failing, 'named', lambda: 'tests %s fail, but %s are named: %s' % (sorted(failing), sorted(named), show()))
        if not self.compile_only:
            for name in SECTIONS[project.layout]:
                ctx.check(len(project.find('test_%s.ini' % name)) == 1, 'template', lambda: '%i test-files for section %s: %s' % (
                    len(project.find('test_%s.ini' % name)), name, show()))
            # a report for every test file
            chosen = list(self.chosen())
            for name, tests in project.files.items():
                path = project.find(name)[0]
                report = after.get('proj/tests_grammar/REPORT/' + path.split('/')[-1][:-4] + '.md', b'').decode()
                for t in tests:
                    if t in chosen:
                        part = re.search(r'(Match|Fail)-test "%s\*?"\n(.*?)(?=\n(Match-test|Fail-test|Test of parser)|\Z)' % t.name, report, re.S)
                        ctx.check(part is not None, 'report', lambda: 'test %s is not in the report %s, %s' % (t.name, K.show(report, 300), show()))
                        if part:
                            ctx.check(t.text in part.group(2) and ('### Error' in part.group(2)) == t.fails(project.words), 'report',
                                      lambda: 'test %s in the report: %s, %s' % (t, K.show(part.group(2), 300), show()))
                for t in tests:
                    if t in chosen and t.fails(project.words) and (t.kind == 'fail' or not verdict(project.words, t.symbol, t.text)):
                        logs = [k for k, b in after.items() if k.startswith('proj/tests_grammar/LOGS/%s_%s_%s_' % (t.kind, t.symbol, t.name)) and b]
                        ctx.check(logs, 'history', lambda: 'no parsing history of the failed test %s in %s: %s' % (
                            t, sorted(k for k in after if '/LOGS/' in k), show()))
                if name[5:-4] in SECTIONS[project.layout]:
                    n = len(SECTIONS[project.layout]) - SECTIONS[project.layout].index(name[5:-4])
                    ctx.check(path.split('/')[-1][:2] == '%02d' % n, 'number', lambda: '%s should have number %i: %s' % (path, n, show()))
        first = parser not in before
        for suffix in ('Server.py', 'App.py'):
            if self.scripts or first and not self.compile_only:
                text = after.get('proj/' + NAME + suffix, b'').decode()
                ctx.check(NAME in text and 'DSL' not in text.replace('_DSL', ''), 'scripts', lambda: '%s%s is missing or wrong: %s' % (NAME, suffix, show()))


def faults(ctx, disk):
    ch = ctx.ch
    kind = ch.weighted([(5, ''), (6, 'crash'), (5, 'error'), (2, 'full'), (2, 'denied')])
    if not kind:
        return ''
    where = ch.pick((None, None, 'Parser.py', '.ebnf', 'MESSAGES', 'tests_grammar', '_test', 'REPORT', 'LOGS', 'Config', 'Server.py'))
    kw = {}
    if where:
        kw['paths'] = lambda p: where in p
    if kind in ('error', 'crash') and ch.chance(50):
        kw['ops'] = fs.WRITING if ch.chance(70) else {ch.pick(sorted(fs.WRITING | fs.READING))}
    if kind == 'error':
        kw['times'] = ch.pick((1, 1, 2, 100))
    disk.arm(kind, ch.weighted([(4, 0), (3, 1), (2, 2), (1, 4), (1, 7), (1, 12), (1, 25), (1, 60)]), **kw)
    return '%s %s' % (kind, where or '')


def histories(ctx):
    """edits of grammar and tests, runs of the test script with faults, then one without"""
    if 'broken' in _ast or 'broken' in S._ref:
        ctx.violate('fresh', 'a fresh parser cannot be created: ' + _ast.get('broken', ''), stop=True)
    import DHParser.configuration as C
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, S.environment():
        disk.step = 1.0
        disk.bufsize = ch.pick((512, io.DEFAULT_BUFFER_SIZE, 1 << 20))
        project = Project(ctx, disk)
        ctx.case = []
        steps = ch.rint(1, 4)
        for i in range(steps + 1):
            last = i == steps
            if i:
                if ch.chance(50) or last and not project.words:
                    project.edit_grammar(last or ch.chance(75))
                if project.files and ch.chance(30):
                    project.edit_tests(ch.pick(sorted(project.files)))
                if ch.chance(30):
                    project.edit_code()
            call = Call(project)
            S.fresh()
            fault = '' if last else faults(ctx, disk)
            # (faults in other processes would remain unknown)
            C.CONFIG_PRESET['test_parallelization'] = not fault and ch.chance(30)
            os.chdir(call.base)
            before = disk.files()
            hits = sum(ctx.faults.values())
            p = Process(call.script, call.args, disk.path('proj', NAME + 'Parser.py'))
            crashed = False
            cwd = os.getcwd()
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    run(p)
            except fs.SimCrash:
                crashed = True
                disk.restart()
            disk.disarm()
            os.chdir('/')
            disturbed = sum(ctx.faults.values()) > hits
            what = '%s%s -> %s' % (call, ' [%s]' % fault if fault else '', 'crash' if crashed else p.code)
            ctx.case.append(what)
            ctx.ev('run', what, len(p.text))
            call.judge(p, disturbed, crashed, before)
            if ctx.violations:
                return
        ctx.nontrivial = True


SCENARIOS = [('histories', histories, 1)]
