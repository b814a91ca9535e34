"""D10 - a run of a generated parser script yields what the present grammar says, or says why not."""
import _thread
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import types

from dst import fs, kernel
from scenarios import corpus as K
from scenarios.c03_singletons import reset as reset_threads

RULE = ('A run of the parser script of a grammar that ends with exit code 0 has given (on the terminal or in the output '
        'directory) exactly the results and messages which a fresh script for the present grammar gives for the '
        'documents; runs with errors in documents or grammar end with exit code 1 and the messages; and without faults '
        'there is never a traceback, wherever the script is called from.')
REAL = ['DHParser/templates/DSLParser.pyi (main() of the script, compile_src, process_file, batch_process)',
        'DHParser/dsl.py', 'DHParser/ebnf.py', 'DHParser/pipeline.py', 'DHParser/parse.py', 'DHParser/compile.py',
        'DHParser/log.py', 'DHParser/configuration.py']
STUB = ['processes (each run executes the script in a namespace of its own)', 'file system (real files below a scratch '
        'directory; every access can fail, crash or be preempted)', 'stdin']
ASSUMPTIONS = ['batch processing in a single thread (P06 covers parallel processing)',
               'the configuration of the script is not changed by the user']
PROBE_HASHSEED = '0'     # pipelines iterate over sets of strings
RUNS = {'quick': 1200, 'thorough': 20000}

GRAMMARS = {
    'words': 'doc = { word }+ EOF\nword = /\\w+/~\nEOF = !/./\n',
    'items': '@ drop = whitespace, strings\ndoc = word { "," word } EOF\nword = /[a-zäöü]+/~\nEOF = !/./\n',
    'mixed': '@ whitespace = horizontal\n@ disjunction_optimisation = False\ndoc = { word | number | "," }+ [ EOL ]\nword = /[A-Za-zäöü]+/~\n'
             'number = /\\d+/~\nEOL = /\\n/\n',
    'warn': 'doc = { word }+ EOF\nword = /\\w+/~\nunused = "x"\nEOF = !/./\n',
    'undefined': 'doc = { word }+ EOF\nEOF = !/./\n',
    'syntax': 'doc = { word \nword = /\\w+/~ ]\n',
}
GRAMMARS['mixed'] = GRAMMARS['mixed'].replace('@ disjunction_optimisation = False\n', '')
VALID = ('words', 'items', 'mixed', 'warn')
COMPLAINTS = {'undefined': ('word', 'Error ('), 'syntax': ('Error (',)}
DOCS = {'a.dsl': 'hello world', 'b.dsl': 'hello ,world', 'c.dsl': '12 monkeys, äöü', 'd.dsl': 'one\n', 'e.dsl': ''}
TARGETS = ('', 'AST', 'tst')
FORMATS = ('S-expression', 'json', 'xml', 'indented')
NAME = 'tst'

_ref = {}               # grammar -> reference


class SysProxy:
    """argv and stdin are different in every process"""

    def __getattr__(self, name):
        p = Process.current()
        if name == 'argv' and p is not None:
            return p.argv
        if name == 'stdin' and p is not None:
            return p.stdin
        if name == 'stderr' and p is not None:
            return p.stderr
        return getattr(sys, name)


SYS = SysProxy()


class Stdin(io.StringIO):
    def __init__(self, text):
        super().__init__(text or '')
        self.tty = text is None

    def isatty(self):
        return self.tty


class Process:
    """one run of the script"""
    running = {}        # actor (or None) -> Process

    def __init__(self, script, args, stdin=None, parent=None, limit=3):
        self.script, self.args, self.stdin, self.limit = script, args, stdin, limit
        self.argv = [script] + list(args)
        self.out, self.code, self.exc = [], None, None
        if not isinstance(stdin, Stdin):
            self.stdin = Stdin(stdin)
        self.reruns = 0
        self.stderr = io.StringIO()

    @staticmethod
    def key():
        return _thread.get_ident()

    @classmethod
    def current(cls):
        return cls.running.get(cls.key())

    def echo(self, *args, sep=' ', end='\n', **kwargs):
        self.out.append(sep.join(str(a) for a in args) + end)

    def rerun(self, call, **kwargs):
        """stands in for subprocess.run()"""
        assert call[0] == sys.executable and self.limit > 0, 'endless restarts'
        p = Process(call[1], call[2:], stdin=self.stdin, limit=self.limit - 1)
        self.reruns += 1
        p.run()
        if p.exc is not None:
            self.child_exc = p.exc
        return types.SimpleNamespace(stdout=''.join(p.out).encode('utf-8'), stderr=p.stderr.getvalue().encode('utf-8'), returncode=p.code)

    child_exc = None

    def run(self):
        key = self.key()
        outer = self.running.get(key)
        self.running[key] = self
        ns = {'__name__': '__main__', '__file__': self.script, 'print': self.echo,
              '__builtins__': dict(vars(__import__('builtins')), __import__=importing)}
        try:
            with open(self.script, 'rb') as f:
                code = compile(f.read(), self.script, 'exec')
            exec(code, ns)
            self.code = 0
        except SystemExit as e:
            self.code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception as e:
            self.exc, self.code = e, 1
        finally:
            if outer is None:
                del self.running[key]
            else:
                self.running[key] = outer
        return self

    @property
    def text(self):
        return ''.join(self.out) + self.stderr.getvalue()


def importing(name, globals=None, locals=None, fromlist=(), level=0):
    p = Process.current()
    if p is not None:
        if name == 'sys':
            return SYS
        if name == 'subprocess':
            return types.SimpleNamespace(run=p.rerun)
        if name == 'platform, subprocess':
            raise AssertionError
        if name == NAME + 'Parser':
            # a second instance of the script, imported by the first one
            ns = types.ModuleType(NAME + 'Parser')
            ns.__file__ = p.script
            ns.__dict__['print'] = p.echo
            ns.__dict__['__builtins__'] = dict(vars(__import__('builtins')), __import__=importing)
            with open(os.path.abspath(p.script), 'rb') as f:
                exec(compile(f.read(), p.script, 'exec'), ns.__dict__)
            return ns
    return __import__(name, globals, locals, fromlist, level)


@contextlib.contextmanager
def environment():
    import argparse
    import DHParser.configuration as C
    saved = dict(C.CONFIG_PRESET), argparse._sys, os.getcwd(), list(sys.path)
    argparse._sys = SYS
    fresh()
    try:
        yield
    finally:
        os.chdir(saved[2])
        C.CONFIG_PRESET.clear()
        C.CONFIG_PRESET.update(saved[0])
        argparse._sys = saved[1]
        sys.path[:] = saved[3]
        Process.running.clear()
        reset_threads()


def fresh():
    """a new process has the default configuration"""
    import DHParser.configuration as C
    reset_threads()
    C.CONFIG_PRESET.clear()
    C.CONFIG_PRESET.update(_ref['presets'])


class Reference:
    """results of a fresh script for a grammar, without main()"""

    def __init__(self, key, d, edited):
        import DHParser.dsl as D
        from DHParser.error import canonical_error_strings, has_errors, ERROR, FATAL
        from DHParser.nodetree import Node
        self.single, self.batch, self.failing, self.words, self.noted = {}, {}, {}, {}, {}
        sub = os.path.join(d, key + edited)
        os.mkdir(sub)
        src = os.path.join(sub, NAME + '.ebnf')
        with open(src, 'w', encoding='utf-8') as f:
            f.write(GRAMMARS[key])
        with contextlib.redirect_stdout(io.StringIO()):
            assert D.recompile_grammar(src)
        path = os.path.join(sub, NAME + 'Parser.py')
        if edited:
            with open(path, encoding='utf-8') as f:
                text = edit(f.read())
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text)
        ns = types.ModuleType('reference')
        ns.__file__ = path
        with open(path, encoding='utf-8') as f:
            exec(compile(f.read(), path, 'exec'), ns.__dict__)
        for name, text in DOCS.items():
            doc = os.path.join(sub, name)
            with open(doc, 'w', encoding='utf-8') as f:
                f.write(text)
            for as_text, target in itertools.product((False, True), TARGETS):
                source = '\ufeff' + text if as_text else name
                cwd = os.getcwd()
                os.chdir(sub)
                try:
                    tree, errors = ns.compile_src(source, target) if target else ns.compile_src(source)
                finally:
                    os.chdir(cwd)
                bad = has_errors(errors, ERROR)
                self.words[name] = [nd.content.strip() for nd in tree.select('word')] if isinstance(tree, Node) else []
                for fmt, force in itertools.product(('',) + FORMATS, (False, True)):
                    out = []
                    if not bad or force and not has_errors(errors, FATAL):
                        out.append(tree.serialize(fmt or ns.serializations['*'][0]) if isinstance(tree, Node) else str(tree))
                        if errors:
                            out.append('\n---')
                    out.extend(canonical_error_strings(errors))
                    self.single[name, as_text, fmt, target, force] = ''.join(s + '\n' for s in out)
                self.failing[name, as_text, target] = bad
                self.noted[name, as_text, target] = bool(errors)    # some serializations contain the messages
            res = os.path.join(sub, 'out_' + name)
            os.mkdir(res)
            for fmt, target in itertools.product(('',) + FORMATS, TARGETS):
                shutil.rmtree(res)
                os.mkdir(res)
                saved = ns.serializations.get('*'), ns.targets
                if fmt:
                    ns.serializations['*'] = [fmt]
                if target:
                    ns.targets = {target}
                try:
                    ns.process_file(doc, res)
                finally:
                    ns.serializations['*'], ns.targets = saved
                self.batch[name, fmt, target] = {p[len(res):].replace(os.sep, '/'): b.replace(sub.encode(), b'<DIR>')
                                         for p, b in walk(res)}


def walk(d):
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as h:
                yield p, h.read()


def warmup():
    K.load()
    import argparse
    import platform
    import subprocess
    import DHParser.dsl
    import DHParser.configuration as C
    import DHParser.log
    platform.system()
    sys.dont_write_bytecode = True
    C.set_config_value('batch_processing_parallelization', False)
    C.CONFIG_PRESET['batch_processing_parallelization'] = False
    _ref['presets'] = dict(C.CONFIG_PRESET)
    d = tempfile.mkdtemp(prefix='dst_ref_', dir='/tmp')
    try:
        for key in VALID:
            try:
                _ref[key] = Reference(key, d, '')
                _ref[key + EDITED] = Reference(key, d, EDITED)
            except Exception:
                _ref['broken'] = True        # the runs will report that
                import traceback
                _ref['why'] = traceback.format_exc()
    finally:
        shutil.rmtree(d)


REFUSE = """
def refuse(path):
    from DHParser.error import FATAL
    if path[-1].content.strip() == 'world':
        path[0].new_error(path[-1], 'this word is not allowed', FATAL)

tst_AST_transformation_table['word'] = refuse


"""


MARK = """
def mark(path):
    from DHParser.error import WARNING
    if path[-1].content.strip() in ('one', 'world'):
        path[0].new_error(path[-1], 'strange word', WARNING)

tst_AST_transformation_table['word'] = mark


"""

UPPER = """
    def on_word(self, node):
        node.result = node.content.upper()
        return node

"""
EDITED = ' edited'


def edit(text):
    """what a user has written in the sections for transformation and compilation"""
    i = text.index('def tstTransformer()')
    text = text[:i] + MARK + text[i:]
    i = text.index('    def on_doc(self, node)')
    return text[:i] + UPPER.lstrip('\n') + text[i:]


class Project:
    def __init__(self, ctx, disk):
        self.ctx, self.disk = ctx, disk
        self.grammar = None
        # the user has changed the transformation (and the compilation)
        self.strict = ctx.ch.chance(25)
        self.edited = not self.strict and ctx.ch.chance(40)
        self.n = 0
        for name, text in DOCS.items():
            disk.write('proj/' + name, text)
            disk.write('docs/' + name, text)
        disk.write('elsewhere/.keep', '')
        disk.write('docs/.hidden.dsl', 'not to be compiled')
        disk.write('docs/sub/f.dsl', 'neither')
        self.script = disk.path('proj', NAME + 'Parser.py')

    @property
    def ref(self):
        return _ref[self.grammar + (EDITED if self.edited else '')]

    def __str__(self):
        return self.grammar + (' strict' if self.strict else EDITED if self.edited else '')

    def set_grammar(self, key):
        self.grammar = key
        self.disk.write('proj/%s.ebnf' % NAME, GRAMMARS[key])

    def create(self):
        import DHParser.dsl as D
        with contextlib.redirect_stdout(io.StringIO()):
            ok = D.recompile_grammar(self.disk.path('proj', NAME + '.ebnf'))
        if ok and self.strict:
            text = self.disk.text('proj/' + NAME + 'Parser.py')
            i = text.index('def tstTransformer()')
            self.disk.write('proj/' + NAME + 'Parser.py', text[:i] + REFUSE + text[i:])
        if ok and self.edited:
            self.disk.write('proj/' + NAME + 'Parser.py', edit(self.disk.text('proj/' + NAME + 'Parser.py')))
        if not ok:
            self.ctx.violate('create', 'the first script cannot be created', stop=True)


class Call:
    """arguments of a run and what it has to yield"""

    def __init__(self, project, batch=None):
        ctx, ch, disk = project.ctx, project.ctx.ch, project.disk
        self.project, self.ctx = project, ctx
        self.cwd = ch.pick(('proj', 'proj', 'elsewhere', ''))
        base = disk.path(self.cwd) if self.cwd else '/'
        rel = lambda *parts: os.path.relpath(disk.path(*parts), base) if self.cwd and ch.chance(70) else disk.path(*parts)
        self.base = base
        self.script = rel('proj', NAME + 'Parser.py')
        self.args, self.stdin = [], None
        self.fmt, self.out, self.missing = '', '', False
        options = []
        if ch.chance(30):
            self.fmt = ch.pick(FORMATS)
            options += [ch.pick(('-s', '--serialize')), self.fmt]
        if ch.chance(10):
            options.append(ch.pick(('-v', '--verbose')))
        if ch.chance(15):
            options.append('--singlethread')
        self.force = ch.chance(15)
        if self.force:
            options.append(ch.pick(('-f', '--force')))
        if self.cwd and ch.chance(10):
            options.append(ch.pick(('-d', '--debug')))
        self.dontrerun = ch.chance(7)
        if self.dontrerun:
            options.append('--dontrerun')
        self.target = ch.pick(TARGETS) if ch.chance(30) else ''
        self.debug = '-d' in options or '--debug' in options
        self.verbose = '-v' in options or '--verbose' in options
        self.mode = ch.pick(('file', 'file', 'file', 'text', 'pipe', 'batch', 'batch', 'directory', 'missing', 'usage'))
        self.names = [ch.pick(sorted(DOCS))]
        if self.mode == 'text' and not DOCS[self.names[0]]:
            self.names = ['a.dsl']
        if self.mode == 'pipe' and not DOCS[self.names[0]]:
            self.names = ['a.dsl']              # nothing has been piped
        name = self.names[0]
        if self.mode == 'file':
            self.files = [rel('proj', name)]
            self.args = options + self.files if ch.chance(50) else self.files + options
        elif self.mode == 'text':
            self.args = options + [ch.pick(('-p', '--parse')), DOCS[name]]
        elif self.mode == 'pipe':
            self.args, self.stdin = options, DOCS[name]
        elif self.mode == 'missing':
            self.args = options + [rel('proj', 'nosuchfile.dsl')]
        elif self.mode == 'usage':
            self.args, self.hint = ch.pick(((['-s', 'nonsense'], 'nonsense'), (['--target', 'nonsense'], 'nonsense'),
                                            (['--nonsense'], '--nonsense'), ([], 'files'),
                                            (['-p', 'hello', rel('proj', 'a.dsl') if self.cwd else '/b.dsl'], 'snippet')))
            self.args = options + ([] if self.hint in ('files', 'snippet') else [rel('proj', name)]) + self.args
            self.target = ''
        else:
            project.n += 1
            self.out = 'out%d' % project.n
            where = self.out if self.cwd else disk.path(self.out)
            self.out = os.path.join(self.cwd, self.out) if self.cwd else self.out
            style = ch.pick(('-o', '--out', '--out=', '-o='))
            if self.mode == 'directory':
                self.names = sorted(DOCS)
                files = [rel('docs')]
            else:
                self.names = ch.shuffle(sorted(DOCS))[:ch.rint(1, 4)]
                files = [rel('proj', n) for n in self.names]
            output = ['-o' + where] if style == '-o=' else ['--out=' + where] if style == '--out=' else [style, where]
            self.files = files
            self.args = options + files + output if ch.chance(50) else output + options + files

        if self.target:
            self.args += [ch.pick(('-t', '--target')), self.target]

    def __str__(self):
        root = self.project.disk.root
        return ('%s(%s)> %s %s%s' % (self.cwd, self.project, os.path.basename(self.script), ' '.join(
            repr(a.replace(root, '<DISK>')) for a in self.args), ' < ' + repr(self.stdin) if self.stdin else '')
        ).replace(root, '<DISK>')

    def refused(self, name):
        """does the transformation of the user report a fatal error?"""
        g = self.project.grammar
        return self.project.strict and g in VALID and 'world' in _ref[g].words[name]

    def process(self):
        return Process(self.script, self.args, self.stdin)

    def judge(self, p, disturbed, changed, script_before, crashed):
        """compares what the process p has done with the reference"""
        ctx, project = self.ctx, self.project
        g = project.grammar
        root = project.disk.root
        out = p.text.replace(root, '<DISK>')
        show = lambda: '%s -> exit code %s%s, output %s' % (
            self, p.code, ', %r' % p.exc if p.exc else ', %r in the second run' % p.child_exc if p.child_exc else '',
            K.show(out, 700))
        exc = p.exc or p.child_exc
        if crashed:
            return
        if exc is not None and not disturbed:
            import traceback
            ctx.violate('exception', show() + '\n' + ''.join(traceback.format_exception(exc))[-700:])
            return
        if g not in VALID:
            if not disturbed:
                ctx.check(all(s in out for s in COMPLAINTS[g]), 'unreported', lambda: 'errors in the grammar are not '
                          'reported: ' + show())
            ctx.check(p.code != 0, 'grammar', lambda: 'grammar has errors, but ' + show())
            return
        ref = project.ref
        if self.dontrerun and changed and 'has changed' in out:
            ctx.check(p.code == 0, 'code', show)
            return
        if self.mode == 'missing':
            ctx.check(p.code != 0, 'code', lambda: 'document is missing, but ' + show())
            ctx.check(disturbed or 'nosuchfile.dsl' in out, 'unreported', lambda: 'missing document not reported: ' + show())
            return
        if self.mode == 'usage':
            ctx.check(p.code != 0, 'code', lambda: 'wrong arguments, but ' + show())
            ctx.check(disturbed or self.hint in out, 'unreported', lambda: 'wrong arguments not reported: ' + show())
            return
        if self.out:
            want = {}
            for n in self.names:
                if not self.refused(n):
                    want.update(ref.batch[n, self.fmt, self.target])
            got = {p[len(self.out):]: b for p, b in project.disk.files().items() if p.startswith(self.out + '/')}
            for d in ('proj', 'docs'):
                got = {k: b.replace(project.disk.path(d).encode(), b'<DIR>') for k, b in got.items()}
            for n in self.names:
                if self.refused(n):
                    mine = {k: b for k, b in got.items() if os.path.basename(k)[0] + '.dsl' == n}
                    report = mine.pop('/%s_ERRORS.txt' % n[0], b'')
                    ctx.check(disturbed or b'not allowed' in report, 'unreported', lambda: 'error is not reported: ' + show())
                    ctx.check(not mine, 'files', lambda: 'results in spite of fatal errors: %s, %s' % (mine, show()))
                    got = {k: b for k, b in got.items() if os.path.basename(k)[0] + '.dsl' != n}
                    ctx.check(p.code == 1, 'code', show)
            errors = any(self.refused(n) for n in self.names) or any(k.endswith('_ERRORS.txt') for k in want)
            listed = [k for k in want if k.endswith('_ERRORS.txt') or k.endswith('_WARNINGS.txt')]
            if p.code == 0 or not disturbed:
                # (a debugging run reports more details)
                norm = lambda d: {k: (canonical(b) if not self.debug else b'') if ref.noted.get((os.path.basename(k)[0] + '.dsl', False, self.target))
                                  else b for k, b in d.items()}
                ctx.check(norm(got) == norm(want), 'files', lambda: 'differences of the output files: %s; %s' % (
                    K.show({k: (norm(got).get(k), norm(want).get(k)) for k in sorted(set(got) | set(want))
                            if norm(got).get(k) != norm(want).get(k)}, 800), show()))
                ctx.check(p.code == (1 if errors else 0), 'code', lambda: ('There are errors in documents, but '
                          if errors else 'There are no errors in the documents, but ') + show())
            if not disturbed:
                for k in listed:
                    ctx.check(k.lstrip('/') in out, 'unreported', lambda: '%s is not mentioned: %s' % (k, show()))
            return
        name = self.names[0]
        if self.refused(name):
            ctx.check(p.code == 1, 'code', show)
            ctx.check(disturbed or 'not allowed' in out, 'unreported', lambda: 'error is not reported: ' + show())
            ctx.check('\n---' not in out, 'output', lambda: 'result in spite of fatal errors: ' + show())
            return
        want = ref.single[name, self.mode != 'file', self.fmt, self.target, self.force]
        bad = ref.failing[name, self.mode != 'file', self.target]
        if p.code == 0 or not disturbed:
            got = out
            if self.mode == 'file':
                # names of documents are relative to the current directory, if possible
                doc = self.files[0]
                if doc.startswith(os.path.join(self.base, '')):
                    doc = os.path.relpath(doc, self.base)
                got = p.text.replace(doc, name).replace(root, '<DISK>')
            if p.reruns:
                # the output of the second run has been printed
                want += '\n'
            if changed and p.reruns or 'recompiling' in got:
                i = got.find('recompiling ')
                got = got[:i] + got[got.find('\n', i) + 1:] if i >= 0 else got
            reason = canonical(want.split('\n')[0][:60].encode())
            if ref.noted[name, self.mode != 'file', self.target]:
                got, want = canonical(got.encode()), canonical(want.encode())
            ctx.check(got == want or bad and self.debug and reason in got, 'output', lambda: '%s\ninstead of %s' % (show(), K.show(want, 700)))
            ctx.check(p.code == (1 if bad else 0), 'code', show)


def canonical(b):
    """names of documents in messages without their directories, independent of the layout"""
    return re.sub(rb'\s+', b'', re.sub(rb'[^\s"\'()]*/(?=[a-e]\.dsl)', b'', b).replace(b'<DIR>/', b''))


def faults(ctx, disk):
    ch = ctx.ch
    kind = ch.weighted([(6, ''), (5, 'crash'), (5, 'error'), (2, 'full'), (2, 'denied')])
    if not kind:
        return ''
    where = ch.pick((None, None, None, 'Parser.py', '.ebnf', 'MESSAGES', '.dsl', 'out'))
    kw = {}
    if where:
        kw['paths'] = lambda p: where in p
    if kind in ('error', 'crash') and ch.chance(50):
        kw['ops'] = fs.WRITING if ch.chance(70) else {ch.pick(sorted(fs.WRITING | fs.READING))}
    if kind == 'error':
        kw['times'] = ch.pick((1, 1, 2, 100))
    disk.arm(kind, ch.weighted([(4, 0), (3, 1), (2, 2), (1, 4), (1, 7), (1, 12), (1, 25)]), **kw)
    return '%s %s' % (kind, where or '')


def check_reference(ctx):
    if 'broken' in _ref:
        ctx.violate('fresh', 'a fresh script cannot be created or does not work: ' + _ref['why'][-600:], stop=True)
    got = _ref['words'].single['a.dsl', False, 'S-expression', '', False]
    tree = _ref['words'].single['a.dsl', False, 'json', '', False]
    if not ('hello' in got and 'world' in got and got.startswith('(doc') and '"hello"' in tree.replace("'", '"')):
        ctx.violate('fresh', 'a fresh script yields %r' % got, stop=True)


def histories(ctx):
    """edits of grammar and runs of the script with faults, then one without"""
    check_reference(ctx)
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, environment():
        disk.step = 1.0
        disk.bufsize = ch.pick((512, io.DEFAULT_BUFFER_SIZE, 1 << 20))
        project = Project(ctx, disk)
        project.set_grammar(ch.pick(VALID))
        project.create()
        ctx.case = []
        steps = ch.rint(1, 4)
        current = project.grammar
        for i in range(steps + 1):
            last = i == steps
            if ch.chance(60) or last and project.grammar not in VALID:
                project.set_grammar(ch.pick(VALID) if last or ch.chance(70) else ch.pick(sorted(GRAMMARS)))
            call = Call(project)
            fault = ''
            fresh()
            os.chdir(call.base)
            before = disk.read('proj/' + NAME + 'Parser.py')
            if not last:
                fault = faults(ctx, disk)
            hits = sum(ctx.faults.values())
            p = call.process()
            crashed = False
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    p.run()
            except fs.SimCrash:
                crashed = True
                disk.restart()
            disk.disarm()
            os.chdir('/')
            disturbed = sum(ctx.faults.values()) > hits
            what = '%s%s -> %s' % (call, ' [%s]' % fault if fault else '', 'crash' if crashed else p.code)
            ctx.case.append(what)
            ctx.ev('run', what, len(p.text))
            call.judge(p, disturbed, project.grammar != current or True, before, crashed)
            after = disk.read('proj/' + NAME + 'Parser.py')
            try:
                compile(after or b'', 'script', 'exec')
                intact = after is not None and after.strip()
            except SyntaxError:
                intact = False
            ctx.check(intact, 'destroyed', lambda: 'script destroyed by ' + what)
            if project.grammar not in VALID:
                ctx.check(after == before, 'changed', lambda: 'script changed by ' + what)
            if ctx.violations:
                return
        ctx.nontrivial = True


def concurrent(ctx):
    """the script is called by several processes at the same time"""
    check_reference(ctx)
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk, environment():
        disk.step = 1.0
        disk.bufsize = ch.pick((512, io.DEFAULT_BUFFER_SIZE))
        project = Project(ctx, disk)
        project.set_grammar(ch.pick(VALID))
        project.create()
        if ch.chance(80):
            project.set_grammar(ch.pick(VALID))
        call = Call(project)
        while call.out or '-d' in call.args or '--debug' in call.args:
            call = Call(project)
        ps = [call.process() for _ in range(ch.rint(2, 3))]
        ctx.case = '%d x %s' % (len(ps), call)
        fresh()
        os.chdir(call.base)
        before = disk.read('proj/' + NAME + 'Parser.py')

        def main():
            def act(p):
                if ch.chance(50):
                    w.sleep(ch.pick((0.1, 1.0, 3.0)))
                p.run()
            actors = [w.spawn(lambda p=p: act(p), 'P%d' % i) for i, p in enumerate(ps)]
            w.block(lambda: all(a.state == kernel.DONE for a in actors), 1000.0)
        with contextlib.redirect_stdout(io.StringIO()):
            w.run(main)
        os.chdir('/')
        for p in ps:
            if p.code is None:
                ctx.violate('unfinished', 'a run has not ended: %s' % call)
            call.judge(p, False, True, before, False)
        ctx.nontrivial = True


def api(ctx):
    """compile_src() and compile_snippet() of the script, some of the calls cancelled"""
    from DHParser.error import CANCELED, canonical_error_strings
    from DHParser.nodetree import Node
    check_reference(ctx)
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, environment():
        project = Project(ctx, disk)
        project.set_grammar(ch.pick(VALID))
        project.create()
        ref = project.ref
        module = types.ModuleType(NAME + 'Parser')
        module.__file__ = project.script
        exec(compile(disk.text('proj/' + NAME + 'Parser.py'), project.script, 'exec'), module.__dict__)
        os.chdir(disk.path('proj'))
        ctx.case = []
        for i in range(ch.rint(2, 5)):
            name = ch.pick(sorted(DOCS))
            text = ch.chance(50)
            target = ch.pick(('AST', 'tst'))
            fn = module.compile_snippet if text else module.compile_src
            limit = ch.pick((0, 1, 2, 3, 5, 8, 13, ch.rint(0, 30))) if i and ch.chance(70) else None
            polls = [0, 0]

            def query():
                polls[0] += 1
                if limit is not None and polls[0] > limit:
                    polls[1] += 1
                    ctx.fault('cancelled')
                    return True
                return False
            what = '%s: %s(%r, %r)%s' % (project, fn.__name__, DOCS[name] if text else name,
                                       target, '' if limit is None else ' cancelled after %d' % limit)
            ctx.case.append(what)
            tree, errors = fn(DOCS[name] if text else name, target, cancel_query=query)
            out = ''.join(s + '\n' for s in canonical_error_strings(errors))
            if isinstance(tree, Node) and not ref.failing[name, text, target]:
                out = tree.serialize('S-expression') + '\n' + ('\n---\n' if errors else '') + out
            show = lambda: '%s -> %s' % (what, K.show(out, 600))
            ctx.ev('call', what, len(out))
            ctx.check(polls[0] > 0, 'deaf', lambda: 'cancel_query is never asked: ' + show())
            if polls[1]:
                n = len([e for e in errors if e.code == CANCELED])
                ctx.check(n == 1, 'cancel', lambda: 'cancelled, but %i error(s) say so: %s' % (n, show()))
                continue
            if call_refused(project, name):
                ctx.check('not allowed' in out, 'unreported', show)
                continue
            want = ref.single[name, text, 'S-expression', target, False]
            ctx.check(out == want, 'output', lambda: '%s\ninstead of %s' % (show(), K.show(want, 600)))
        ctx.nontrivial = True


def call_refused(project, name):
    return project.strict and 'world' in _ref[project.grammar].words[name]


SCENARIOS = [('histories', histories, 8), ('api', api, 2), ('concurrent', concurrent, 2)]
