"""D12 - the generated application shows the results of the source that has been compiled."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import types

from dst import fs, kernel
from scenarios import corpus as K
from scenarios import d10_scripts as S

RULE = ('Whatever a user does with the generated application, in whatever order and at whatever moments: no operation raises an '
        'exception, a compilation that has not been canceled ends with its own results, messages and buttons displayed, one that '
        'has been canceled is reported and changes nothing, several files are compiled completely, and files of the user are '
        'never left incomplete.')
REAL = ['DHParser/templates/DSLApp.pyi (the whole application: widgets, callbacks, polling, worker threads)',
        'DHParser/templates/DSLParser.pyi (pipeline, batch_process)', 'DHParser/pipeline.py', 'DHParser/dsl.py (batch_process)',
        'DHParser/testing.py (unit_to_config, merge_test_units)', 'threading.Thread of the worker']
STUB = ['tkinter (widgets with contents and states, event queue, timers; calls from other threads wait for the event loop)',
        'the user (seeded actions at seeded moments)', 'dialogs', 'clock and thread scheduling', 'duration of the compilation stages',
        'the web-browser', 'multiprocessing events']
ASSUMPTIONS = ['batch processing in a single thread (P06 covers parallel processing)', 'modal dialogs let timers run']
PROBE_HASHSEED = '0'
RUNS = {'quick': 1500, 'thorough': 25000}

NAME = S.NAME
GRAMMAR = '@ drop = whitespace\ndoc = { word }+ EOF\nword = /[a-z]+/~\nEOF = !/./\n'
SOURCES = ('hello world', 'one', 'bad 1', 'a b\nc d', '42', 'x', 'two words\n')
TESTS = '''[match:doc]
M1: """yak
    """
M2: """one
    """
M3: """two words

    """

[AST:doc]
M1: '(doc (word "yak") (EOF))'
'''
_tk = {}


class Var:
    def __init__(self, master=None, value=None):
        self.value = value

    def get(self):
        return self.value

    def set(self, value):
        self.value = value


class Widget:
    """has a state and other properties"""
    loop = None

    def __init__(self, *args, **kw):
        self.__dict__['props'] = dict(kw)
        self.__dict__['bindings'] = {}
        self.props.setdefault('state', 'normal')

    def __getitem__(self, key):
        return self.props.get(key, '')

    def __setitem__(self, key, value):
        Widget.loop.call(lambda: self.props.__setitem__(key, value))

    def bind(self, event, fn, add=None):
        self.bindings.setdefault(event, []).append(fn)

    def fire(self, event, **kw):
        for fn in self.bindings.get(event, ()):
            Widget.loop.post(lambda fn=fn: fn(types.SimpleNamespace(x=0, y=0, **kw)))

    def __getattr__(self, name):
        if name.startswith('_') or name in ('nosuch',):
            raise AttributeError(name)
        return lambda *args, **kw: None

    def config(self, **kw):
        self.props.update(kw)

    def winfo_height(self):
        return 100


class Menu(Widget):
    pass


def offset(text, index):
    """character offset of a text index"""
    if index == 'end':
        return len(text)
    if index in ('insert', '@0,0') or str(index).startswith('@'):
        return 0
    line, col = str(index).split('.')
    lines = text.split('\n')
    n = int(line) - 1
    if n >= len(lines):
        return len(text)
    return sum(len(s) + 1 for s in lines[:n]) + min(int(col), len(lines[n]))


class Text(Widget):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.__dict__.update(text='', modified=False, history=[], vbar=Widget())

    def change(self, text):
        def do():
            if text != self.text:
                self.history.append(self.text)
                self.__dict__['text'] = text
                self.flag(True)
        Widget.loop.call(do)

    def flag(self, value):
        if value != self.modified:
            self.__dict__['modified'] = value
            self.fire('<<Modified>>')

    def edit_modified(self, value):
        self.flag(bool(value))

    def edit_undo(self):
        if not self.history:
            raise _tk['tkinter'].TclError('nothing to undo')
        self.__dict__['text'] = self.history.pop()
        self.flag(True)

    def insert(self, index, s):
        i = offset(self.text, index)
        self.change(self.text[:i] + s + self.text[i:])

    def delete(self, a, b=None):
        i, j = offset(self.text, a), offset(self.text, b)
        self.change(self.text[:i] + self.text[j:])

    def get(self, a, b=None):
        text = self.text + '\n'         # there is always a last line feed
        return text[offset(text, a):offset(text, b)]

    def index(self, i):
        return '1.0'

    def dlineinfo(self, i):
        return None

    def tag_names(self, i):
        return ()


class Loop:
    """event loop: events, timers and calls from other threads"""

    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.events, self.timers = [], []
        self.main = None
        self.n = 0
        self.closed = False

    def post(self, fn):
        self.events.append(fn)

    def after(self, ms, fn):
        self.n += 1
        self.timers.append((self.w.now + ms / 1000.0, self.n, fn))

    def call(self, fn):
        import threading
        if threading.get_ident() == self.main:
            return fn()
        if self.closed:
            raise RuntimeError('main thread is not in main loop')
        box = []
        self.events.append(lambda: box.append(K.outcome(fn)))
        self.w.block(lambda: box or self.closed, None)
        if not box:
            raise RuntimeError('main thread is not in main loop')
        if box[0][0] != 'ok':
            raise RuntimeError('call failed: %s' % (box[0],))
        return box[0][1]

    def guarded(self, fn, what):
        try:
            return fn()
        except kernel_exceptions():
            raise
        except Exception as e:
            import traceback
            self.ctx.violate('exception', '%s raised %r: %s' % (what, e, ''.join(traceback.format_exception(e))[-700:]))

    def due(self):
        return bool(self.events) or bool(self.timers) and min(self.timers)[0] <= self.w.now

    def step(self):
        if self.events:
            self.guarded(self.events.pop(0), 'an event')
            return True
        if self.timers and min(self.timers)[0] <= self.w.now:
            t = min(self.timers)
            self.timers.remove(t)
            self.guarded(t[2], 'a timer')
            return True
        return False

    def update(self):
        n = 0
        while self.step():
            n += 1
            if n > 300:
                self.ctx.violate('endless', 'events trigger each other endlessly', stop=True)

    def run(self, seconds):
        end = self.w.now + seconds
        while not self.closed:
            self.update()
            if self.w.now >= end - 1e-9:
                return
            at = min([end] + [t[0] for t in self.timers])
            self.w.block(lambda: bool(self.events), max(0.0, at - self.w.now))


def kernel_exceptions():
    return tuple(getattr(kernel, n) for n in ('Stop', 'Killed', 'StepLimit') if hasattr(kernel, n)) or (KeyboardInterrupt,)


class Tk(Widget):
    def after(self, ms, fn=None):
        Widget.loop.after(ms, fn)

    def update(self):
        loop = Widget.loop
        import threading
        if threading.get_ident() == loop.main:
            loop.update()
        else:
            loop.call(lambda: None)

    def update_idletasks(self):
        pass

    def destroy(self):
        Widget.loop.closed = True


class Dialogs:
    """answers of the user"""

    def __init__(self, ctx, loop, disk):
        self.ctx, self.loop, self.disk = ctx, loop, disk
        self.files, self.save = [], ''
        self.errors, self.answers = [], []

    def askyesno(self, *args, **kw):
        self.loop.run(self.ctx.ch.pick((0.0, 0.3, 2.0)))
        yes = self.ctx.ch.chance(70)
        self.answers.append(yes)
        return yes

    def askopenfilenames(self, **kw):
        self.loop.run(self.ctx.ch.pick((0.0, 1.0)))
        return tuple(self.files)

    def asksaveasfilename(self, **kw):
        self.loop.run(self.ctx.ch.pick((0.0, 1.0)))
        return self.save

    def showerror(self, title, text='', **kw):
        if _tk.get('strict_dialogs') and threading_main() != self.loop.main:
            pass
        self.errors.append(text)


def threading_main():
    import threading
    return threading.get_ident()


def toolkit():
    """the modules that stand in for tkinter"""
    tk = types.ModuleType('tkinter')
    tk.__path__ = []
    ttk, fd, mb, st, font = (types.ModuleType('tkinter.' + n) for n in ('ttk', 'filedialog', 'messagebox', 'scrolledtext', 'font'))
    tk.Tk, tk.Canvas, tk.Menu, tk.IntVar, tk.StringVar = Tk, Widget, Menu, Var, Var
    tk.END, tk.INSERT, tk.NORMAL, tk.DISABLED = 'end', 'insert', 'normal', 'disabled'
    tk.N, tk.S, tk.W, tk.E = 'nswe'
    tk.TclError = type('TclError', (Exception,), {})
    for n in ('Label', 'Button', 'Combobox', 'Progressbar', 'Style'):
        setattr(ttk, n, type(n, (Widget,), {}))
    st.ScrolledText = Text
    font.nametofont = lambda name: types.SimpleNamespace(actual=lambda: {'family': 'Sans', 'size': 10})
    for name, mod in (('ttk', ttk), ('filedialog', fd), ('messagebox', mb), ('scrolledtext', st), ('font', font)):
        setattr(tk, name, mod)
        _tk['tkinter.' + name] = mod
    _tk['tkinter'] = tk


def warmup():
    S.warmup()
    import DHParser.dsl as D
    import DHParser.testing         # noqa
    import webbrowser               # noqa
    toolkit()
    d = tempfile.mkdtemp(prefix='dst_ref_', dir='/tmp')
    try:
        src = os.path.join(d, NAME + '.ebnf')
        with open(src, 'w') as f:
            f.write(GRAMMAR)
        with contextlib.redirect_stdout(io.StringIO()):
            D.recompile_grammar(src)
        with open(src[:-5] + 'Parser.py') as f:
            _tk['parser'] = f.read()
        _tk['app'] = D.read_template('DSLApp.pyi').replace('DSL', NAME)
    except Exception as e:
        _tk['broken'] = repr(e)
    finally:
        shutil.rmtree(d)


class Manager:
    """stands in for a multiprocessing manager"""

    def Event(self):
        import threading
        return threading.Event()

    def shutdown(self):
        pass


class Session:
    def __init__(self, ctx, w, disk):
        self.ctx, self.w, self.disk = ctx, w, disk
        self.loop = Loop(ctx, w)
        self.loop.main = threading_main()
        Widget.loop = self.loop
        self.dialogs = Dialogs(ctx, self.loop, disk)
        for name, fn in (('messagebox.askyesno', self.dialogs.askyesno), ('messagebox.showerror', self.dialogs.showerror),
                         ('filedialog.askopenfilenames', self.dialogs.askopenfilenames), ('messagebox.showinfo', lambda **kw: None),
                         ('filedialog.asksaveasfilename', self.dialogs.asksaveasfilename)):
            mod, attr = name.split('.')
            setattr(_tk['tkinter.' + mod], attr, fn)
        sys.modules.update({k: v for k, v in _tk.items() if k.startswith('tkinter')})
        parser = types.ModuleType(NAME + 'Parser')
        parser.__file__ = disk.path('proj', NAME + 'Parser.py')
        sys.modules[NAME + 'Parser'] = parser
        exec(compile(_tk['parser'], parser.__file__, 'exec'), parser.__dict__)
        self.parser = parser
        self.plain = parser.pipeline
        parser.pipeline = self.pipeline
        wrapper = parser.process_file_wrapper

        def process(args: 'Tuple[str, str, CancelQuery]') -> str:
            w.sleep(ctx.ch.pick((0.0, 0.1, 1.0)))
            return wrapper(args)
        parser.process_file_wrapper = process
        self.opened = []
        ns = {'__name__': NAME + 'App', '__file__': disk.path('proj', NAME + 'App.py')}
        exec(compile(_tk['app'], ns['__file__'], 'exec'), ns)
        ns['MultiCoreManager'] = Manager
        ns['webbrowser'] = types.SimpleNamespace(open=self.opened.append)
        self.ns = ns
        self.app = ns[NAME + 'App']()
        self.started = []           # [source, target, parser, state, former results]
        self.running = 0
        self.asked = None
        self.answered = 0

    def pipeline(self, source, target, parser, *, cancel_query=None):
        """the pipeline takes its time"""
        job = [source, target, parser, 'running', self.app.all_results]
        self.started.append(job)
        self.running += 1
        if self.running > 1:
            self.ctx.violate('overlap', 'a second compilation has been started while one is running')
        try:
            for _ in range(self.ctx.ch.pick((0, 1, 2, 8))):
                self.w.sleep(self.ctx.ch.pick((0.05, 0.3, 0.7)))
                if cancel_query():
                    break
            r = self.plain(source, target, parser, cancel_query=cancel_query)
            job[3] = 'canceled' if cancel_query() else 'done'
            return r
        finally:
            self.running -= 1

    def expected(self, job, shown, fmt):
        """text of result and errors of a job"""
        from DHParser.nodetree import Node
        from DHParser.error import PARSER_STOPPED_BEFORE_END_WARNING
        results = self.plain(job[0], job[1], job[2])
        if shown not in results:
            return None
        result, errors = results[shown]
        text = result.serialize(fmt) if isinstance(result, Node) else result or ''
        return text, ''.join(str(e) + '\n' for e in errors if e.code != PARSER_STOPPED_BEFORE_END_WARNING)


def enabled(widget):
    return widget['state'] != 'disabled'


def user(ctx):
    """a user works with the application"""
    if 'broken' in _tk:
        ctx.violate('fresh', 'parser or application cannot be created: ' + _tk['broken'], stop=True)
    ch = ctx.ch
    w = kernel.World(ctx)
    disk = fs.FS(ctx)
    saved = {k: sys.modules.get(k) for k in list(_tk) + [NAME + 'Parser'] if k.startswith('tk') or k.endswith('Parser')}
    failures = []
    try:
        with disk, S.environment():
            disk.write('proj/' + NAME + 'Parser.py', _tk['parser'])
            for i, text in enumerate(SOURCES):
                disk.write('docs/%d.dsl' % i, text)
            disk.write('docs/7.dsl', b'\xff\xfe\x80')
            if ctx.ch.chance(50):
                disk.write('proj/test_1.ini', TESTS)
            disk.write('proj/test_odd.ini', b'just some text\n[x\n')
            os.chdir(disk.path('proj'))
            with contextlib.redirect_stdout(io.StringIO()):
                w.run(lambda: session(ctx, w, disk))
            os.chdir('/')
    finally:
        Widget.loop = None
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


QUIET = ('cancel', 'type', 'undo', 'compile', 'target', 'save', 'export', 'source')


def displayed(ctx, s, since, show):
    """are the results of the last compilation displayed, while nothing is going on?"""
    app = s.app
    if not s.started or app.worker or not set(since) <= set(QUIET):
        return
    job = s.started[-1]
    if s.asked:
        ctx.check((job[0].strip(), job[2]) == (s.asked[0].strip(), s.asked[1]), 'display',
                  lambda: '%r has been compiled instead of %r: %s' % ((job[0], job[2]), s.asked, show()))
    if 'cancel' in since and any(s.dialogs.answers[s.answered:]) and job[3] != 'canceled':
        return
    if job[3] == 'canceled':
        ctx.check('Cancel' in app.errors.text, 'display', lambda: 'cancellation is not reported: ' + show())
        ctx.check(app.all_results == job[4], 'display', lambda: 'results have been changed by a canceled compilation: ' + show())
    elif job[3] == 'done':
        want = s.expected(job, app.target_name.get(), app.target_format.get())
        got = app.result.text, app.errors.text
        if app.target_name.get().startswith('['):
            for t in app.targets[:-1]:
                part = s.expected(job, t, app.target_format.get())
                ctx.check(part is None or part[0] in got[0], 'display', lambda: '%s is missing in %r: %s' % (t, got[0], show()))
        elif want is None:
            ctx.check('not been passed' in got[0], 'display', lambda: '%r is displayed for a missing stage: %s' % (got[0], show()))
        elif want[0].strip():
            ctx.check(got == want, 'display', lambda: '%r are displayed instead of %r: %s' % (got, want, show()))
        else:
            ctx.check(got[1] == want[1], 'display', lambda: '%r are displayed instead of %r: %s' % (got, want, show()))


def outputs(ctx, s, disk, names, undisturbed, show):
    """several files have been compiled: are all results there?"""
    shutil.rmtree(disk.path('ref'), ignore_errors=True)
    os.mkdir(disk.path('ref'))
    for n in names:
        s.parser.process_file(disk.path('docs', '%d.dsl' % n), disk.path('ref'))
        ctx.check(not undisturbed or '%d.dsl' % n in s.app.result.text, 'batch', lambda: '%d.dsl is not mentioned: %s' % (n, show()))
    files = disk.files()
    for p, b in files.items():
        if p.startswith('ref/'):
            q = 'docs/%s_output/%s' % (NAME, p[4:])
            ctx.check(files.get(q) == b, 'batch', lambda: '%s contains %s instead of %s: %s' % (q, K.show(files.get(q)), K.show(b), show()))
    ctx.check(not undisturbed or 'Compilation finished' in s.app.result.text, 'batch', lambda: 'end is not reported: ' + show())


def exported(ctx, s, text, show):
    """do the exported cases belong to each other?"""
    from DHParser.nodetree import Node, flatten_sxpr, deserialize
    from DHParser.testing import unit_from_config, UNIT_STAGES
    ctx.probe('exported')
    unit = unit_from_config(text, 'test.ini', allowed_stages=UNIT_STAGES | {'ast', 'cst', 'AST', 'CST', NAME})
    for symbol, tests in unit.items():
        if symbol.endswith('__'):
            continue
        sources = tests.get('match', {})
        if len(sources) > 1:
            ctx.probe('merged')
        for stage, cases in tests.items():
            if stage == 'match':
                continue
            for n, case in cases.items():
                ctx.check(n in sources, 'unrelated', lambda: '%s-case %s of %s has no source in %r: %s' % (stage, n, symbol, text, show()))
                if n in sources:
                    results = {k.upper(): v for k, v in s.plain(sources[n], {'AST', NAME}, symbol).items()}
                    result = results[stage.upper()][0]
                    want = result.serialize() if isinstance(result, Node) else result
                    same = flatten_sxpr(deserialize(case).as_sxpr()) == flatten_sxpr(result.as_sxpr()) if isinstance(result, Node) \
                        else case.strip() == want.strip()
                    ctx.check(same, 'unrelated', lambda: '%s-case %s of %s is %r instead of %r in %r: %s' % (
                        stage, n, symbol, case, want, text, show()))


def saving(ctx, s, disk, act, do, show):
    """writing files, maybe with a fault"""
    ch, app = ctx.ch, s.app
    name = ch.pick({'save': ('out.txt', 'other.txt'), 'export': ('test_1.ini', 'test_1.ini', 'test_1.ini', 'test_2.ini', 'tst_config.ini', 'test_odd.ini'), 'source': ('my.dsl', 'docs')}[act])
    path = disk.path('proj', name)
    s.dialogs.save = path if ch.chance(85) else ''
    if act == 'source':
        if app.source_name:
            path = app.source_name
        before_name = app.source_name
    before = disk.files()
    fault = ch.weighted([(5, ''), (2, 'error'), (2, 'full'), (2, 'denied'), (3, 'crash')])
    hits = sum(ctx.faults.values())
    answers = len(s.dialogs.answers)
    n = len(s.dialogs.errors)
    if fault:
        disk.arm(fault, ch.rint(0, 4), paths=lambda p: '/proj/' in p and not p.endswith('.py'))
    crashed = False
    try:
        do({'save': app.on_save_result, 'export': app.on_export_test, 'source': app.on_save_source}[act])
    except fs.SimCrash:
        crashed = True
    disk.disarm()
    disturbed = sum(ctx.faults.values()) > hits
    if crashed or disk.crashed:
        disk.restart()
        crashed = True
    after = disk.files()
    allowed = {s.dialogs.save[len(disk.prefix):]} if s.dialogs.save else set()
    if act == 'source' and s.dialogs.answers[answers:] == [True]:
        allowed = {path[len(disk.prefix):]}
    for p in set(before) | set(after):
        if p.startswith('docs/' + NAME) or '.tmp' in p and disturbed or before.get(p) == after.get(p):
            continue
        ctx.check(p in allowed, 'files', lambda: '%s has been changed by %s: %s' % (p, act, show()))
        b = after.get(p)
        whole = b is not None
        if whole and act == 'save':
            whole = b.decode() == app.result.get('1.0', 'end')
        elif whole and act == 'source':
            whole = b.decode() == app.source.get('1.0', 'end')
        elif whole:
            text = b.decode()
            whole = '[%s]' % NAME in text if 'config' in p else \
                '[match:' in text and app.source.text.split('\n')[0].strip() in text
            old = before.get(p, b'').decode()
            lines = [re.sub(r'^\s*M\d+\s*[:=]\s*', '', line).strip() for line in text.split('\n')]
            whole = whole and all(re.sub(r'^\s*M\d+\s*[:=]\s*', '', line).strip() in lines for line in old.split('\n'))
        ctx.check(whole, 'damaged', lambda: '%s contains %s after %s%s, instead of %s: %s' % (
            p, K.show(b), act, ' and crash' if crashed else '', K.show(before.get(p)), show()))
    if act == 'export' and 'test_' in name and not disturbed and before.get('proj/' + name) != after.get('proj/' + name):
        exported(ctx, s, after['proj/' + name].decode(), show)
    if crashed:
        disk.crashed = True         # the end of the session
    elif disturbed:
        pass
    elif name == 'test_odd.ini' and s.dialogs.save:
        ctx.check(len(s.dialogs.errors) > n, 'complaint', lambda: 'unreadable file is not reported: ' + show())
        ctx.check(before.get('proj/' + name) == after.get('proj/' + name), 'damaged', lambda: 'unreadable file has been overwritten: ' + show())
    elif allowed:
        ctx.check(len(s.dialogs.errors) == n, 'complaint', lambda: '%s: %s' % (s.dialogs.errors[n:], show()))


def session(ctx, w, disk):
    ch = ctx.ch
    s = Session(ctx, w, disk)
    app, loop = s.app, s.loop
    ctx.case = []
    show = lambda: '%s' % ctx.case
    since, batch = [], None
    for i in range(ch.rint(2, 14)):
        loop.run(ch.pick((0.0, 0.0, 0.05, 0.3, 1.0, 4.0, 12.0)))
        if not app.worker and not loop.due():
            displayed(ctx, s, since, show)
            if batch:
                outputs(ctx, s, disk, batch, since == ['pick'], show)
                batch = None
        actions = ['type', 'type']
        if enabled(app.compile):
            actions += ['compile'] * 4
        if enabled(app.cancel):
            actions += ['cancel'] * 2
        actions += ['target', 'format', 'parser', 'pick', 'undo']
        if enabled(app.source_clear):
            actions.append('clear')
        if enabled(app.save_result):
            actions.append('save')
        if enabled(app.save_source):
            actions.append('source')
        if enabled(app.export_test):
            actions.append('export')
        if ch.chance(4):
            actions = ['close']
        act = ch.pick(actions)
        ctx.case.append('%.2f %s' % (w.now, act))
        ctx.ev('act', act, round(w.now, 2), s.running)
        running = app.worker
        answers = len(s.dialogs.answers)
        if act == 'compile':
            if not running:
                since = []
                s.asked = app.source.text, app.root_name.get()
                s.answered = answers
        else:
            since.append(act)
        do = lambda fn, what=act: loop.guarded(fn, what)
        if act == 'type':
            do(lambda: app.source.change(ch.pick(SOURCES)))
        elif act == 'compile':
            do(app.on_compile)
        elif act == 'cancel':
            do(app.on_cancel)
        elif act == 'undo':
            do(app.on_source_undo)
        elif act == 'clear':
            do(app.on_clear_source)
        elif act == 'target':
            app.target_name.set(ch.pick(app.targets))
            app.target_stage.fire('<<ComboboxSelected>>')
        elif act == 'format' and app.target_choice['state'] == 'readonly':
            app.target_format.set(ch.pick(('XML', 'sxpr', 'tree')))
            app.target_choice.fire('<<ComboboxSelected>>')
        elif act == 'parser':
            app.root_name.set(ch.pick(app.parser_names))
            app.root_parser.fire('<<ComboboxSelected>>')
        elif act == 'pick':
            names = ch.shuffle(range(len(SOURCES)))[:ch.pick((0, 1, 1, 2, 3))] if ch.chance(94) else [7]
            s.dialogs.files = [disk.path('docs', '%d.dsl' % n) for n in names]
            do(app.on_pick_source)
            if running and s.dialogs.answers[answers:] == [False]:
                ctx.check(app.worker is running or not running.is_alive(), 'declined', lambda: 'running process has been replaced, '
                          'although this has been declined: ' + show())
                names = []
            if names:
                since = ['pick']
                if names == [7]:
                    ctx.check(s.dialogs.errors and 'decode' in s.dialogs.errors[-1], 'complaint', lambda: 'unreadable file is not reported: ' + show())
                elif len(names) == 1:
                    ctx.check(app.source.text == disk.text('docs/%d.dsl' % names[0]), 'display', lambda: 'source is %r instead of %d.dsl: %s' % (
                        app.source.text, names[0], show()))
                batch = names if len(names) > 1 else None
        elif act == 'close':
            do(app.on_close)
            declined = running and s.dialogs.answers[answers:] == [False]
            ctx.check(loop.closed != bool(declined), 'close', lambda: 'application %s: %s' % (
                'has been closed, although this has been declined' if loop.closed else 'has not been closed', show()))
            if loop.closed:
                ctx.nontrivial = True
                return
        elif act in ('save', 'export', 'source'):
            saving(ctx, s, disk, act, do, show)
        if act in ('cancel', 'pick') and app.cancel_event.is_set():
            batch = None
        if ctx.violations or disk.crashed:
            return
    # the user waits
    loop.run(30.0)
    displayed(ctx, s, since, show)
    if batch:
        outputs(ctx, s, disk, batch, since == ['pick'], show)
    ctx.check(s.running == 0 and app.worker is None, 'stuck', lambda: 'worker has not ended or is not noticed: ' + show())
    ctx.check(not enabled(app.cancel), 'stuck', lambda: 'cancel-button is active although nothing is running: ' + show())
    # a last compilation
    text = ch.pick(('fine words', 'bad 1', 'alpha beta gamma'))
    loop.guarded(lambda: app.source.change('other'), 'type')
    loop.run(0.1)
    loop.guarded(lambda: app.source.change(text), 'type')
    loop.run(1.0)
    ctx.check(enabled(app.compile), 'stuck', lambda: 'source cannot be compiled any more: ' + show())
    target = ch.pick([t for t in app.targets if not t.startswith('[')])
    app.target_name.set(target)
    app.target_stage.fire('<<ComboboxSelected>>')
    loop.run(0.1)
    n = len(s.started)
    loop.guarded(app.on_compile, 'compile')
    loop.run(30.0)
    ctx.check(len(s.started) == n + 1, 'stuck', lambda: 'compilation has not been started: ' + show())
    if ctx.violations:
        return
    want = s.expected(s.started[-1], app.target_name.get(), app.target_format.get())
    got = app.result.text, app.errors.text
    if want and want[0].strip():
        ctx.check(got == want, 'display', lambda: '%r are displayed instead of %r: %s' % (got, want, show()))
    loop.guarded(app.on_close, 'close')
    ctx.check(loop.closed, 'close', lambda: 'application has not been closed: ' + show())
    ctx.nontrivial = True


SCENARIOS = [('user', user, 1)]
