"""C01 - configuration values are thread-isolated and can be accessed from any thread."""
import shutil
import tempfile

from dst import kernel

RULE = ('every read is checked against a model of the history: values set by the thread itself are '
        'read back exactly; otherwise the value must have been the preset in force at some moment '
        'between the thread\'s first access and the read, and it must not change afterwards; a '
        'preset section is exclusive and reads back its own writes; no call raises or blocks forever')
REAL = ['DHParser/configuration.py', 'files of the preset synchronization (scratch directory)']
STUB = ['thread scheduling (seeded, preemption at every bytecode instruction of configuration.py)',
        'locks', 'multiprocessing.get_start_method()', 'clock']
ASSUMPTIONS = ['threads are preempted between bytecode instructions only (CPython with GIL)',
               'every access_presets() is matched by finalize_presets() in try/finally']
RUNS = {'quick': 5000, 'thorough': 60000}

SER = ('sxpr', 'XML', 'json', 'indented', '')
BAD = 'no such serialization'
KEYS = ('dst.a', 'dst.b', 'dst.c', 'max_parser_dropouts', 'CST_serialization', 'AST_serialization')
NONE = object()


def warmup():
    import configparser
    import multiprocessing
    import fnmatch
    import DHParser.configuration as C
    C.get_config_value('max_parser_dropouts')


def fresh_module(C, tempdir, method):
    """Puts the module into the state it has after being imported."""
    import multiprocessing
    C.THREAD_LOCALS = None
    C.access_lock = None
    getattr(C, 'THREADING_OBJECTS', {}).clear()
    tempfile.tempdir = tempdir
    multiprocessing.get_start_method = lambda *a, **k: method


class Model:
    def __init__(self, presets):
        self.seq = 0
        # key -> [[value, from, until]]
        self.hist = {k: [[presets.get(k, NONE), 0, None]] for k in KEYS}

    def tick(self):
        self.seq += 1
        return self.seq

    def write_begin(self, key, value):
        self.hist[key].append([value, self.tick(), None])

    def write_end(self, key):
        s = self.tick()
        for h in self.hist[key][:-1]:
            if h[2] is None:
                h[2] = s

    def latest(self, key):
        return self.hist[key][-1][0]

    def allowed(self, key, a, b):
        return [h[0] for h in self.hist[key] if h[1] <= b and (h[2] is None or h[2] >= a)]


class User:
    """One thread that uses the configuration"""

    def __init__(self, ctx, w, C, model, name, n):
        self.ctx, self.w, self.C, self.model, self.name = ctx, w, C, model, name
        self.own = {}           # key -> value set by this thread
        self.seen = {}          # key -> preset value seen by this thread
        self.first = None
        self.n = n
        self.count = 0

    def fresh(self, key):
        self.count += 1
        if key.endswith('_serialization'):
            return self.ctx.ch.pick(SER)
        return self.n * 1000 + self.count

    def check_read(self, key, value, a, how):
        b = self.model.tick()
        if key in self.own:
            if value != self.own[key] or type(value) is not type(self.own[key]):
                self.ctx.violate('own_value', '%s: %s(%r) -> %r, but the thread had set %r'
                                 % (self.name, how, key, value, self.own[key]))
            return
        if key in self.seen:
            if value != self.seen[key]:
                self.ctx.violate('unstable', '%s: %s(%r) -> %r, but the thread has read %r before '
                                 'and not set it since' % (self.name, how, key, value,
                                                           self.seen[key]))
            return
        ok = self.model.allowed(key, self.first, b)
        if not any(value is x or (value == x and type(value) is type(x)) for x in ok):
            self.ctx.violate('foreign_value', '%s: %s(%r) -> %r, but the presets in force were %s'
                             % (self.name, how, key, '(none)' if value is NONE else value,
                                ['(none)' if x is NONE else x for x in ok]))
            return
        if value is not NONE:
            self.seen[key] = value

    def access(self):
        a = self.model.tick()
        if self.first is None:
            self.first = a
        return a

    # ---- operations

    def get(self):
        key = self.ctx.ch.pick(KEYS)
        a = self.access()
        v = self.C.get_config_value(key, NONE)
        self.check_read(key, v, a, 'get_config_value')

    def get_many(self):
        pats = self.ctx.ch.pick((('*',), ('dst.*',), ('*_serialization',), ('dst.a', 'dst.b'),
                                 ('max_*', 'CST*', 'dst.c'), ('nothing*',)))
        import fnmatch
        a = self.access()
        d = self.C.get_config_values(*pats)
        for k in KEYS:
            if any(fnmatch.fnmatchcase(k, p) for p in pats):
                self.check_read(k, d.get(k, NONE), a, 'get_config_values%r' % (pats,))
        for k in d:
            if not any(fnmatch.fnmatchcase(k, p) for p in pats):
                self.ctx.violate('pattern', '%s: get_config_values%r returned %r'
                                 % (self.name, pats, k))

    def set(self):
        key = self.ctx.ch.pick(KEYS)
        v = self.fresh(key)
        name = key
        if key in ('AST_serialization', 'CST_serialization') and self.ctx.ch.chance(20):
            name = key.replace('AST', 'ast').replace('CST', 'cst')      # deprecated name
            self.C.set_config_value(name, v)
        else:
            self.C.set_config_value(name, v, allow_new_key=True)
        self.own[key] = v

    def set_bad(self):
        key = self.ctx.ch.pick(('AST_serialization', 'CST_serialization'))
        try:
            if self.ctx.ch.chance(70):
                self.C.set_config_value(key, BAD)
            else:
                self.C.add_config_values({'dst.unused': 0, key: BAD})
        except ValueError:
            return
        self.ctx.violate('invalid_value', '%s: invalid value accepted for %s' % (self.name, key))

    def add(self):
        vals = {k: self.fresh(k) for k in self.ctx.ch.shuffle(KEYS)[:self.ctx.ch.rint(1, 3)]}
        self.C.add_config_values(vals)
        self.own.update(vals)

    def preset_set(self, key):
        v = self.fresh(key)
        self.model.write_begin(key, v)
        self.C.set_preset_value(key, v, allow_new_key=True)
        self.model.write_end(key)
        self.own[key] = v

    def section(self):
        ch, C = self.ctx.ch, self.C
        C.access_presets()
        try:
            if not C.is_accessing_presets():
                self.ctx.violate('section', '%s: is_accessing_presets() is False inside of a section'
                                 % self.name)
            for _ in range(ch.rint(1, 4)):
                op = ch.pick(('set', 'get', 'values', 'config', 'setcfg', 'bad'))
                if op == 'set':
                    self.preset_set(ch.pick(KEYS))
                elif op == 'get':
                    key = ch.pick(KEYS)
                    v = C.get_preset_value(key, NONE)
                    want = self.model.latest(key)
                    if v is not want and v != want:
                        self.ctx.violate('preset', '%s: get_preset_value(%r) -> %r instead of %r'
                                         % (self.name, key, v, want))
                elif op == 'values':
                    d = C.get_preset_values('dst.*')
                    want = {k: self.model.latest(k) for k in KEYS if k.startswith('dst.')
                            and self.model.latest(k) is not NONE}
                    if d != want:
                        self.ctx.violate('preset', '%s: get_preset_values() -> %r instead of %r'
                                         % (self.name, d, want))
                elif op == 'config':
                    self.get()
                elif op == 'setcfg':
                    self.set()
                else:
                    try:
                        C.set_preset_value('CST_serialization', BAD)
                        self.ctx.violate('invalid_value', 'invalid preset accepted')
                    except ValueError:
                        pass
                if ch.chance(20):
                    self.w.sleep(0.01)
        finally:
            C.finalize_presets()

    def ini(self):
        keys = self.ctx.ch.shuffle(KEYS)[:self.ctx.ch.rint(1, 3)]
        vals = {k: self.fresh(k) for k in keys}
        text = '[DHParser]\n' + ''.join('%s = %r\n' % (k, v) for k, v in vals.items()
                                        if '.' not in k)
        text += '[dst]\n' + ''.join('%s = %r\n' % (k[4:], v) for k, v in vals.items() if '.' in k)
        # the moments of the individual writes cannot be seen from outside
        self.ini_values(text, vals)

    def ini_values(self, text, vals):
        hooks = self.w.ini_hooks
        me = kernel._thread.get_ident()
        hooks[me] = True
        try:
            self.C.read_config_string(text)
        finally:
            del hooks[me]
        self.own.update(vals)

    def reset(self):
        self.C.reset_config_dict()
        self.own.clear()
        self.seen.clear()
        self.first = None


def make_threads(ctx, w, C, model, done):
    ch = ctx.ch

    def body(u, ops):
        def run():
            for op in ops:
                getattr(u, op)()
                if ch.chance(10):
                    w.sleep(ch.pick((0.001, 0.02)))
            done.append(u.name)
        return run
    n = ch.rint(2, 4)
    plans = []
    for i in range(n):
        ops = [ch.weighted([(5, 'get'), (3, 'set'), (3, 'get_many'), (2, 'add'), (4, 'section'),
                            (2, 'ini'), (1, 'set_bad'), (1, 'reset')])
               for _ in range(ch.rint(1, 6))]
        plans.append(ops)
    users = [User(ctx, w, C, model, 'T%d' % (i + 1), i + 1) for i in range(n)]
    return [(u, plans[i], body(u, plans[i])) for i, u in enumerate(users)]


def threads(ctx):
    """several threads use configuration and presets"""
    import DHParser.configuration as C
    ch = ctx.ch
    method = 'fork' if ch.chance(70) else 'spawn'
    scratch = tempfile.mkdtemp(prefix='dst_c01_')
    try:
        fresh_module(C, scratch, method)
        for k in KEYS[:3]:
            if ch.chance(60):
                C.CONFIG_PRESET[k] = 0
        model = Model(C.CONFIG_PRESET)
        w = kernel.World(ctx, preempt=True)
        w.gap_scale = ch.pick((1, 3))
        # writes through read_config_string() are observed where they happen
        orig = C.set_preset_value
        hooks = w.ini_hooks = {}

        def observed(key, value, allow_new_key=False):
            if hooks.get(kernel._thread.get_ident()):
                model.write_begin(key, value)
                orig(key, value, allow_new_key=allow_new_key)
                model.write_end(key)
            else:
                orig(key, value, allow_new_key=allow_new_key)
        C.set_preset_value = observed
        done = []
        table = make_threads(ctx, w, C, model, done)
        ctx.case = '%s %s' % (method, [p for _, p, _ in table])
        if ch.chance(30):
            C.get_config_value('max_parser_dropouts')     # lazy initialization already done
            C.access_thread_locals().config.clear()

        def main():
            actors = [w.spawn(run, u.name) for u, _, run in table]
            if not w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0):
                ctx.violate('hang', 'threads do not terminate: %s'
                            % [a.name for a in actors if a.state != kernel.DONE])
                return
            for a in actors:
                if a.exc is not None:
                    import traceback
                    ctx.violate('exception', '%s: %s' % (a.name, ''.join(
                        traceback.format_exception(a.exc)[-3:])))
            if ctx.violations:
                return
            # afterwards everything is at rest: a new thread sees the latest presets
            u = User(ctx, w, C, model, 'last', 9)

            def last():
                for k in KEYS:
                    u.access()
                    v = C.get_config_value(k, NONE)
                    if v is not model.latest(k) and v != model.latest(k):
                        ctx.violate('lost_preset', 'in the end, the preset of %s is %r instead of %r'
                                    % (k, v, model.latest(k)))
                u.section()
            a = w.spawn(last, 'last')
            w.block(lambda: a.state == kernel.DONE, 100.0)
            if a.state != kernel.DONE:
                ctx.violate('hang', 'presets cannot be accessed in the end')
            elif a.exc is not None:
                ctx.violate('exception', 'last: %r' % a.exc)
        kernel.instrument(files=('configuration.py',), instructions=('configuration.py',))
        try:
            w.run(main)
        finally:
            kernel.uninstrument()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


SCENARIOS = [('threads', threads, 1)]
