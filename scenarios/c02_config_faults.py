"""C02 - a failed or interrupted preset update never wedges or corrupts configuration."""
import configparser
import os
import sys
import tempfile

from dst import fs as simfs, kernel

RULE = ('after every operation the presets seen by the same thread, another thread and a newly '
        'started process must be one of the snapshots that the history allows (old or new, for '
        'each update that failed); an update that succeeded is never lost; only the call that was '
        'hit fails; invalid values are never stored; nothing blocks')
REAL = ['DHParser/configuration.py', 'pickle, configparser']
STUB = ['disk (fault-injecting layer over a scratch directory)', 'thread scheduling and locks',
        'multiprocessing.get_start_method()', 'process start (module state reset to defaults)']
ASSUMPTIONS = ['the user matches every access_presets() with finalize_presets() in try/finally',
               'an interrupt is delivered while the process waits for I/O',
               'a process crash loses buffers but not completed system calls']
RUNS = {'quick': 8000, 'thorough': 150000}

KEYS = ('dst.a', 'dst.B', 'max_parser_dropouts', 'CST_serialization', 'AST_serialization')
SER = ('sxpr', 'XML', 'json', 'indented', '')
BAD = 'no such serialization'
NONE = '(none)'
# (key, value that violates the declared constraint of the key)
INVALID = (('CST_serialization', BAD), ('AST_serialization', BAD), ('dst.range', 11), ('dst.range', -1),
           ('dst.range', 'x'), ('optimizations', frozenset({BAD})), ('deprecation_policy', 'x'),
           ('optimizations', ['literal', BAD]))
LIMITED = ('dst.range', 'optimizations', 'deprecation_policy')


def check_limited(ctx, get, who):
    """keys with constraints must always have valid values"""
    v = get('dst.range', 0)
    ok = isinstance(v, (int, float)) and 0 <= v <= 10
    o = get('optimizations', ())
    ok = ok and BAD not in o
    p = get('deprecation_policy', 'warn')
    ok = ok and p in ('warn', 'fail')
    ctx.check(ok, 'invalid_value', lambda: '%s sees invalid values: %r' % (who, (v, o, p)))


def warmup():
    import multiprocessing
    import pickle
    import fnmatch
    import DHParser.configuration as C
    C.get_config_value('max_parser_dropouts')


class System:
    def __init__(self, ctx, w, disk, C, method):
        self.ctx, self.w, self.disk, self.C, self.method = ctx, w, disk, C, method
        self.defaults = dict(C.CONFIG_PRESET)
        self.count = self.files = 0
        first = {k: self.defaults.get(k, NONE) for k in KEYS}
        self.mem = [first]                 # what this process may have in memory
        self.dur = [None]                  # what a new process may find (None = no file)
        self.first = first
        self.own = {}                      # key -> values the main thread's config may have

    # ---- model

    @staticmethod
    def uniq(snaps):
        res = []
        for s in snaps:
            if s not in res:
                res.append(s)
        return res

    def opened(self):
        """access_presets() has succeeded: memory may have been refreshed from the disk"""
        self.mem = self.uniq(self.mem + [s for s in self.dur if s is not None])

    def observe(self, who):
        obs = {k: self.C.get_preset_value(k, NONE) for k in KEYS}
        if obs not in self.mem:
            self.ctx.violate('snapshot', '%s sees presets %s, possible are %s'
                             % (who, obs, self.mem), stop=True)
        self.mem = [obs]
        check_limited(self.ctx, self.C.get_preset_value, who)
        for k, v in obs.items():
            if v == BAD:
                self.ctx.violate('invalid_value', '%s has an invalid value' % k, stop=True)

    def changed(self, key, value, certain):
        new = [dict(s, **{key: value}) for s in self.mem]
        self.mem = new if certain else self.uniq(self.mem + new)
        self.own[key] = [value] if certain else self.own.get(key, [NONE]) + [value]

    def closed(self, certain, changed):
        if self.method == 'fork':
            return
        if certain:
            if changed:
                self.dur = list(self.mem)
            elif self.unsynced:
                self.dur = self.uniq(self.dur + self.mem)
            self.unsynced = False
        else:
            self.dur = self.uniq(self.dur + self.mem)
            self.unsynced = True

    unsynced = False

    # ---- operations (each may be hit by a fault)

    def value(self, key):
        self.count += 1
        if key.endswith('_serialization'):
            return SER[self.count % len(SER)]
        return self.count

    def section(self):
        ch, C = self.ctx.ch, self.C
        C.access_presets()
        self.opened()
        changed = False
        try:
            self.observe('the section')
            for _ in range(ch.rint(1, 3)):
                if ch.chance(25):
                    key, v = ch.pick(INVALID)
                    try:
                        C.set_preset_value(key, v, allow_new_key=True)
                        self.ctx.violate('invalid_value', 'invalid value accepted: %r' % ((key, v),))
                    except (ValueError, TypeError):
                        pass
                    v = ch.pick((0, 10, 5.5))
                    C.set_preset_value('dst.range', v, allow_new_key=True)
                    changed = True
                    if ch.chance(30):
                        raise ValueError('user gives up')
                else:
                    key = ch.pick(KEYS)
                    v = self.value(key)
                    changed = True
                    try:
                        C.set_preset_value(key, v, allow_new_key=True)
                    except BaseException:
                        self.changed(key, v, False)
                        raise
                    self.changed(key, v, True)
            if ch.chance(10):
                raise KeyboardInterrupt()
        finally:
            try:
                C.finalize_presets()
            except BaseException:
                self.closed(False, changed)
                raise
            self.closed(True, changed)

    def ingest(self, call, pairs, broken):
        """pairs: [(key, value, valid)] in the order in which they are stored"""
        reported = False
        try:
            if call() == []:
                return                # no file could be read, and the return value says so
        except ValueError as e:
            if broken or all(valid for _, _, valid in pairs) \
                    or 'Errors found in configuration' not in str(e):
                self.partial(pairs)
                raise
            reported = True           # the invalid values have been reported
        except BaseException:
            self.partial(pairs)
            raise
        if not reported and (broken or not all(valid for _, _, valid in pairs)):
            self.ctx.violate('silent', 'a malformed configuration was accepted')
        self.opened()
        for k, v, valid in pairs:
            if valid:
                # if there are errors, other values of the same section may be left out
                self.changed(k, v, not reported)
        self.closed(True, True)

    def partial(self, pairs):
        self.opened()
        for k, v, valid in pairs:
            if valid:
                self.changed(k, v, False)
        self.closed(False, True)

    def ini(self, most=4):
        """-> (text, pairs, broken)"""
        ch = self.ctx.ch
        keys = ch.shuffle(KEYS)[:ch.rint(1, most)]
        keys = [k for k in keys if '.' not in k] + [k for k in keys if '.' in k]
        pairs = []
        for k in keys:
            bad = k.endswith('_serialization') and ch.chance(25)
            pairs.append((k, BAD if bad else self.value(k), not bad))
        lines = ['[DHParser]'] + ['%s = %r' % (k, v) for k, v, _ in pairs if '.' not in k]
        lines += ['[dst]'] + ['%s = %r' % (k[4:], v) for k, v, _ in pairs if '.' in k]
        broken = None
        if ch.chance(25):
            broken = ch.pick(('[dst', 'no assignment', 'x = (1,', 'x = undefined_name', 'x = 1/0',
                              'x = 1\nx = 2'))
            at = ch.rint(1, len(lines)) if '\n' not in broken and '[' not in broken \
                else len(lines)
            lines.insert(at, broken)
        return '\n'.join(lines) + '\n', pairs, broken

    def string(self):
        text, pairs, broken = self.ini()
        self.ctx.ev('ini', repr(text))
        self.ingest(lambda: self.C.read_config_string(text), pairs, broken)

    def file(self):
        text, pairs, broken = self.ini()
        data = text.encode()
        cut = self.ctx.ch.weighted([(6, 'no'), (1, 'missing'), (1, 'binary')])
        if cut == 'binary':
            data = data + b'[dst]\ny = "\xff\xfe"\n'
            broken = 'encoding'
        self.ctx.ev('ini-file', cut, repr(text))
        self.files += 1
        name = 'config_%d.ini' % self.files
        if cut != 'missing':
            self.disk.write(name, data)
        path = self.disk.path(name)
        hits = sum(self.ctx.faults.values())

        def call():
            got = self.C.read_local_config(path)
            if cut == 'missing' and got:
                self.ctx.violate('silent', 'a missing file has been read: %r' % got)
            if cut != 'missing' and not got and hits == sum(self.ctx.faults.values()):
                self.ctx.violate('silent', 'readable file has not been read')
            return got
        self.ingest(call, pairs, broken)

    def several(self):
        """read_local_config() with several files of the same name: values in the directory of the
        script, at the given path, in the user's configuration and in the working directory
        override each other in this order"""
        ch, C, disk = self.ctx.ch, self.C, self.disk
        self.files += 1
        base = 'd%d/' % self.files
        app = ch.pick(('app', 'my app', 'app.v2'))
        script, given, work = base + 'bin', base + 'etc', base + 'work'
        if ch.chance(25):
            given = script
        if ch.chance(25):
            work = script
        user = base + 'home/.config/%s/' % app
        home = [user + 'config.ini', user + app + '.ini']
        places = [script + '/%s.ini' % app, given + '/%s.ini' % app] + home \
            + [work + '/%s.ini' % app]
        for d in (script, given, work):
            os.makedirs(disk.path(d), exist_ok=True)
        content = {}
        share = ch.pick((40, 70, 100))
        for f in places:
            if f not in content:
                content[f] = self.ini(2) if ch.chance(share) else None
                if content[f] is not None:
                    self.ctx.ev('ini-file', f, repr(content[f][0]))
                    disk.write(f, content[f][0].encode())
        if content[home[0]] is not None:
            places.remove(home[1])          # config.ini supersedes the file in the same directory
        order = [f for f in places if content[f] is not None]
        path = disk.path(given + '/%s.ini' % app)
        if ch.chance(40):
            path = os.path.relpath(path, disk.path(work))
            if path == '%s.ini' % app:
                path = os.path.join('..', 'bin', path)
        broken = any(content[f][2] is not None for f in order)
        merged = {}
        for f in order:
            for k, v, valid in content[f][1]:
                merged[k] = (v, valid)
        everything = [p for f in order for p in content[f][1]]
        merged = [(k, v, valid) for k, (v, valid) in merged.items()]
        merged.sort(key=lambda p: '.' in p[0])
        hits = sum(self.ctx.faults.values())

        def call():
            got = C.read_local_config(path)
            if hits == sum(self.ctx.faults.values()):
                real = [os.path.normpath(os.path.join(disk.path(work), g)) for g in got]
                if set(real) != {disk.path(f) for f in order}:
                    self.ctx.violate('files', 'configuration files %s were read, not %s'
                                     % (got, order))
            return got

        main = sys.modules['__main__']
        former = os.getcwd(), main.__dict__.get('__file__'), os.environ.get('HOME')
        os.chdir(disk.path(work))
        main.__file__ = disk.path(script + '/run.py')
        os.environ['HOME'] = disk.path(base + 'home')
        got, failure = None, None
        try:
            got = call()
        except BaseException as e:
            failure = e
        finally:
            os.chdir(former[0])
            if former[1] is not None:
                main.__file__ = former[1]
            else:
                del main.__file__
            if former[2] is not None:
                os.environ['HOME'] = former[2]
            else:
                del os.environ['HOME']

        def outcome():
            if failure is not None:
                raise failure
            return got

        if hits != sum(self.ctx.faults.values()):
            self.partial(everything)        # files that could not be read may have been skipped
            outcome()
        elif order:
            self.ingest(outcome, merged, broken)
        elif outcome() != []:
            self.ctx.violate('files', 'files that do not exist have been read')

    def misuse(self):
        """Calls without (or with two) access_presets() are refused and change nothing"""
        C, ctx = self.C, self.ctx
        key = ctx.ch.pick(KEYS)

        def refused(what, fn):
            try:
                fn()
            except AssertionError:
                return
            ctx.violate('misuse', '%s has not been refused' % what, stop=True)
        refused('set_preset_value() without access_presets()',
                lambda: C.set_preset_value(key, self.value(key), allow_new_key=True))
        refused('finalize_presets() without access_presets()', C.finalize_presets)
        C.access_presets()
        try:
            self.opened()
            refused('a nested access_presets()', C.access_presets)
            if key not in C.CONFIG_PRESET or ctx.ch.chance(30):
                try:
                    C.set_preset_value('no_such_variable', 1)
                    ctx.violate('misuse', 'an unknown variable has been accepted')
                except ValueError:
                    pass
            try:
                C.set_preset_value('multicore_pool', 'ThreadPool', allow_new_key=True)
                ctx.violate('misuse', '"multicore_pool" has been changed at runtime')
            except AssertionError:
                pass
            self.observe('the section')
        finally:
            try:
                C.finalize_presets()
            except BaseException:
                self.closed(False, False)
                raise
            self.closed(True, False)

    def read(self):
        key = self.ctx.ch.pick(KEYS)
        v = self.C.get_config_value(key, NONE)
        if v == BAD:
            self.ctx.violate('invalid_value', '%s has an invalid value' % key)

    def read_many(self):
        d = self.C.get_config_values('*')
        check_limited(self.ctx, d.get, 'get_config_values()')
        for k, v in d.items():
            if v == BAD:
                self.ctx.violate('invalid_value', '%s has an invalid value' % k)

    def set_config(self):
        key = self.ctx.ch.pick(KEYS)
        if self.ctx.ch.chance(30):
            key, v = self.ctx.ch.pick(INVALID)
            try:
                if self.ctx.ch.chance(50):
                    self.C.set_config_value(key, v, allow_new_key=True)
                else:
                    self.C.add_config_values({key: v})
                self.ctx.violate('invalid_value', 'invalid value accepted: %r' % ((key, v),))
            except (ValueError, TypeError):
                pass
            return
        v = self.value(key)
        self.C.set_config_value(key, v, allow_new_key=True)
        self.own[key] = [v]

    # ---- checks after the faults are gone

    def verify(self, who, same_thread=False):
        C = self.C
        if same_thread:
            for k, vals in self.own.items():
                v = C.get_config_value(k, NONE)
                if len(vals) == 1 and v != vals[0]:
                    self.ctx.violate('own_value', 'after the failure, %s reads %r instead of %r as '
                                     'value of %s' % (who, v, vals[0], k))
        else:
            for k in KEYS:
                v = C.get_config_value(k, NONE)
                if v not in [s[k] for s in self.mem + [d for d in self.dur if d is not None]]:
                    self.ctx.violate('snapshot', 'after the failure, %s reads %r as value of %s'
                                     % (who, v, k))
        check_limited(self.ctx, C.get_config_value, who)
        C.access_presets()
        try:
            self.opened()
            self.observe(who)
            v = self.value('dst.a')
            C.set_preset_value('dst.a', v, allow_new_key=True)
            self.changed('dst.a', v, True)
        finally:
            C.finalize_presets()
        self.closed(True, True)
        C.access_presets()
        try:
            if C.get_preset_value('dst.a', NONE) != v:
                self.ctx.violate('lost', 'after the failure, a preset set by %s is lost' % who)
            self.observe(who)
        finally:
            C.finalize_presets()
        if not same_thread:
            self.own.clear()

    def new_process(self):
        """What a process started now would see"""
        C = self.C
        if self.method != 'fork':
            C.CONFIG_PRESET = dict(self.defaults)
            C.CONFIG_PRESET['syncfile_path'] = ''
            self.mem = self.uniq([self.first if s is None else s for s in self.dur])
        C.ACCESSING_PRESETS = False
        C.PRESETS_CHANGED = False
        C.PRESETS_OWNER = (0, None)
        C.THREAD_LOCALS = None
        C.access_lock = None
        getattr(C, 'THREADING_OBJECTS', {}).clear()
        self.own = {}
        self.unsynced = False


OPS = ('section', 'section', 'string', 'file', 'several', 'read', 'read_many', 'set_config',
       'misuse')


def updates(ctx):
    """preset updates with faults, then checks from everywhere"""
    import DHParser.configuration as C
    import multiprocessing
    ch = ctx.ch
    method = 'spawn' if ch.chance(75) else 'fork'
    multiprocessing.get_start_method = lambda *a, **k: method
    plan = [ch.pick(OPS) for _ in range(ch.rint(1, 6))]
    calm = ch.rint(0, 2)
    kind = ch.pick(('none', 'error', 'full', 'interrupt', 'crash', 'torn', 'denied', 'error',
                    'interrupt', 'crash'))
    at = ch.rint(0, 9 if method == 'spawn' else 3) if ch.chance(75) else ch.rint(0, 30)
    ctx.case = '%s %s, %d calm, %s at %d' % (method, plan, calm, kind, at)
    disk = simfs.FS(ctx)
    w = kernel.World(ctx, preempt=False)
    with disk:
        tempfile.tempdir = disk.root
        disk.bufsize = ch.pick((8192, 256))
        C.access_lock = None
        getattr(C, 'THREADING_OBJECTS', {}).clear()
        C.THREAD_LOCALS = None
        C.CONFIG_PRESET['syncfile_path'] = ''
        C.ALLOWED_PRESET_VALUES['dst.range'] = (0, 10)
        sysm = System(ctx, w, disk, C, method)

        def phase():
            for i, op in enumerate(plan):
                if i == calm and kind != 'none':
                    disk.arm(kind, at)
                    if ch.chance(20):
                        disk.short_io = 30
                ctx.ev('op', op)
                hits = sum(n for k, n in ctx.faults.items() if not k.startswith('short'))
                try:
                    getattr(sysm, op)()
                    ctx.ev('ok')
                except simfs.SimCrash:
                    ctx.ev('crashed')
                    return True
                except KeyboardInterrupt:
                    ctx.ev('interrupted')
                except (ValueError, configparser.Error, SyntaxError, NameError,
                        ArithmeticError) as e:
                    ctx.ev('reported', type(e).__name__, str(e)[:200])
                except Exception as e:
                    if hits == sum(n for k, n in ctx.faults.items() if not k.startswith('short')):
                        import traceback
                        ctx.violate('exception', '%s fails without a fault: %s' % (
                            op, ''.join(traceback.format_exception(e)[-4:])), stop=True)
                    ctx.ev('failed', type(e).__name__)
                if ctx.violations:
                    return False
            return False

        def in_thread(fn, name):
            a = w.spawn(fn, name)
            w.block(lambda: a.state == kernel.DONE, 50.0)
            if a.state != kernel.DONE:
                ctx.violate('blocked', '%s cannot access the presets' % name, stop=True)
            if a.exc is not None:
                import traceback
                ctx.violate('exception', '%s: %s' % (name, ''.join(
                    traceback.format_exception(a.exc)[-4:])), stop=True)

        def main():
            crashed = phase()
            if ctx.violations:
                return
            disk.restart()
            if not crashed:
                try:
                    sysm.verify('the same thread', True)
                except (Exception, kernel.Deadlock) as e:
                    import traceback
                    ctx.violate('exception', 'the same thread: %s' % ''.join(
                        traceback.format_exception(e)[-4:]), stop=True)
                in_thread(lambda: sysm.verify('another thread'), 'another thread')
            if method == 'fork' and crashed:
                C.CONFIG_PRESET.clear()
                C.CONFIG_PRESET.update(sysm.defaults)
                sysm.mem = [sysm.first]
            sysm.new_process()
            in_thread(lambda: sysm.verify('a new process'), 'a new process')
            stray = [f for f in disk.files() if f.endswith('.tmp')]
            if not crashed:
                ctx.check(not stray, 'stray_files', lambda: 'temporary files left behind: %s' % stray)
        w.run(main)


SCENARIOS = [('updates', updates, 1)]
