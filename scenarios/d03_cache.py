"""D03 - Cached data is never wrong: damaged or stale caches are rebuilt."""
import builtins
import contextlib
import io
import json
import os
import pickle
import sys

from dst import fs, kernel
from scenarios import corpus as K
from scenarios.parsing import Injector

RULE = ('cached_load() returns what deserialize() makes of the present source, whatever happened to the cache before '
        '(edits, truncation, bit flips, foreign pickles, directories in its place, crashes while writing, other '
        'processes); problems with the cache never raise; without faults the unchanged source is deserialized once')
REAL = ['DHParser/toolkit.py: cached_load, clear_from_cache, write_atomically', 'pickle']
STUB = ['disk (scratch directory; errors, full disk, denied access, short reads and writes, crashes with loss of '
        'buffers, interrupts)', 'hash randomisation (another salt for every process)', 'clock',
        'scheduling of concurrent calls']
ASSUMPTIONS = ['the cache directory is writable by trusted users only',
               'with cachedir="" the cache is by definition preferred to the source as long as it is intact']
RUNS = {'quick': 3500, 'thorough': 80000}

FILES = ('data.sxpr', 'other.sxpr', 'sub/data.sxpr', 'data.json')


def warmup():
    K.load()
    import DHParser.toolkit
    import DHParser.nodetree
    import gzip, copyreg, errno, shutil, stat, hashlib    # noqa
    DHParser.toolkit.cached_load     # noqa


class Lambda:
    """data that cannot be pickled"""

    def __init__(self, text):
        self.text, self.f = text, lambda: text

    def __eq__(self, other):
        return isinstance(other, Lambda) and other.text == self.text


class Bomb:
    """data that can be pickled, but not be loaded (any more)"""

    def __init__(self, text):
        self.text = text

    def __eq__(self, other):
        return isinstance(other, Bomb) and other.text == self.text

    def __reduce__(self):
        return _vanished, (self.text,)


def _vanished(text):
    if os.environ.get('DST_NO_BOMB'):
        return None
    raise AttributeError('class has vanished')


def content(ch):
    n = ch.weighted([(3, 1), (3, 3), (1, 40), (1, 400)])
    return '(A ' + ' '.join('(%s "%s")' % (ch.pick(('B', 'C', 'D')), ch.pick(('1', 'ä', 'x y', '')))
                            for _ in range(n)) + ')\n' + ('; %d' % ch.rint(0, 3))


def make_deserialize(kind, calls):
    def deserialize(source):
        calls.append(1)
        return value(kind, source)
    return deserialize


def value(kind, source):
    if kind == 'text':
        return source
    if kind == 'dict':
        return {'source': source, 'words': source.split(), 'n': len(source)}
    if kind == 'tree':
        from DHParser.nodetree import parse_sxpr
        return parse_sxpr(source.split('\n')[0])
    if kind == 'lambda':
        return Lambda(source)
    if kind == 'none':
        return None
    if kind == 'deep':
        x = [source]
        for _ in range(3000):
            x = [x]
        return x
    return Bomb(source)


def same(kind, a, b):
    if kind == 'tree':
        return a is not None and hasattr(a, 'as_sxpr') and a.as_sxpr() == b.as_sxpr()
    if kind == 'deep':
        for _ in range(3000):
            if not (isinstance(a, list) and len(a) == 1):
                return False
            a, b = a[0], b[0]
        return a == b
    return type(a) is type(b) and a == b


class Evil:
    def __init__(self, text):
        self.text = text

    def __reduce__(self):
        return getattr(builtins, 'int'), (self.text,)


def damage(ch, disk, rel, swap=True):
    """something happens to the cache file"""
    b = disk.read(rel)
    kind = ch.pick(('truncate', 'flip', 'flip', 'empty', 'garbage', 'old', 'raises', 'swap', 'append', 'directory', 'remove'))
    if kind == 'directory':
        if b is not None:
            fs.REAL['remove'](disk.path(rel))
        fs.REAL['mkdir'](disk.path(rel)) if not os.path.isdir(disk.path(rel)) else None
    elif kind == 'remove' and b is not None:
        fs.REAL['remove'](disk.path(rel))
    elif kind == 'truncate' and b:
        disk.write(rel, b[:ch.rint(0, len(b) - 1)])
    elif kind == 'flip' and b:
        a = bytearray(b)
        for _ in range(ch.rint(1, 3)):
            i = ch.rint(0, min(len(a) - 1, 60)) if ch.chance(40) else ch.rint(0, len(a) - 1)
            a[i] ^= 1 << ch.rint(0, 7)
        disk.write(rel, bytes(a))
    elif os.path.isdir(disk.path(rel)):
        fs.REAL['rmdir'](disk.path(rel))
    elif kind == 'empty':
        disk.write(rel, b'')
    elif kind == 'garbage':
        disk.write(rel, ch.pick((b'\x80\x04', b'\x80\x04N.', b'abc' * 30, b'\x00' * 100, b'(lp0\n.', b'\x80\x04]q\x00.',
                                 b"cno_such_module\nname\n.", b'\x8c' + b'\xff' * 40, b'I12\n.')))
    elif kind == 'old':
        disk.write(rel, pickle.dumps((ch.pick((12, 'x', None)), 'outdated')))
    elif kind == 'raises':
        disk.write(rel, pickle.dumps(Evil('x')))
    elif kind == 'append' and b:
        disk.write(rel, b + b'xyz')
    elif kind == 'swap' and b and swap:
        others = [p for p in disk.files() if p.endswith('.pickled') and p != rel]
        if others:
            disk.write(rel, disk.read(ch.pick(sorted(others))))
    return kind


class Process:
    """every process has another salt for hash()"""

    def __init__(self):
        self.salt = 0

    def restart(self):
        self.salt += 1
        salt = self.salt
        import DHParser.toolkit as T
        T.hash = lambda x: builtins.hash((salt, x))

    def __enter__(self):
        self.restart()
        return self

    def __exit__(self, *a):
        import DHParser.toolkit as T
        del T.hash


@contextlib.contextmanager
def surroundings(disk, cachedir):
    home, cwd = os.environ.get('HOME'), os.getcwd()
    os.makedirs(disk.path('cwd'))
    os.environ['HOME'] = disk.path('home')
    os.chdir(disk.path('cwd'))
    try:
        yield {'home': '~/.cache', 'abs': disk.path('cache', 'deep', 'er'), 'dot': '.', '': ''}[cachedir]
    finally:
        os.chdir(cwd)
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home


def histories(ctx):
    from DHParser.toolkit import cached_load, clear_from_cache
    ch = ctx.ch
    disk = fs.FS(ctx)
    with disk, Process() as process:
        disk.step = ch.pick((0.0, 1.0))
        disk.bufsize = ch.pick((16, 512, io.DEFAULT_BUFFER_SIZE))
        where = ch.weighted([(4, 'home'), (4, 'abs'), (2, 'dot'), (1, '')])
        kinds = {}
        source = {}
        ever = {}                           # every version of a file
        ctx.case = [where]
        with surroundings(disk, where) as cachedir:
            names = FILES[:ch.rint(1, 4)]
            for n in names:
                source[n] = content(ch)
                if ch.chance(40) and n != names[0]:
                    source[n] = source[names[0]]
                kinds[n] = 'dict' if not ever else list(kinds.values())[0]
                disk.write(n, source[n])
                ever[n] = [source[n]]
            # (data of different kinds in the same cache file is not supported)
            kind = ch.weighted([(5, 'dict'), (3, 'tree'), (2, 'text'), (1, 'lambda'), (1, 'none'), (1, 'bomb'), (1, 'deep')])
            failing = kind in ('lambda', 'bomb', 'deep')
            warm = None                     # the file that has been loaded last without faults
            for _ in range(ch.rint(3, 10)):
                if ctx.violations:
                    return
                n = ch.pick(names)
                if ch.chance(35):
                    source[n] = content(ch)
                    disk.write(n, source[n])
                    ever[n].append(source[n])
                    warm = None
                if ch.chance(25):
                    caches = sorted(p for p in disk.files() if p.endswith('.pickled'))
                    if caches:
                        ctx.case.append('damage ' + damage(ch, disk, ch.pick(caches), bool(cachedir)))
                        warm = None
                if ch.chance(15):
                    process.restart()
                if ch.chance(8):
                    with contextlib.suppress(OSError):
                        clear_from_cache(disk.path(n), cachedir)
                    warm = None
                calls = []
                fault = ch.weighted([(6, ''), (3, 'cache'), (1, 'any'), (1, 'line')])
                op = ''
                if fault in ('cache', 'any'):
                    op = ch.pick(('crash', 'error', 'full', 'denied', 'interrupt', 'torn'))
                    kw = {}
                    if op == 'error':
                        kw['times'] = ch.pick((1, 2, 100))
                        if ch.chance(50):
                            kw['ops'] = {ch.pick(sorted(fs.WRITING | fs.READING))}
                    if fault == 'cache':
                        kw['paths'] = lambda p: not p.endswith(FILES)
                    disk.arm(op, ch.weighted([(4, 0), (2, 1), (2, 3), (1, 6)]), **kw)
                    if op != 'full' and ch.chance(20):
                        disk.short_io = 50
                inj = None
                before = sum(ctx.faults.values())
                fn = lambda: cached_load(disk.path(n), make_deserialize(kind, calls), cachedir)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        if fault == 'line':
                            inj = Injector(ctx, ('toolkit.py',))
                            data = inj.run(fn, ch.rint(1, 60), KeyboardInterrupt('injected'))
                        else:
                            data = fn()
                    res = 'ok'
                except fs.SimCrash:
                    res = 'crash'
                    disk.restart()
                    process.restart()
                except KeyboardInterrupt:
                    res = 'interrupted'
                except Exception as e:
                    res = '%s: %s' % (type(e).__name__, str(e)[:200])
                disk.disarm()
                if inj is not None and inj.hit:
                    ctx.fault('interrupt at line')
                disturbed = sum(ctx.faults.values()) > before
                what = 'load %s%s -> %s' % (n, ' [%s %s]' % (fault, op) if fault else '', res)
                ctx.case.append(what)
                ctx.ev('call', what)
                ctx.nontrivial = True
                if res == 'ok':
                    good = [value(kind, source[n])]
                    if not cachedir:                 # the cache has precedence
                        good += [value(kind, t) for m in names for t in ever[m] if m.endswith('data.sxpr') or m.endswith(
                            'data.json') or m == n]
                    ctx.check(any(same(kind, data, g) for g in good), 'wrong', lambda: '%s: got %s instead of %s' % (
                        what, K.show(str(data)[:300], 300), K.show(str(good[0])[:300], 300)))
                    if warm == n and not failing:
                        ctx.check(not calls or disturbed, 'reload', '%s: unchanged file is deserialized again' % what)
                    warm = n if not disturbed else None
                    if os.path.isdir(disk.path(n)) or [p for p in disk_dirs(disk) if p.endswith('.pickled')]:
                        warm = None
                elif res not in ('crash', 'interrupted'):
                    ctx.check(fault == 'any' and disturbed, 'raised', '%s' % what)
                    warm = None
                else:
                    ctx.check(disturbed or res == 'interrupted', 'raised', what)
                    warm = None
                left = [p for p in disk.files() if not p.endswith(FILES) and not p.endswith('.pickled')]
                ctx.check(not left or ctx.faults, 'stray', lambda: '%s: files left behind: %s' % (what, left))


def disk_dirs(disk):
    return [disk.rel(d) for d, _, _ in os.walk(disk.root)]


def concurrent(ctx):
    """threads load (and edit) at the same time"""
    from DHParser.toolkit import cached_load, clear_from_cache
    ch = ctx.ch
    w = kernel.World(ctx, preempt=True)
    disk = fs.FS(ctx)
    with disk, Process() as process:
        disk.step = 1.0
        disk.bufsize = ch.pick((16, 64, 512, io.DEFAULT_BUFFER_SIZE))
        where = ch.pick(('home', 'abs'))
        with surroundings(disk, where) as cachedir:
            names = FILES[:ch.rint(1, 3)]
            kind = ch.pick(('dict', 'text', 'tree'))
            versions = {}
            for n in names:
                t = content(ch)
                disk.write(n, t)
                versions[n] = [t]
            if ch.chance(50):
                with contextlib.redirect_stdout(io.StringIO()):
                    cached_load(disk.path(names[0]), make_deserialize(kind, []), cachedir)
            res = []
            damage_allowed = ch.chance(40)
            if ch.chance(25):
                op = ch.pick(('error', 'full', 'denied', 'torn'))
                disk.arm(op, ch.rint(0, 12), paths=lambda p: not p.endswith(FILES))

            def act(i):
                for _ in range(ch.rint(1, 4)):
                    n = ch.pick(names)
                    todo = ch.weighted([(6, 'load'), (2, 'edit'), (1, 'clear'), (1, 'damage')])
                    if todo == 'edit':
                        t = content(ch)
                        w.preempt_on = False        # both at once
                        versions[n].append(t)
                        disk.write(n, t)
                        w.preempt_on = True
                    elif todo == 'clear':
                        with contextlib.suppress(OSError):
                            clear_from_cache(disk.path(n), cachedir)
                    elif todo == 'damage' and damage_allowed:
                        caches = sorted(p for p in disk.files() if p.endswith('.pickled'))
                        w.preempt_on = False
                        if caches:
                            damage(ch, disk, ch.pick(caches))
                        w.preempt_on = True
                    else:
                        k0 = len(versions[n]) - 1
                        calls = []
                        try:
                            data = cached_load(disk.path(n), make_deserialize(kind, calls), cachedir)
                        except Exception as e:
                            import traceback
                            res.append('T%d load %s raised %s: %s' % (i, n, type(e).__name__, traceback.format_exc()[-500:]))
                            ctx.violate('raised', res[-1])
                            return
                        good = [value(kind, t) for t in versions[n][k0:]]
                        res.append('T%d load %s' % (i, n))
                        ctx.check(any(same(kind, data, g) for g in good), 'wrong', lambda: 'T%d load %s: got %s '
                                  'instead of %s' % (i, n, K.show(str(data)[:300], 300), K.show(str(good)[:500], 500)))

            def main():
                actors = [w.spawn(lambda i=i: act(i), 'T%d' % i) for i in range(ch.rint(2, 4))]
                w.block(lambda: all(a.state == kernel.DONE for a in actors), 100.0)
                for a in actors:
                    ctx.check(a.state == kernel.DONE and a.exc is None, 'failed', lambda: '%s %r' % (a.state, a.exc))
            with contextlib.redirect_stdout(io.StringIO()):
                w.run(main)
                disk.disarm()
                # afterwards
                for n in names:
                    good = value(kind, versions[n][-1])
                    data = cached_load(disk.path(n), make_deserialize(kind, []), cachedir)
                    ctx.check(same(kind, data, good), 'wrong', lambda: 'afterwards: %s: got %s instead of %s' % (
                        n, K.show(str(data)[:300], 300), K.show(str(good)[:300], 300)))
            ctx.nontrivial = True
            ctx.case = res


SCENARIOS = [('histories', histories, 7), ('concurrent', concurrent, 3)]
