"""fs.py - simulated disk: faults, crashes and clocks on top of a scratch directory.

Real files in a scratch directory, but every operation of the process on a path below that
directory passes through here: operations can fail (EIO, ENOSPC, EACCES, EMFILE), be
interrupted, be cut short, or be the last thing the process ever does (crash).  After a
crash nothing the dying process still tries reaches the disk: completed raw writes survive,
everything in user-space buffers is lost, and a raw write in progress leaves any prefix.
Directory listings are returned in a seeded order, modification times come from the
simulated clock.
"""
import builtins
import errno
import io
import os
import shutil
import sys
import _thread

from . import kernel


class SimCrash(BaseException):
    """The simulated process dies here."""


REAL = {n: getattr(os, n) for n in ('stat', 'lstat', 'replace', 'rename', 'remove', 'unlink', 'mkdir',
                                    'rmdir', 'listdir', 'scandir', 'utime', 'chmod')}
REAL_OPEN = io.open
REAL_GETPID = os.getpid
ACTIVE = None

WRITING = {'open_w', 'write', 'mkdir', 'replace', 'close_w', 'remove', 'rmdir', 'truncate', 'chmod'}
SPACE = {'open_w', 'write', 'mkdir', 'close_w'}
READING = {'open_r', 'read', 'listdir'}


class Fault:
    """One planned disturbance: strikes at the `at`-th eligible operation."""

    def __init__(self, kind, at, ops=None, paths=None, err=None, times=1, part=None):
        self.kind, self.at, self.ops, self.paths = kind, at, ops, paths
        self.err, self.times, self.part = err, times, part
        self.count = 0
        self.hits = 0
        self.denied = None

    def eligible(self, op, path):
        if self.ops is not None and op not in self.ops:
            return False
        return self.paths is None or self.paths(path)


def scratch():
    """a new directory; its name has a fixed length and contains nothing that could be taken for part of a file name"""
    while True:
        path = '/tmp/dst_fs_%08d' % (int.from_bytes(os.urandom(8), 'big') % 10 ** 8)
        try:
            os.mkdir(path, 0o700)
            return path
        except FileExistsError:
            pass


class FS:
    def __init__(self, ctx, root=None, shuffle=False):
        self.ctx = ctx
        self.root = os.path.realpath(root or scratch())
        self.prefix = self.root + os.sep
        ctx.scrub.append((self.root, '<DISK>'))
        self.faults = []
        self.crashed = False
        self.generation = 0        # generation of the process; its file objects die with it
        self.ops = 0
        self.now = 0.0
        self.step = 0.0            # time that passes with every modification
        self.shuffle = shuffle
        self.short_io = 0          # percent chance of short reads/writes
        self.log = []              # (op, relative path)
        self.trace_ops = False
        self.hook = None           # called before each operation: hook(op, path)
        self.bufsize = io.DEFAULT_BUFFER_SIZE

    # ---- control

    def __enter__(self):
        global ACTIVE
        install()
        ACTIVE = self
        os.getpid = lambda: 4242
        return self

    def __exit__(self, *args):
        global ACTIVE
        ACTIVE = None
        os.getpid = REAL_GETPID
        shutil.rmtree(self.root, ignore_errors=True)

    def arm(self, kind, at=0, **kw):
        """kinds: crash, error, full, denied, interrupt, torn"""
        defaults = {'crash': WRITING | READING, 'interrupt': WRITING | READING,
                    'error': WRITING | READING, 'full': SPACE, 'torn': {'write'},
                    'denied': {'open_r', 'open_w'}}
        kw.setdefault('ops', defaults[kind])
        f = Fault(kind, at, **kw)
        self.faults.append(f)
        return f

    def disarm(self):
        self.faults.clear()
        self.short_io = 0

    def restart(self):
        """The process is restarted: only the disk survives."""
        self.crashed = False
        self.generation += 1
        self.disarm()

    def rel(self, path):
        return path[len(self.prefix):] if path.startswith(self.prefix) else '.'

    def inside(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        return p if p.startswith(self.prefix) or p == self.root else None

    def fence(self, path):
        """Code that has been broken must not write outside the scratch directories"""
        if isinstance(path, int):
            return
        try:
            p = os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(os.fspath(path))))
        except TypeError:
            return
        if not p.startswith(('/tmp/', '/dev/')):
            raise PermissionError(errno.EACCES, 'outside of the simulated file system', p)

    # ---- the fault decision

    def op(self, op, path, size=0):
        """Called before every operation. -> number of bytes to let through (writes)"""
        if self.crashed:
            raise SimCrash('process is dead')
        w = kernel.WORLD
        if w is not None and w.active and w.preempt_on and not w.in_dispatch \
                and _thread.get_ident() == w.cur_ident and len(w.actors) > 1 and w.ch.chance(25):
            w.yield_()
        self.ops += 1
        if self.hook is not None:
            self.hook(op, path)
        rel = self.rel(path)
        if len(self.log) < 3000:
            self.log.append((op, rel))
        if self.trace_ops:
            self.ctx.ev('io', op, rel)
        for f in self.faults:
            if f.denied == path and op in ('open_r', 'open_w', 'replace', 'remove'):
                self.ctx.fault('io_denied', op, rel)
                raise PermissionError(errno.EACCES, 'Permission denied', path)
            if not f.eligible(op, path):
                continue
            f.count += 1
            if f.count <= f.at:
                continue
            if f.kind == 'full':
                f.hits += 1
                self.ctx.fault('disk_full', op, rel)
                if op == 'write' and size and f.hits == 1:
                    return ('full', self._part(f, size))
                raise OSError(errno.ENOSPC, 'No space left on device', path)
            if f.hits >= f.times:
                continue
            f.hits += 1
            if f.kind == 'crash':
                self.ctx.fault('crash', op, rel)
                if op == 'write' and size:
                    return ('crash', self._part(f, size))
                self.crashed = True
                raise SimCrash('%s %s' % (op, rel))
            if f.kind == 'interrupt':
                self.ctx.fault('interrupt', op, rel)
                raise KeyboardInterrupt()
            if f.kind == 'denied':
                self.ctx.fault('io_denied', op, rel)
                f.denied = path
                raise PermissionError(errno.EACCES, 'Permission denied', path)
            if f.kind == 'torn':
                self.ctx.fault('torn_write', op, rel)
                return ('torn', self._part(f, size))
            if f.kind == 'error':
                e = f.err
                if e is None:
                    e = {'open_r': (errno.EIO, errno.EACCES, errno.EMFILE),
                         'open_w': (errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS)
                         }.get(op, (errno.EIO, errno.ENOSPC) if op in WRITING else (errno.EIO,))
                    e = e[f.at % len(e)]
                self.ctx.fault('io_error', op, rel, errno.errorcode[e])
                raise OSError(e, os.strerror(e), path)
        return None

    def _part(self, f, size):
        if f.part is not None:
            return int(size * f.part)
        return self.ctx.ch.rint(0, size)

    def stamp(self, target):
        self.now += self.step
        t = kernel.EPOCH + self.now
        try:
            REAL['utime'](target, (t, t))
        except OSError:
            pass

    # ---- helpers for scenarios (bypass all faults)

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def write(self, rel, data):
        if isinstance(data, str):
            data = data.encode('utf-8')
        p = self.path(rel)
        d = os.path.dirname(p)
        if d != self.root:
            os.makedirs(d, exist_ok=True)
        with REAL_OPEN(p, 'wb') as f:
            f.write(data)
        self.stamp(p)
        return p

    def read(self, rel):
        """-> bytes or None"""
        try:
            with REAL_OPEN(self.path(rel), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None
        except IsADirectoryError:
            return None

    def text(self, rel):
        b = self.read(rel)
        return None if b is None else b.decode('utf-8', 'replace')

    def files(self):
        """-> {relative path: content}"""
        res = {}
        stack = [self.root]
        while stack:
            d = stack.pop()
            with REAL['scandir'](d) as it:
                for e in sorted(it, key=lambda e: e.name):
                    if e.is_dir(follow_symlinks=False):
                        stack.append(e.path)
                    elif e.is_file():
                        with REAL_OPEN(e.path, 'rb') as f:
                            res[self.rel(e.path)] = f.read()
        return res

    def mtime(self, rel):
        return REAL['stat'](self.path(rel)).st_mtime


class SimFileIO(io.FileIO):
    def __init__(self, fs, path, mode, closefd=True, opener=None):
        self._fs, self._p, self._gen = fs, path, fs.generation
        self._w = any(c in mode for c in 'wax+')
        fs.op('open_w' if self._w else 'open_r', path)
        super().__init__(path, mode, closefd, opener)
        if 'w' in mode or 'x' in mode:
            fs.stamp(path)

    def _dead(self):
        return self._fs.crashed or self._gen != self._fs.generation

    def write(self, b):
        if self._dead():
            return len(b)              # the buffers of a dead process go nowhere
        fs = self._fs
        mv = memoryview(b).cast('B')
        n = len(mv)
        verdict = fs.op('write', self._p, n)
        if verdict is not None:
            kind, k = verdict
            if k:
                super().write(mv[:k])
            fs.stamp(self._p)
            if kind == 'crash':
                fs.crashed = True
                raise SimCrash('write %s: %i of %i bytes' % (fs.rel(self._p), k, n))
            raise OSError(errno.ENOSPC, 'No space left on device', self._p)
        if fs.short_io and n > 1 and fs.ctx.ch.chance(fs.short_io):
            fs.ctx.fault('short_write', fs.rel(self._p))
            mv = mv[:fs.ctx.ch.rint(1, n - 1)]
        res = super().write(mv)
        fs.stamp(self._p)
        return res

    def _pre_read(self):
        if self._dead():
            raise SimCrash('process is dead')
        self._fs.op('read', self._p)

    def readinto(self, b):
        self._pre_read()
        fs = self._fs
        n = len(b)
        if fs.short_io and n > 1 and fs.ctx.ch.chance(fs.short_io):
            fs.ctx.fault('short_read', fs.rel(self._p))
            mv = memoryview(b)[:fs.ctx.ch.rint(1, n - 1)]
            return super().readinto(mv)
        return super().readinto(b)

    def read(self, size=-1):
        self._pre_read()
        return super().read(size)

    def readall(self):
        self._pre_read()
        return super().readall()

    def truncate(self, size=None):
        if self._dead():
            return size
        self._fs.op('truncate', self._p)
        res = super().truncate(size)
        self._fs.stamp(self._p)
        return res

    def close(self):
        if self.closed:
            return
        dead = self._dead()
        super().close()
        if not dead and self._w:
            self._fs.op('close_w', self._p)

    def __del__(self):
        try:
            if not self.closed:
                io.FileIO.close(self)
        except BaseException:
            pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    fs = ACTIVE
    path = fs.inside(file) if fs is not None else None
    if path is None:
        if fs is not None and any(c in mode for c in 'wax+'):
            fs.fence(file)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    if binary and (encoding or errors or newline):
        raise ValueError('binary mode does not take encoding, errors or newline')
    raw_mode = mode.replace('b', '').replace('t', '').replace('U', '')
    try:
        raw = SimFileIO(fs, path, raw_mode, closefd, opener)
    except OSError as e:
        e.filename = file
        raise
    result = raw
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return result
        size = buffering if buffering > 1 else fs.bufsize
        if '+' in raw_mode:
            result = io.BufferedRandom(raw, size)
        elif any(c in raw_mode for c in 'wax'):
            result = io.BufferedWriter(raw, size)
        else:
            result = io.BufferedReader(raw, size)
        if binary:
            return result
        result = io.TextIOWrapper(result, encoding, errors, newline, buffering == 1)
        result.mode = mode
        return result
    except BaseException:
        result.close()
        raise


def _wrap1(name, op):
    real = REAL[name]

    def wrapper(path, *args, **kwargs):
        fs = ACTIVE
        p = fs.inside(path) if fs is not None and path is not None else None
        if p is not None:
            fs.op(op, p)
            if fs.crashed:
                raise SimCrash('process is dead')
        elif fs is not None and path is not None and op != 'stat':
            fs.fence(path)
        return real(path, *args, **kwargs)
    wrapper.__name__ = name
    return wrapper


def _wrap2(name, op):
    real = REAL[name]

    def wrapper(src, dst, *args, **kwargs):
        fs = ACTIVE
        p = (fs.inside(dst) or fs.inside(src)) if fs is not None else None
        if p is not None:
            fs.op(op, p)
        elif fs is not None:
            fs.fence(src)
            fs.fence(dst)
        return real(src, dst, *args, **kwargs)
    wrapper.__name__ = name
    return wrapper


def _listdir(path='.'):
    fs = ACTIVE
    p = fs.inside(path) if fs is not None else None
    if p is None:
        return REAL['listdir'](path)
    fs.op('listdir', p)
    res = sorted(REAL['listdir'](path))
    if fs.shuffle and len(res) > 1:
        res = fs.ctx.ch.shuffle(res)
    return res


class _Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass


def _scandir(path='.'):
    fs = ACTIVE
    p = fs.inside(path) if fs is not None else None
    if p is None:
        return REAL['scandir'](path)
    fs.op('listdir', p)
    with REAL['scandir'](path) as it:
        res = sorted(it, key=lambda e: e.name)
    if fs.shuffle and len(res) > 1:
        res = fs.ctx.ch.shuffle(res)
    return _Scan(res)


_installed = False


def install():
    """Must be called before DHParser is imported (from-imports of open or os functions)."""
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.stat = _wrap1('stat', 'stat')
    for n, op in (('remove', 'remove'), ('unlink', 'remove'), ('mkdir', 'mkdir'),
                  ('rmdir', 'rmdir'), ('chmod', 'chmod')):
        setattr(os, n, _wrap1(n, op))
    os.replace = _wrap2('replace', 'replace')
    os.rename = _wrap2('rename', 'replace')
    os.listdir = _listdir
    os.scandir = _scandir
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    sys.dont_write_bytecode = True
