"""File-system and clock seams.

Paths below the scratch root of the running job are routed through SimFS:
every operation is a scheduling point, may be given an injected fault, and is
refused once the issuing simulated process is dead. Everything else (imports,
library data, ...) goes straight to the operating system."""
import builtins
import errno
import glob as _glob
import io
import os
import shutil
import time as _time

import core

_real_open = builtins.open
_real = {}


def active():
    w = core.cur_world()
    if w is None:
        return None
    fs = w.__dict__.get('fs')
    if fs is None or getattr(core._tls, 'passthru', 0):
        return None
    return fs


def _path(p):
    if isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        try:
            p = p.decode()
        except UnicodeDecodeError:
            return None
    return p


class passthru:
    def __enter__(self):
        core._tls.passthru = getattr(core._tls, 'passthru', 0) + 1

    def __exit__(self, *a):
        core._tls.passthru -= 1


PURE = ('stat', 'listdir')      # cannot report an error to the caller


class SimFS:
    """state of the simulated storage for one job; the backing store is a real
    scratch directory, what is in it is by definition what survives a kill"""

    def __init__(self, world, root, cfg=None, faults=(), stats=None):
        cfg = cfg or {}
        self.w = world
        world.fs = self
        self.root = os.path.realpath(root)
        self.bufsize = cfg.get('bufsize', 8192)
        self.readonly = cfg.get('readonly', False)
        self.faults = {}
        self.nth = []
        for f in faults:
            if 'nth' in f:              # the nth operation that matches
                self.nth.append([0, f])
            else:
                self.faults.setdefault(f['op'], f)
        self.ops = 0
        self.mut = 0
        self.sticky = None
        self.stats = stats if stats is not None else world.stats
        self.fired = []
        self.touched = {}
        self.oplog = []
        self.nyield = cfg.get('fs_yield', True)

    # ----- helpers --------------------------------------------------------
    def mine(self, p):
        if p is None:
            return False
        a = os.path.abspath(p)
        return a == self.root or a.startswith(self.root + os.sep) or os.path.realpath(a).startswith(self.root + os.sep)

    def abspath(self, p):
        return os.path.abspath(p)

    def rel(self, p):
        a = os.path.abspath(p)
        return os.path.relpath(a, self.root)

    def dead(self, rank=None):
        w = self.w
        if w.killing:
            return True
        r = core.cur_rank() if rank is None else rank
        return r is not None and w.ranks[r].killed

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def op(self, kind, path, mutating, partial=None):
        """scheduling point + fault decision.
        `partial(frac)` applies a prefix of the effect (for torn operations)."""
        if self.nyield:
            self.w.step(f'fs.{kind} {self.rel(path)}')
        if self.dead():
            raise core.SimKill()
        i = self.ops
        self.ops += 1
        self.oplog.append((kind, self.rel(path), mutating, core.cur_rank()))
        self.stat('fs.' + kind)
        f = self.faults.get(i)
        for q in self.nth:
            c = q[1]
            if kind in PURE or c.get('under', '') not in self.rel(path) or c.get('mut') and not mutating or \
                    c.get('op', kind) != kind:
                continue
            if q[0] == c['nth'] and f is None:
                f = c
            q[0] += 1
        if f is None and self.sticky is not None:
            s = self.sticky
            if s.get('left', 0) > 0 and (mutating or s['kind'] == 'EIO') and kind not in PURE:
                s['left'] -= 1
                f = dict(s, sticky=0)
        if self.readonly and mutating and kind not in ('read',) and self.rel(path).startswith(
                '' if self.readonly is True else self.readonly):
            self.stat('fault.readonly')
            self.fired.append((i, 'EROFS', kind, self.rel(path)))
            raise OSError(errno.EROFS, 'Read-only file system (simulated)', path)
        if mutating and kind in STAMPED:
            c = self.w.__dict__.get('clock')
            if c is not None:
                self.touched[os.path.abspath(path)] = c.stamp()
        if f is None:
            return
        k = f['kind']
        self.fired.append((i, k, kind, self.rel(path)))
        if f.get('sticky') and self.sticky is None:
            self.sticky = dict(f, left=f['sticky'])
        self.w.event(f'FAULT {k} at fs op {i} {kind}')
        if k == 'crash':
            self.stat('fault.crash_fs')
            if partial is not None and f.get('frac', 0) > 0:
                partial(f['frac'])
                self.stat('fault.torn_write')
            self.w.want_crash = True
            self.w.ranks[core.cur_rank()].killed = True
            raise core.SimKill()
        self.stat('fault.' + k)
        if k == 'short':
            return f.get('frac', 0.5)
        if partial is not None and f.get('frac', 0) > 0:
            partial(f['frac'])
        no = getattr(errno, k)
        raise OSError(no, os.strerror(no) + ' (simulated)', path)

    def settle(self, path):
        """give a file its modification time of the simulated clock"""
        p = os.path.abspath(path)
        t = self.touched.pop(p, None)
        try:
            if t is None:
                if _real_stat(p).st_mtime > 2e9:
                    return
                t = EPOCH - 1000.0          # put there by the harness, before everything
            if not os.path.islink(p):
                os.utime(p, (t, t))
        except OSError:
            pass

    # ----- used by the MPI-IO layer ----------------------------------------
    def mpi_open(self, path, create, write, excl):
        self.op('mpiopen_w' if write else 'mpiopen_r', path, write)
        with passthru():
            if not os.path.exists(path):
                if not create:
                    raise FileNotFoundError(errno.ENOENT, 'No such file', path)
                _real_open(path, 'ab').close()
            elif excl and create:
                raise FileExistsError(errno.EEXIST, 'exists', path)

    def pwrite(self, path, off, data):
        def part(frac):
            self.raw_pwrite(path, off, data[:int(len(data) * frac)])
        self.op('pwrite', path, True, part)
        self.raw_pwrite(path, off, data)

    def raw_pwrite(self, path, off, data):
        with passthru():
            with _real_open(path, 'r+b') as f:
                f.seek(off)
                f.write(data)

    def pread(self, path, off, n):
        self.op('pread', path, False)
        with passthru():
            with _real_open(path, 'rb') as f:
                f.seek(off)
                return f.read(n)

    def truncate(self, path, n):
        self.op('truncate', path, True)
        with passthru():
            os.truncate(path, n)

    def size(self, path):
        with passthru():
            return os.path.getsize(path)

    def remove(self, path):
        self.op('remove', path, True)
        with passthru():
            os.remove(path)

    # ----- open ---------------------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = _path(file)
        wr = any(c in mode for c in 'wax+')
        self.op('open_w' if wr else 'open_r', p, wr)
        rawmode = mode.replace('t', '').replace('U', '')
        if 'b' not in rawmode:
            rawmode += 'b'
        with passthru():
            f = _real_open(p, rawmode, buffering=0)
        raw = SimRaw(self, f, p, mode)
        binary = 'b' in mode
        if '+' in mode:
            b = io.BufferedRandom(raw)
            return b if binary else io.TextIOWrapper(b, encoding, errors, newline)
        if wr:
            if buffering == 0 and binary:
                return raw
            b = io.BufferedWriter(raw, self.bufsize if self.bufsize else 1)
            if binary:
                return SimWriter(b, raw, p, mode)
            return io.TextIOWrapper(b, encoding, errors, newline, line_buffering=False)
        b = io.BufferedReader(raw)
        return b if binary else io.TextIOWrapper(b, encoding, errors, newline)


class SimRaw(io.RawIOBase):
    def __init__(self, fs, f, path, mode):
        self.fs, self.f, self.path, self._mode = fs, f, path, mode
        self.name = path
        self.mode = mode
        self.owner = core.cur_rank()
        self.wr = any(c in mode for c in 'wax+')

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self.f.fileno()

    def _dead(self):
        return self.fs.w.__dict__.get('over') or self.fs.dead(self.owner)

    def readinto(self, b):
        if self._dead():
            raise core.SimKill()
        frac = self.fs.op('read', self.path, False)
        mv = memoryview(b)
        if frac is not None and len(mv) > 1:
            mv = mv[:max(1, int(len(mv) * frac))]
        with passthru():
            return self.f.readinto(mv)

    def write(self, b):
        mv = memoryview(b).cast('B')
        n = len(mv)
        if self._dead():
            return n            # the process is gone; nothing reaches the disk

        def part(frac):
            with passthru():
                self.f.write(mv[:int(n * frac)])
        frac = self.fs.op('write', self.path, True, part)
        if frac is not None and n > 1:
            mv = mv[:max(1, int(n * frac))]
        with passthru():
            return self.f.write(mv)

    def seek(self, o, w=0):
        return self.f.seek(o, w)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        if self._dead():
            return size
        self.fs.op('ftruncate', self.path, True)
        return self.f.truncate(size)

    def close(self):
        if not self.closed:
            try:
                if self.wr and not self._dead() and core.cur_world() is self.fs.w and not getattr(core._tls, 'passthru', 0):
                    self.fs.op('close', self.path, True)
            finally:
                super().close()
                self.f.close()


class H5Rec(io.RawIOBase):
    """file in memory that remembers the writes"""

    def __init__(self):
        self.b = bytearray()
        self.p = 0
        self.log = []

    def readable(self):
        return True

    writable = seekable = readable

    def seek(self, o, w=0):
        self.p = o if w == 0 else self.p + o if w == 1 else len(self.b) + o
        return self.p

    def tell(self):
        return self.p

    def readinto(self, b):
        d = self.b[self.p:self.p + len(b)]
        b[:len(d)] = d
        self.p += len(d)
        return len(d)

    def write(self, d):
        d = bytes(d)
        self.log.append(('w', self.p, d))
        if len(self.b) < self.p:
            self.b.extend(bytes(self.p - len(self.b)))
        self.b[self.p:self.p + len(d)] = d
        self.p += len(d)
        return len(d)

    def truncate(self, n=None):
        n = self.p if n is None else n
        self.log.append(('t', n))
        del self.b[n:]
        self.b.extend(bytes(n - len(self.b)))
        return n


class SimWriter:
    """buffered binary writer; deliberately not an io.BufferedWriter so that
    numpy writes through it instead of through the file descriptor"""

    def __init__(self, b, raw, path, mode):
        self._b, self.raw, self.name, self.mode = b, raw, path, mode

    def write(self, d):
        return self._b.write(d)

    def writelines(self, ls):
        return self._b.writelines(ls)

    def flush(self):
        return self._b.flush()

    def close(self):
        return self._b.close()

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()

    def truncate(self, *a):
        return self._b.truncate(*a)

    def fileno(self):
        return self.raw.fileno()

    def seekable(self):
        return True

    def read(self, *a):         # numpy takes what has no `read` for a path
        raise io.UnsupportedOperation('read')

    readline = readlines = readinto = read

    def readable(self):
        return False

    def writable(self):
        return True

    def isatty(self):
        return False

    @property
    def closed(self):
        return self._b.closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ---------------------------------------------------------------------------
# patches (installed once per process)
# ---------------------------------------------------------------------------
def _sim_open(file, *a, **k):
    fs = active()
    if fs is not None:
        p = _path(file)
        if p is not None and fs.mine(p) and not (k.get('opener')):
            return fs.open(file, *a, **k)
    return _real_open(file, *a, **k)


def _wrap(mod, name, kind, mutating, npath=1, after=None):
    real = getattr(mod, name)
    _real[(mod.__name__, name)] = real

    def f(path, *a, **k):
        fs = active()
        p = _path(path)
        if fs is None or p is None or not fs.mine(p):
            return real(path, *a, **k)
        fs.op(kind, p, mutating)
        if name in ('getmtime', 'replace', 'rename'):
            fs.settle(p)
        with passthru():
            return real(path, *a, **k)
    f.__name__ = name
    f.__wrapped__ = real
    setattr(mod, name, f)


EPOCH = 2.2e9               # later than any real time stamp
STAMPED = ('write', 'ftruncate', 'truncate', 'open_w')
_real_stat = os.stat


class SimClock:
    """per-rank wall clock. mode: normal | frozen | coarse | back | forward | skew"""

    def __init__(self, mode='normal', seed=0, size=1):
        import random
        self.mode = mode
        self.n = 0
        r = random.Random(seed)
        self.off = [r.uniform(-1e6, 1e6) if mode in ('skew', 'back') else 0.0 for _ in range(size)]
        self.jumps = sorted(r.randrange(1, 400) for _ in range(12))
        self.jdir = [r.choice([-1, 1]) * r.choice([1e-9, 0.5, 3600.0, 1e7]) for _ in range(12)]
        self.base = EPOCH
        self.server = r.uniform(-1e6, 1e6) if mode in ('skew', 'back') else 0.0
        self.cur = 0.0
        self.reads = 0
        self.tick = 0

    def now(self):
        self.n += 1
        self.reads += 1
        m = self.mode
        if m == 'frozen':
            return self.base
        if m == 'coarse':
            return self.base + (self.n // 64) * 15.6e-3
        if m == 'forward':
            self.cur += 3600.0 * 24
        elif m == 'back':
            self.cur -= 0.01
            for j, d in zip(self.jumps, self.jdir):
                if j == self.n:
                    self.cur += d
        else:
            self.cur += 1e-4
        r = core.cur_rank() or 0
        return self.base + self.cur + self.off[r % len(self.off)]

    def stamp(self):
        """the file server's time"""
        if self.mode == 'frozen':
            return self.base
        if self.mode == 'coarse':
            return self.base + (self.n // 64) * 15.6e-3
        self.tick += 1
        return self.base + self.cur + 1e-6 * self.tick + self.server

    def mono(self):
        """a clock that never goes back, whatever the wall clock does"""
        self.n += 1
        self.reads += 1
        if self.mode in ('frozen', 'coarse'):
            return 1e4 + (self.n // 64) * 15.6e-3
        return 1e4 + self.n * 1e-4


_installed = False
SIM_DATETIME = []           # given to pyspod modules that use datetime (harness.boot)


def install():
    """patch the process once; inert outside simulated ranks"""
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = _sim_open
    io.open = _sim_open
    for name in ('exists', 'isfile', 'isdir', 'getsize', 'getmtime'):
        _wrap(os.path, name, 'stat', False)
    for name, kind in (('makedirs', 'mkdir'), ('mkdir', 'mkdir'), ('remove', 'remove'), ('unlink', 'remove'),
                       ('rmdir', 'remove'), ('replace', 'rename'), ('rename', 'rename'), ('truncate', 'truncate')):
        _wrap(os, name, kind, True)
    for name in ('listdir', 'scandir'):
        _wrap(os, name, 'listdir', False)
    _wrap(_glob, 'glob', 'listdir', False)
    _wrap(shutil, 'rmtree', 'remove', True)

    def sim_stat(path, *a, **k):
        fs = active()
        p = _path(path)
        if fs is not None and p is not None and fs.mine(p):
            with passthru():
                fs.settle(p)
        return _real_stat(path, *a, **k)
    os.stat = sim_stat

    real_time = _time.time
    _real[('time', 'time')] = real_time

    def sim_time():
        w = core.cur_world()
        if w is None:
            return real_time()
        c = w.__dict__.get('clock')
        return c.now() if c is not None else real_time()
    _time.time = sim_time

    def clock():
        w = core.cur_world()
        return w.__dict__.get('clock') if w is not None else None

    def patch(name, fn):
        real = getattr(_time, name)

        def f(*a):
            c = clock()
            return real(*a) if c is None else fn(c, real, *a)
        f.__name__ = name
        setattr(_time, name, f)
    for name in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
        patch(name, lambda c, real: c.mono())
        patch(name + '_ns', lambda c, real: int(c.mono() * 1e9))
    patch('time_ns', lambda c, real: int(c.now() * 1e9))
    for name in ('localtime', 'gmtime', 'ctime'):
        patch(name, lambda c, real, t=None: real(c.now() if t is None else t))
    real_local = _time.localtime
    patch('strftime', lambda c, real, f, t=None: real(f, real_local() if t is None else t))
    import datetime as _dt
    real_dt, real_date = _dt.datetime, _dt.date

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real_dt)

        def __subclasscheck__(cls, x):
            return issubclass(x, real_dt)

    class datetime(real_dt, metaclass=Meta):
        def __new__(cls, *a, **k):
            return real_dt(*a, **k)

        @classmethod
        def now(cls, tz=None):
            c = clock()
            return real_dt.now(tz) if c is None else real_dt.fromtimestamp(c.now(), tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now(_dt.timezone.utc).replace(tzinfo=None)
    SIM_DATETIME.append(datetime)
    real_sleep = _time.sleep

    def sim_sleep(s):
        w = core.cur_world()
        if w is None:
            return real_sleep(s)
        w.step('sleep')
    _time.sleep = sim_sleep

    # memory from np.empty holds garbage: make it a visible kind of garbage
    import numpy as np

    def poison(real):
        def f(*a, **k):
            out = real(*a, **k)
            if core.cur_world() is not None and out.size:
                kind = out.dtype.kind
                if kind in 'fc':
                    out[...] = np.nan
                elif kind in 'iu':
                    out[...] = np.iinfo(out.dtype).max - 5
            return out
        f.__name__ = real.__name__
        f.__wrapped__ = real
        return f
    np.empty = poison(np.empty)
    np.empty_like = poison(np.empty_like)

    import h5py
    real_h5 = h5py.File

    class SimH5File(real_h5):
        """reads: fault points at open and at every dataset; writes: HDF5 writes into memory, its writes are then handed
        to the storage one by one, in their order, when the file is closed"""
        _sim = None

        def __init__(self, name, mode='r', *a, **k):
            fs = active()
            p = _path(name) if not hasattr(name, 'id') else None
            rec = None
            if fs is not None and p is not None and fs.mine(p):
                wr = mode not in ('r',)
                fs.op('h5open_w' if wr else 'h5open_r', p, wr)
                if wr:
                    rec = H5Rec()
                    with passthru():
                        there = os.path.exists(p)
                        if there and mode in ('x', 'w-'):
                            raise FileExistsError(errno.EEXIST, 'exists', p)
                        if there and mode in ('a', 'r+'):
                            with _real_open(p, 'rb') as f:
                                rec.b = bytearray(f.read())
                            mode = 'r+'
                        else:
                            if mode == 'r+':
                                raise FileNotFoundError(errno.ENOENT, 'No such file', p)
                            _real_open(p, 'wb').close()
                            mode = 'w'
            with passthru():
                super().__init__(name if rec is None else rec, mode, *a, **k)
            if rec is not None:
                self._sim = (fs, p, rec)

        def close(self):
            with passthru():
                super().close()
            if self._sim is not None:
                (fs, p, rec), self._sim = self._sim, None
                if fs.dead():
                    raise core.SimKill()
                for q in rec.log:
                    if q[0] == 't':
                        fs.truncate(p, q[1])
                    else:
                        fs.pwrite(p, q[1], q[2])
                fs.op('close', p, True)
    SimH5File.__name__ = 'File'
    h5py.File = SimH5File

    real_arr, real_get = h5py.Dataset.__array__, h5py.Dataset.__getitem__

    from h5py._objects import phil as h5lock

    def h5op(ds):
        fs = active()
        if fs is not None:
            p = _path(ds.file.filename)
            if p is not None and fs.mine(p):
                n = 0                       # processes do not share the lock of the HDF5 library
                while True:
                    try:
                        h5lock.release()
                        n += 1
                    except RuntimeError:
                        break
                try:
                    fs.op('h5read', p, False)
                finally:
                    for _ in range(n):
                        h5lock.acquire()

    def sim_arr(self, *a, **k):
        h5op(self)
        with passthru():
            return real_arr(self, *a, **k)

    def sim_get(self, *a, **k):
        h5op(self)
        with passthru():
            return real_get(self, *a, **k)
    h5py.Dataset.__array__ = sim_arr
    h5py.Dataset.__getitem__ = sim_get

    from xarray.backends.netCDF4_ import NetCDF4ArrayWrapper
    real_nc = NetCDF4ArrayWrapper._getitem

    def sim_nc(self, key):
        fs = active()
        if fs is not None:
            p = _path(self.datastore._filename)
            if p is not None and fs.mine(p):
                fs.op('ncread', p, False)
        with passthru():
            return real_nc(self, key)
    NetCDF4ArrayWrapper._getitem = sim_nc

    import xarray as xr
    real_xo = xr.open_dataset

    def sim_xo(path, *a, **k):
        fs = active()
        p = _path(path)
        if fs is not None and p is not None and fs.mine(p):
            fs.op('ncopen', p, False)
        with passthru():
            return real_xo(path, *a, **k)
    xr.open_dataset = sim_xo


def snapshot(root, skip=()):
    """{relative path: content hash} of a directory tree"""
    import hashlib
    out = {}
    with passthru():
        for d, ds, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                r = os.path.relpath(p, root)
                if any(s in r for s in skip):
                    continue
                with _real_open(p, 'rb') as fh:
                    out[r] = hashlib.blake2b(fh.read(), digest_size=8).hexdigest()
    return out
