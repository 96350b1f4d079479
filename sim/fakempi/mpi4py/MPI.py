"""Simulated mpi4py.MPI: same call interface as the real module for everything
the library (and plausible rewrites of it) needs, executed under the seeded
scheduler of /verif/sim/core.py.

MPI semantics kept: reliable, non-overtaking point-to-point messages per
(source, dest, tag, communicator); sends may be buffered or synchronous;
nonblocking operations complete at any later time; collectives are matched by
call order per communicator and only synchronise as much as their data flow
requires; nonatomic MPI-IO (writes become visible to others at sync/close).
"""
import copy as _copy
import io as _io
import os as _os
import pickle as _pickle
import hashlib as _hashlib
import numbers as _numbers
import builtins as _bi
import numpy as _np
import core as _core

VERSION = 3
SUBVERSION = 1

SUCCESS = 0
ERR_TYPE = 3
ERR_TRUNCATE = 15
ERR_OP = 10
ERR_REQUEST = 7
ERR_IO = 35
ERR_NO_SPACE = 36
ERR_READ_ONLY = 40
ERR_ACCESS = 20
ERR_FILE = 27
ERR_NO_SUCH_FILE = 42
ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -4
UNDEFINED = -32766
MODE_RDONLY, MODE_RDWR, MODE_WRONLY, MODE_CREATE, MODE_EXCL = 2, 8, 4, 1, 64
MODE_DELETE_ON_CLOSE, MODE_APPEND, MODE_SEQUENTIAL = 16, 128, 256
SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
ORDER_C, ORDER_F, ORDER_FORTRAN = 56, 57, 57
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = 0, 1, 2, 3
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3


class _InPlace(int):
    pass


IN_PLACE = _InPlace(1)
BOTTOM = None


class Exception(RuntimeError):
    def __init__(self, ierr=0, text=''):
        super().__init__(f'MPI error {ierr} {text}')
        self.error_code = ierr

    def Get_error_class(self):
        return self.error_code

    def Get_error_string(self):
        return str(self)


_RealException = _bi.Exception


class Info(dict):
    @classmethod
    def Create(cls, *a):
        return cls()

    def Set(self, k, v):
        self[k] = v

    def Free(self):
        pass


INFO_NULL = Info()


# ---------------------------------------------------------------------------
# datatypes
# ---------------------------------------------------------------------------
class Datatype:
    def __init__(self, size=0, np_dtype=None, name='', layout=None, base=None, count=1, predefined=False):
        self._size = size
        self._np = np_dtype
        self.name = name
        self._layout = layout          # None | ('sub', sizes, subsizes, starts, order)
        self._base = base              # element datatype for layouts / contiguous
        self._count = count
        self._freed = False
        self._predef = predefined

    def Get_size(self):
        return self._size

    @property
    def size(self):
        return self._size

    def Get_extent(self):
        return (0, self._extent())

    @property
    def extent(self):
        return self._extent()

    def _extent(self):
        if self._layout and self._layout[0] == 'sub':
            return int(_np.prod(self._layout[1], dtype=_np.int64)) * self._base._extent()
        if self._layout and self._layout[0] == 'resized':
            return self._layout[2]
        return self._size

    def Get_name(self):
        return self.name

    def Commit(self):
        return self

    def Free(self):
        self._freed = True

    def Dup(self):
        d = Datatype(self._size, self._np, 'Dup ' + self.name, self._layout, self._base, self._count)
        return d

    def _prim(self):
        """(numpy dtype of the primitive element)"""
        if self._np is not None:
            return self._np
        if self._base is not None:
            return self._base._prim()
        return _np.dtype('u1')

    def Create_contiguous(self, count):
        return Datatype(self._size * count, None, 'contig', None, self, count)

    def Create_vector(self, count, blocklength, stride):
        sizes = [count * stride if count else 0]
        segs = []
        for i in range(count):
            segs.append((i * stride * self._size, blocklength * self._size))
        return Datatype(self._size * count * blocklength, None, 'vector', ('segs', segs), self)

    def Create_indexed(self, blocklengths, displacements):
        segs = [(d * self._size, b * self._size) for b, d in zip(blocklengths, displacements)]
        return Datatype(sum(s for _, s in segs), None, 'indexed', ('segs', segs), self)

    def Create_resized(self, lb, extent):
        return Datatype(self._size, self._np, 'resized', ('resized', lb, extent, self._layout), self)

    def Create_subarray(self, sizes, subsizes, starts, order=ORDER_C):
        sizes = [_index(x) for x in sizes]
        subsizes = [_index(x) for x in subsizes]
        starts = [_index(x) for x in starts]
        if not (len(sizes) == len(subsizes) == len(starts)):
            raise ValueError('subarray: rank mismatch')
        for n, m, s in zip(sizes, subsizes, starts):
            if n < 1 or m < 1 or s < 0 or s + m > n:
                raise Exception(12, f'bad subarray {sizes} {subsizes} {starts}')
        n = 1
        for m in subsizes:
            n *= m
        return Datatype(self._size * n, None, 'subarray', ('sub', sizes, subsizes, starts, order), self)

    def _segments(self):
        """byte (offset, length) runs of one instance of this type, in order"""
        if self._layout is None:
            return [(0, self._size)] if self._size else []
        if self._layout[0] == 'segs':
            return list(self._layout[1])
        if self._layout[0] == 'resized':
            return [(0, self._size)]
        _, sizes, sub, st, order = self._layout
        es = self._base._size
        if order == ORDER_C:
            o = list(zip(sizes, sub, st))
        else:
            o = list(zip(sizes, sub, st))[::-1]
        # o: slowest .. fastest
        run = o[-1]
        offs = [run[2]]
        stride = run[0]
        strides = [1]
        for n, _, _ in o[::-1][:-1]:
            strides.append(strides[-1] * n)
        strides = strides[::-1]
        idx = _np.zeros(1, dtype=_np.int64)
        for (n, m, s), sd in zip(o[:-1], strides[:-1]):
            idx = (idx[:, None] + ((s + _np.arange(m)) * sd)[None, :]).reshape(-1)
        idx = idx + run[2]
        return [(int(i) * es, run[1] * es) for i in idx]

    def __eq__(self, o):
        return isinstance(o, Datatype) and (self is o or (
            self._np is not None and self._np == o._np and self._layout == o._layout))

    __hash__ = object.__hash__


def _index(x):
    import operator
    return operator.index(x)


def _pre(name, t):
    d = _np.dtype(t)
    return Datatype(d.itemsize, d, name, predefined=True)


BYTE = Datatype(1, _np.dtype('u1'), 'MPI_BYTE', predefined=True)
PACKED = BYTE
CHAR = Datatype(1, _np.dtype('i1'), 'MPI_CHAR', predefined=True)
SIGNED_CHAR = _pre('MPI_SIGNED_CHAR', 'i1')
UNSIGNED_CHAR = _pre('MPI_UNSIGNED_CHAR', 'u1')
SHORT = INT16_T = _pre('MPI_SHORT', 'i2')
UNSIGNED_SHORT = UINT16_T = _pre('MPI_UNSIGNED_SHORT', 'u2')
INT = INT32_T = _pre('MPI_INT', 'i4')
UNSIGNED = UINT32_T = _pre('MPI_UNSIGNED', 'u4')
LONG = LONG_LONG = INT64_T = AINT = OFFSET = COUNT = _pre('MPI_LONG', 'i8')
UNSIGNED_LONG = UNSIGNED_LONG_LONG = UINT64_T = _pre('MPI_UNSIGNED_LONG', 'u8')
INT8_T, UINT8_T = SIGNED_CHAR, UNSIGNED_CHAR
FLOAT = REAL = REAL4 = _pre('MPI_FLOAT', 'f4')
DOUBLE = DOUBLE_PRECISION = REAL8 = _pre('MPI_DOUBLE', 'f8')
LONG_DOUBLE = _pre('MPI_LONG_DOUBLE', 'g')
C_FLOAT_COMPLEX = C_COMPLEX = COMPLEX = F_COMPLEX = COMPLEX8 = _pre('MPI_C_FLOAT_COMPLEX', 'c8')
C_DOUBLE_COMPLEX = DOUBLE_COMPLEX = COMPLEX16 = F_DOUBLE_COMPLEX = _pre('MPI_C_DOUBLE_COMPLEX', 'c16')
C_LONG_DOUBLE_COMPLEX = _pre('MPI_C_LONG_DOUBLE_COMPLEX', 'G')
C_BOOL = BOOL = CXX_BOOL = _pre('MPI_C_BOOL', '?')
DATATYPE_NULL = Datatype(0, None, 'MPI_DATATYPE_NULL', predefined=True)

_typemap = {}
for _d in (CHAR, SIGNED_CHAR, UNSIGNED_CHAR, SHORT, UNSIGNED_SHORT, INT, UNSIGNED, LONG, UNSIGNED_LONG,
           FLOAT, DOUBLE, LONG_DOUBLE, C_FLOAT_COMPLEX, C_DOUBLE_COMPLEX, C_LONG_DOUBLE_COMPLEX, C_BOOL):
    _typemap[_d._np] = _d
_typedict = {k.char: v for k, v in _typemap.items()}
_typedict.update({'l': LONG, 'q': LONG, 'Q': UNSIGNED_LONG, 'L': UNSIGNED_LONG})


def _type_of(dtype):
    dtype = _np.dtype(dtype)
    if not dtype.isnative:
        raise BufferError(f"format string '{dtype.str}' with non-native byte order")
    try:
        return _typemap[dtype]
    except KeyError:
        pass
    if dtype.char == 'e':
        raise Exception(ERR_TYPE)
    raise KeyError(f"cannot map '{dtype.str}' to MPI datatype")


# ---------------------------------------------------------------------------
# ops
# ---------------------------------------------------------------------------
class Op:
    def __init__(self, name, fn, np_fn=None, commute=True, kinds=None):
        self.name, self._fn, self._npfn, self._commute, self._kinds = name, fn, np_fn, commute, kinds

    @classmethod
    def Create(cls, function, commute=False):
        def npfn(a, b):
            b = b.copy()
            function(a, b, None)
            return b
        return cls('user', function, npfn, commute)

    def __call__(self, a, b):
        return self._fn(a, b)

    def Is_commutative(self):
        return self._commute

    def Free(self):
        pass


SUM = Op('SUM', lambda a, b: a + b, _np.add, True, 'iufc')
PROD = Op('PROD', lambda a, b: a * b, _np.multiply, True, 'iufc')
MAX = Op('MAX', lambda a, b: b if b > a else a, _np.maximum, True, 'iuf')
MIN = Op('MIN', lambda a, b: b if b < a else a, _np.minimum, True, 'iuf')
LAND = Op('LAND', lambda a, b: bool(a) & bool(b), lambda a, b: _np.logical_and(a, b).astype(a.dtype), True, 'iub')
LOR = Op('LOR', lambda a, b: bool(a) | bool(b), lambda a, b: _np.logical_or(a, b).astype(a.dtype), True, 'iub')
LXOR = Op('LXOR', lambda a, b: bool(a) ^ bool(b), lambda a, b: _np.logical_xor(a, b).astype(a.dtype), True, 'iub')
BAND = Op('BAND', lambda a, b: a & b, _np.bitwise_and, True, 'iu')
BOR = Op('BOR', lambda a, b: a | b, _np.bitwise_or, True, 'iu')
BXOR = Op('BXOR', lambda a, b: a ^ b, _np.bitwise_xor, True, 'iu')
MAXLOC = Op('MAXLOC', lambda a, b: a if (a[0] > b[0] or (a[0] == b[0] and a[1] <= b[1])) else b)
MINLOC = Op('MINLOC', lambda a, b: a if (a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1])) else b)
REPLACE = Op('REPLACE', lambda a, b: b)


# ---------------------------------------------------------------------------
# buffers
# ---------------------------------------------------------------------------
class _Buf:
    """a contiguous message buffer: .mem flat uint8 view, .type, .count"""
    __slots__ = ('mem', 'type', 'count', 'counts', 'displs', 'keep', 'auto')

    def nbytes(self):
        return self.count * self.type._size


def _mem(o, writable=False):
    if o is None:
        return _np.empty(0, 'u1'), None
    if isinstance(o, _np.ndarray) or hasattr(o, '__array_interface__'):
        a = o if isinstance(o, _np.ndarray) else _np.asarray(o)
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise BufferError('dlpack: buffer is not contiguous')
        if writable and not a.flags.writeable:
            raise BufferError('buffer source array is read-only')
        flat = a.reshape(-1, order='C' if a.flags.c_contiguous else 'F')
        if flat.size and not _np.shares_memory(flat, a):
            raise BufferError('buffer not contiguous')
        return flat.view('u1') if flat.size else _np.empty(0, 'u1'), a.dtype
    mv = memoryview(o)
    if writable and mv.readonly:
        raise BufferError('Object is not writable.')
    mv = mv.cast('B') if mv.nbytes else mv
    return (_np.frombuffer(mv, dtype='u1') if mv.nbytes else _np.empty(0, 'u1')), \
        (_np.dtype('u1') if isinstance(o, (bytes, bytearray)) else _np.dtype(memoryview(o).format))


def _buf(spec, writable=False, vector=False, nranks=None):
    b = _Buf()
    b.counts = b.displs = None
    b.auto = False
    count = None
    typ = None
    obj = spec
    if isinstance(spec, (list, tuple)):
        spec = list(spec)
        obj = spec[0]
        rest = spec[1:]
        if rest and isinstance(rest[-1], (Datatype, str)):
            typ = rest.pop()
            if isinstance(typ, str):
                typ = _typedict[typ]
        if len(rest) == 1:
            r = rest[0]
            if r is None:
                pass
            elif isinstance(r, (tuple, list)) and len(r) == 2 and (
                    hasattr(r[0], '__len__') or r[1] is None or hasattr(r[1], '__len__')):
                count = r[0]
                b.displs = r[1]
            else:
                count = r
        elif len(rest) == 2:
            count, b.displs = rest
    mem, dt = _mem(obj, writable)
    b.keep = obj
    b.mem = mem
    if typ is None:
        typ = BYTE if obj is None else (BYTE if isinstance(obj, (bytes, bytearray)) else _type_of(dt))
        b.auto = True
    if typ is DATATYPE_NULL:
        raise Exception(ERR_TYPE)
    b.type = typ
    if vector:
        if count is None:
            tot = mem.size // max(typ._size, 1)
            if tot % nranks:
                raise ValueError(f'message: buffer with {tot} items does not split over {nranks} ranks')
            count = [tot // nranks] * nranks
        elif hasattr(count, '__len__') or isinstance(count, _np.ndarray):
            count = [_index(c) for c in list(count)]
        else:
            count = [_index(count)] * nranks
        b.counts = count
        if b.displs is None:
            d = [0]
            for c in count[:-1]:
                d.append(d[-1] + c)
            b.displs = d
        else:
            b.displs = [_index(x) for x in list(b.displs)]
        for c, d in zip(b.counts, b.displs):
            if (c and (d + c) * typ._size > mem.size) or c < 0:
                raise ValueError(f'message: buffer too small for requested counts ({c}@{d})')
        b.count = sum(count)
        return b
    if hasattr(count, '__len__'):
        count = list(count)[0] if len(count) == 1 else _bi.sum(_index(c) for c in count)
    if count is None:
        if b.displs not in (None, 0):
            pass
        if typ._size == 0:
            count = 0
        elif typ._predef or typ._np is not None:
            if mem.size % typ._size:
                raise ValueError(f'message: buffer length {mem.size} is not a multiple of datatype size {typ._size}')
            count = mem.size // typ._size
        else:
            # derived type: number of whole extents that fit
            ex = typ._extent()
            if mem.size % ex and mem.size < ex:
                raise ValueError(f'message: buffer length {mem.size} is not a multiple of datatype extent {ex}')
            if mem.size % ex:
                raise ValueError(f'message: buffer length {mem.size} is not a multiple of datatype extent {ex}')
            count = mem.size // ex
    else:
        count = _index(count)
        if count * typ._extent() > mem.size:
            raise ValueError(f'message: buffer too small for requested count {count}')
    b.count = count
    return b


def _gather_bytes(b, count=None, start=0):
    """message payload (copy)"""
    n = b.count if count is None else count
    t = b.type
    if t._layout is None:
        return b.mem[start:start + n * t._size].copy()
    out = []
    ex = t._extent()
    for i in range(n):
        for o, l in t._segments():
            out.append(b.mem[start + i * ex + o:start + i * ex + o + l])
    return _np.concatenate(out) if out else _np.empty(0, 'u1')


def _scatter_bytes(b, data, start=0):
    t = b.type
    if t._layout is None:
        b.mem[start:start + data.size] = data
        return
    ex = t._extent()
    p = 0
    i = 0
    while p < data.size:
        for o, l in t._segments():
            l = min(l, data.size - p)
            b.mem[start + i * ex + o:start + i * ex + o + l] = data[p:p + l]
            p += l
            if p >= data.size:
                break
        i += 1


# ---------------------------------------------------------------------------
# per-world engine
# ---------------------------------------------------------------------------
class Engine:
    """MPI state of one simulated job."""

    def __init__(self, world, cfg=None, fs=None):
        cfg = cfg or {}
        self.w = world
        world.mpi = self
        world.services.append(self)
        self.send_mode = cfg.get('send_mode', 'random')      # eager | rendezvous | random
        self.coll_mode = cfg.get('coll_mode', 'min')          # min | full | random
        self.sync_mode = cfg.get('io_sync', 'min')            # does File.Sync synchronise?
        self.reduce_mode = cfg.get('reduce', 'random')        # order | random
        self.poison = cfg.get('poison', True)
        self.fs = fs
        self.comms = 0
        self.world_state = _CommState(self, list(range(world.size)))
        self.handles = {}
        self.reqs = []
        self.files = []
        self.leaks = []
        self.stats = world.stats

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def comm_world(self, rank):
        if rank not in self.handles:
            self.handles[rank] = Intracomm(self.world_state, rank)
        return self.handles[rank]

    def on_kill(self, world, crash):
        for f in self.files:
            f._lost(crash)

    def on_end(self, world):
        if not world.ok or world.violation is not None:
            for f in self.files:
                f._lost(False)
            return
        # communication hygiene at the end of a successful job
        for f in self.files:
            op = [r for r in range(len(f.members)) if not f.closed[r]]
            if op:
                self.leaks.append(f'shared file {_os.path.basename(f.path)} still open on ranks {op}')
        for r in self.reqs:
            if not r._done and not r._freed:
                self.leaks.append(f'pending {r._what} on rank {r._rank}')
            elif r._done and not r._waited and not r._freed:
                self.leaks.append(f'{r._what} on rank {r._rank} never waited for')
        for cs in _CommState.all_of(self):
            for key, q in cs.sends.items():
                for m in q:
                    self.leaks.append(f'message {key} never received')
            for key, q in cs.recvs.items():
                for m in q:
                    if not m.req._done:
                        self.leaks.append(f'receive {key} never matched')
            for i, s in sorted(cs.slots.items()):
                if len(s.arrived) != len(cs.members):
                    self.leaks.append(f'collective {s.name} #{i} entered by ranks {sorted(s.arrived)} only')
        if self.leaks:
            world.violation = _core.Violation('comm-leak', '; '.join(sorted(set(self.leaks))[:6]))


class _Slot:
    __slots__ = ('name', 'sig', 'arrived', 'cache', 'done', 'first')

    def __init__(self, name, sig):
        self.name, self.sig = name, sig
        self.arrived = {}
        self.cache = {}
        self.done = 0


class _Msg:
    __slots__ = ('src', 'dst', 'tag', 'buf', 'req', 'data', 'csum', 'pick', 'matched')


class _Recv:
    __slots__ = ('src', 'tag', 'buf', 'req', 'matched')


class _CommState:
    _reg = {}

    def __init__(self, eng, members, kind='intra', dims=None, periods=None):
        self.eng = eng
        self.members = members
        self.id = eng.comms
        eng.comms += 1
        self.slots = {}
        self.seq = [0] * len(members)
        self.sends = {}     # (src,dst) -> [msgs] unmatched in order
        self.recvs = {}     # dst -> [recvs] unmatched in order
        self.dims = dims
        self.periods = periods
        self.kind = kind
        self.freed = set()
        eng.__dict__.setdefault('_comms', []).append(self)

    @staticmethod
    def all_of(eng):
        return eng.__dict__.get('_comms', [])


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.error = 0
        self._nbytes = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return 0

    def Get_count(self, datatype=None):
        t = datatype or BYTE
        if t._size == 0:
            return 0
        return self._nbytes // t._size if self._nbytes % t._size == 0 else UNDEFINED

    def Get_elements(self, datatype):
        return self._nbytes // datatype._prim().itemsize

    @property
    def count(self):
        return self._nbytes

    def Is_cancelled(self):
        return False


class Request:
    def __init__(self, eng=None, what='', rank=None):
        self._eng = eng
        self._what = what
        self._rank = rank
        self._done = eng is None
        self._waited = eng is None
        self._freed = False
        self._status = Status()
        self._result = None
        self._err = None
        self._poll = None
        if eng is not None:
            eng.reqs.append(self)

    def _check(self):
        if not self._done and self._poll is not None:
            self._poll()
        return self._done

    def _fin(self, status=None):
        self._waited = True
        if status is not None:
            status.__dict__.update(self._status.__dict__)
        if self._err:
            e, self._err = self._err, None
            raise e
        return self._result

    def Wait(self, status=None):
        if self._eng is not None:
            self._eng.w.wait(self._check, f'Wait({self._what})')
        self._fin(status)
        return True

    def Test(self, status=None):
        if self._eng is not None:
            self._eng.w.step('Test')
        if self._check():
            self._fin(status)
            return True
        return False

    def wait(self, status=None):
        if self._eng is not None:
            self._eng.w.wait(self._check, f'wait({self._what})')
        return self._fin(status)

    def test(self, status=None):
        if self._eng is not None:
            self._eng.w.step('test')
        if self._check():
            return True, self._fin(status)
        return False, None

    def Free(self):
        self._freed = True

    def Cancel(self):
        self._freed = True

    @classmethod
    def Waitall(cls, requests, statuses=None):
        requests = list(requests)
        engs = [r for r in requests if r._eng is not None]
        if engs:
            w = engs[0]._eng.w
            w.wait(lambda: all([r._check() for r in engs]), f'Waitall({len(engs)})')
        for r in requests:
            r._fin()
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        requests = list(requests)
        cls_engs = [r for r in requests if r._eng is not None]
        if cls_engs:
            w = cls_engs[0]._eng.w
            w.wait(lambda: all([r._check() for r in cls_engs]), f'waitall({len(cls_engs)})')
        return [r._fin() for r in requests]

    @classmethod
    def Waitany(cls, requests, status=None):
        requests = list(requests)
        w = _core.cur_world()
        act = [i for i, r in enumerate(requests) if r._eng is not None and not r._waited]
        if not act:
            return UNDEFINED
        w.wait(lambda: any([requests[i]._check() for i in act]), f'Waitany({len(act)})')
        ready = [i for i in act if requests[i]._check()]
        i = ready[w.ch.choose(len(ready))]
        requests[i]._fin(status)
        return i

    @classmethod
    def waitany(cls, requests, status=None):
        i = cls.Waitany(requests, status)
        return i, requests[i]._result

    @classmethod
    def Waitsome(cls, requests, statuses=None):
        i = cls.Waitany(requests)
        return None if i == UNDEFINED else [i]

    @classmethod
    def Testall(cls, requests, statuses=None):
        w = _core.cur_world()
        w.step('Testall')
        if all([r._check() for r in requests]):
            for r in requests:
                r._fin()
            return True
        return False

    @classmethod
    def Testany(cls, requests, status=None):
        w = _core.cur_world()
        w.step('Testany')
        act = [i for i, r in enumerate(requests) if r._eng is not None and not r._waited]
        if not act:
            return UNDEFINED, True
        ready = [i for i in act if requests[i]._check()]
        if not ready:
            return UNDEFINED, False
        i = ready[w.ch.choose(len(ready))]
        requests[i]._fin(status)
        return i, True

    testall = Testall


class Prequest(Request):
    """persistent communication: inactive until Start"""

    def __init__(self, make):
        super().__init__()
        self._make = make
        self._cur = None

    def Start(self):
        if self._cur is not None and not self._cur._waited:
            raise Exception(ERR_REQUEST, 'Start of an active persistent request')
        self._cur = r = self._make()
        self._eng, self._waited, self._done = r._eng, False, False

    @classmethod
    def Startall(cls, requests):
        for r in requests:
            r.Start()

    def _check(self):
        return True if self._cur is None else self._cur._check()

    def _fin(self, status=None):
        self._waited = True
        self._eng = None
        return self._cur._fin(status) if self._cur is not None else None

    def Free(self):
        if self._cur is not None:
            self._cur.Free()


class Message:
    def __init__(self, comm, m):
        self._comm, self._m = comm, m

    def Recv(self, buf, status=None):
        self._comm._irecv(buf, self._m.src, self._m.tag, False, what='Mrecv', only=self._m).Wait(status)

    def recv(self, status=None):
        return self._comm._irecv(None, self._m.src, self._m.tag, True, what='mrecv', only=self._m).wait(status)

    def Irecv(self, buf):
        return self._comm._irecv(buf, self._m.src, self._m.tag, False, what='Imrecv', only=self._m)


REQUEST_NULL = Request()


def _isnum(x):
    return isinstance(x, (int, float, complex, _np.number, bool))


class Comm:
    def __init__(self, state=None, rank=0):
        if isinstance(state, Comm):          # cast
            state, rank = state._s, state._r
        self._s = state
        self._r = rank

    # -- basics ------------------------------------------------------------
    def Get_rank(self):
        return self._r

    def Get_size(self):
        return len(self._s.members)

    rank = property(Get_rank)
    size = property(Get_size)

    @property
    def name(self):
        return f'comm{self._s.id}'

    def Get_name(self):
        return self.name

    def Set_name(self, n):
        pass

    def __bool__(self):
        return self._s is not None

    def __eq__(self, o):
        return isinstance(o, Comm) and self._s is o._s and self._r == o._r

    __hash__ = object.__hash__

    def Abort(self, errorcode=0):
        raise SystemExit(errorcode)

    def Set_errhandler(self, h):
        pass

    @property
    def _e(self):
        if self._s is None:
            raise Exception(5, 'null communicator')
        if self._r in self._s.freed:
            raise Exception(5, 'freed communicator')
        return self._s.eng

    # -- collective engine ---------------------------------------------------
    def _enter(self, name, sig, payload):
        e = self._e
        s = self._s
        e.w.step(f'{name}[{s.id}]')
        i = s.seq[self._r]
        s.seq[self._r] += 1
        slot = s.slots.get(i)
        e.stat('mpi.' + name.split('@')[0])
        if slot is None:
            slot = s.slots[i] = _Slot(name, sig)
            slot.first = self._r
        else:
            if slot.name != name or slot.sig != sig:
                e.w.fail('collective-mismatch',
                         f'call #{i} on communicator {s.id}: rank {slot.first} is in {slot.name}{slot.sig}, '
                         f'rank {self._r} is in {name}{sig}')
        slot.arrived[self._r] = payload
        return slot

    def _coll(self, name, sig, payload, need, result):
        """need: iterable of ranks whose arrival is required for this rank"""
        e = self._e
        slot = self._enter(name, sig, payload)
        need = self._need(need)
        arr = slot.arrived
        if not all(r in arr for r in need):
            e.w.wait(lambda: all(r in arr for r in need), f'{name}[{self._s.id}] waiting')
        return result(slot)

    def _need(self, need):
        e = self._e
        full = e.coll_mode == 'full' or (e.coll_mode == 'random' and e.w.ch.flip(0.3))
        if full:
            return list(range(self.size))
        return list(need)

    def _icoll(self, name, sig, payload, need, result):
        e = self._e
        slot = self._enter(name, sig, payload)
        need = list(need)
        req = Request(e, name, self._r)
        arr = slot.arrived
        st = {'posted': False}

        def deliver():
            try:
                req._result = result(slot)
            except _RealException as ex:
                req._err = ex
            req._done = True

        def poll():
            if not st['posted'] and all(r in arr for r in need):
                st['posted'] = True
                e.w.post(f'{name}{self._s.id}/{self._r}', deliver)
        req._poll = poll
        # make completion independent of anyone polling
        s = self._s
        hooks = slot.cache.setdefault('_hooks', [])
        hooks.append(poll)
        for h in list(hooks):
            h()
        return req

    def _all(self):
        return range(self.size)

    # -- barriers ------------------------------------------------------------
    def Barrier(self):
        self._coll('Barrier', (), None, self._all(), lambda s: None)

    barrier = Barrier

    def Ibarrier(self):
        return self._icoll('Ibarrier', (), None, self._all(), lambda s: None)

    # -- bcast ---------------------------------------------------------------
    def _bcast_impl(self, buf, root, icoll):
        b = _buf(buf, writable=True)
        mem = _gather_bytes(b)
        payload = (mem.copy() if self._r == root else None)
        sig = (root, b.nbytes(), b.type._prim().str)

        def res(slot):
            if self._r != root:
                _scatter_bytes(b, slot.arrived[root])
        need = [root] if self._r != root else []
        if icoll:
            return self._icoll('Ibcast', sig, payload, need, res)
        self._coll('Bcast', sig, payload, need, res)

    def Bcast(self, buf, root=0):
        self._bcast_impl(buf, root, False)

    def Ibcast(self, buf, root=0):
        return self._bcast_impl(buf, root, True)

    def bcast(self, obj, root=0):
        payload = _pickle.dumps(obj, -1) if self._r == root else None
        return self._coll('bcast', (root,), payload, [root] if self._r != root else [],
                          lambda s: obj if self._r == root else _pickle.loads(s.arrived[root]))

    # -- reductions ------------------------------------------------------------
    def _order(self, slot, op, n):
        if 'order' not in slot.cache:
            o = list(range(n))
            e = self._e
            if op._commute and e.reduce_mode == 'random' and n > 2:
                for i in range(n - 1, 0, -1):
                    j = i - e.w.ch.choose(i + 1)
                    o[i], o[j] = o[j], o[i]
            slot.cache['order'] = o
        return slot.cache['order']

    def _reduced(self, slot, op, dt, upto=None):
        key = ('red', upto)
        if key not in slot.cache:
            n = self.size
            if upto is None:
                order = self._order(slot, op, n)
            else:
                order = list(range(upto))
            acc = None
            for r in order:
                v = slot.arrived[r].view(dt)
                with _np.errstate(all='ignore'):
                    acc = v.copy() if acc is None else op._npfn(acc, v).astype(dt, copy=False)
            slot.cache[key] = acc
        return slot.cache[key]

    def _red_bufs(self, sendbuf, recvbuf, op, need_recv=True):
        if not isinstance(op, Op):
            raise TypeError('op')
        r = _buf(recvbuf, writable=True) if need_recv else None
        if sendbuf is IN_PLACE:
            s = r
        else:
            s = _buf(sendbuf)
        if need_recv and s is not r and s.count != r.count:
            raise ValueError(f'mismatch in send count {s.count} and receive count {r.count}')
        dt = s.type._prim()
        if op._npfn is None:
            raise Exception(ERR_OP)
        if op._kinds is not None and dt.kind not in op._kinds:
            raise Exception(ERR_OP)
        return s, r, dt

    def _allreduce_impl(self, sendbuf, recvbuf, op, icoll):
        s, r, dt = self._red_bufs(sendbuf, recvbuf, op)
        payload = _gather_bytes(s)
        sig = (op.name, s.nbytes(), dt.str)

        def res(slot):
            _scatter_bytes(r, self._reduced(slot, op, dt).view('u1'))
        if icoll:
            return self._icoll('Iallreduce', sig, payload, self._all(), res)
        self._coll('Allreduce', sig, payload, self._all(), res)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        self._allreduce_impl(sendbuf, recvbuf, op, False)

    def Iallreduce(self, sendbuf, recvbuf, op=SUM):
        return self._allreduce_impl(sendbuf, recvbuf, op, True)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        isroot = self._r == root
        s, r, dt = self._red_bufs(sendbuf, recvbuf, op, isroot)
        payload = _gather_bytes(s)

        def res(slot):
            if isroot:
                _scatter_bytes(r, self._reduced(slot, op, dt).view('u1'))
        self._coll('Reduce', (op.name, root, s.nbytes(), dt.str), payload, self._all() if isroot else [], res)

    def Ireduce(self, sendbuf, recvbuf, op=SUM, root=0):
        isroot = self._r == root
        s, r, dt = self._red_bufs(sendbuf, recvbuf, op, isroot)
        payload = _gather_bytes(s)

        def res(slot):
            if isroot:
                _scatter_bytes(r, self._reduced(slot, op, dt).view('u1'))
        return self._icoll('Ireduce', (op.name, root, s.nbytes(), dt.str), payload, self._all() if isroot else [], res)

    def Scan(self, sendbuf, recvbuf, op=SUM):
        s, r, dt = self._red_bufs(sendbuf, recvbuf, op)
        payload = _gather_bytes(s)

        def res(slot):
            _scatter_bytes(r, self._reduced(slot, op, dt, self._r + 1).view('u1'))
        self._coll('Scan', (op.name, s.nbytes(), dt.str), payload, range(self._r + 1), res)

    def Exscan(self, sendbuf, recvbuf, op=SUM):
        s, r, dt = self._red_bufs(sendbuf, recvbuf, op)
        payload = _gather_bytes(s)

        def res(slot):
            if self._r > 0:
                _scatter_bytes(r, self._reduced(slot, op, dt, self._r).view('u1'))
        self._coll('Exscan', (op.name, s.nbytes(), dt.str), payload, range(self._r), res)

    def _pyred(self, vals, op):
        """rank-ordered, random association (op assumed associative)"""
        vals = list(vals)
        e = self._e
        numeric = all(isinstance(v, (_numbers.Number, _np.generic, _np.ndarray)) for v in vals)
        if numeric and isinstance(op, Op) and op._commute and e.reduce_mode == 'random' and len(vals) > 2:
            for i in range(len(vals) - 1, 0, -1):
                j = i - e.w.ch.choose(i + 1)
                vals[i], vals[j] = vals[j], vals[i]
        while len(vals) > 1:
            k = e.w.ch.choose(len(vals) - 1) if e.reduce_mode == 'random' else 0
            vals[k:k + 2] = [op(vals[k], vals[k + 1])]
        return vals[0]

    def _opname(self, op):
        return op.name if isinstance(op, Op) else 'pyop'

    def allreduce(self, sendobj, op=SUM):
        def res(slot):
            if 'v' not in slot.cache:
                slot.cache['v'] = _pickle.dumps(self._pyred(
                    [_pickle.loads(slot.arrived[r]) for r in range(self.size)], op), -1)
            return _pickle.loads(slot.cache['v'])
        return self._coll('allreduce', (self._opname(op),), _pickle.dumps(sendobj, -1), self._all(), res)

    def reduce(self, sendobj, op=SUM, root=0):
        isroot = self._r == root

        def res(slot):
            if isroot:
                return self._pyred([_pickle.loads(slot.arrived[r]) for r in range(self.size)], op)
        return self._coll('reduce', (self._opname(op), root), _pickle.dumps(sendobj, -1),
                          self._all() if isroot else [], res)

    def scan(self, sendobj, op=SUM):
        return self._coll('scan', (self._opname(op),), _pickle.dumps(sendobj, -1), range(self._r + 1),
                          lambda s: self._pyred([_pickle.loads(s.arrived[r]) for r in range(self._r + 1)], op))

    def exscan(self, sendobj, op=SUM):
        return self._coll('exscan', (self._opname(op),), _pickle.dumps(sendobj, -1), range(self._r),
                          lambda s: self._pyred([_pickle.loads(s.arrived[r]) for r in range(self._r)], op)
                          if self._r else None)

    # -- gather family -----------------------------------------------------------
    def gather(self, sendobj, root=0):
        isroot = self._r == root
        return self._coll('gather', (root,), _pickle.dumps(sendobj, -1), self._all() if isroot else [],
                          lambda s: [_pickle.loads(s.arrived[r]) for r in self._all()] if isroot else None)

    def allgather(self, sendobj):
        return self._coll('allgather', (), _pickle.dumps(sendobj, -1), self._all(),
                          lambda s: [_pickle.loads(s.arrived[r]) for r in self._all()])

    def scatter(self, sendobj, root=0):
        isroot = self._r == root
        payload = None
        if isroot:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError(f'expecting {self.size} items, got {len(sendobj)}')
            payload = [_pickle.dumps(o, -1) for o in sendobj]
        return self._coll('scatter', (root,), payload, [root] if not isroot else [],
                          lambda s: _pickle.loads(s.arrived[root][self._r]))

    def alltoall(self, sendobj):
        payload = [_pickle.dumps(o, -1) for o in sendobj]
        return self._coll('alltoall', (), payload, self._all(),
                          lambda s: [_pickle.loads(s.arrived[r][self._r]) for r in self._all()])

    def _place(self, rb, r, data):
        if data.size > rb.counts[r] * rb.type._size:
            raise Exception(ERR_TRUNCATE, f'rank {r} sent {data.size} bytes, room for {rb.counts[r]*rb.type._size}')
        _scatter_bytes(rb, data, rb.displs[r] * rb.type._extent())

    def _gather_common(self, name, sendbuf, recvbuf, root, vector, icoll, everyone):
        isrecv = everyone or self._r == root
        rb = None
        if isrecv:
            rb = _buf(recvbuf, writable=True, vector=True, nranks=self.size)
        if sendbuf is IN_PLACE:
            o = rb.displs[self._r] * rb.type._extent()
            payload = rb.mem[o:o + rb.counts[self._r] * rb.type._size].copy()
            dts = rb.type._prim().str
        else:
            sb = _buf(sendbuf)
            payload = _gather_bytes(sb)
            dts = sb.type._prim().str

        def res(slot):
            if isrecv:
                for r in self._all():
                    self._place(rb, r, slot.arrived[r])
        need = self._all() if isrecv else []
        sig = (None if everyone else root, dts)
        if icoll:
            # payload captured at delivery for nonblocking: keep sender's view
            return self._icoll('I' + name.lower(), sig, payload, need, res)
        return self._coll(name, sig, payload, need, res)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._gather_common('Gather', sendbuf, recvbuf, root, False, False, False)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._gather_common('Gatherv', sendbuf, recvbuf, root, True, False, False)

    def Igather(self, sendbuf, recvbuf, root=0):
        return self._gather_common('Gather', sendbuf, recvbuf, root, False, True, False)

    def Igatherv(self, sendbuf, recvbuf, root=0):
        return self._gather_common('Gatherv', sendbuf, recvbuf, root, True, True, False)

    def Allgather(self, sendbuf, recvbuf):
        self._gather_common('Allgather', sendbuf, recvbuf, 0, False, False, True)

    def Allgatherv(self, sendbuf, recvbuf):
        self._gather_common('Allgatherv', sendbuf, recvbuf, 0, True, False, True)

    def Iallgather(self, sendbuf, recvbuf):
        return self._gather_common('Allgather', sendbuf, recvbuf, 0, False, True, True)

    def Iallgatherv(self, sendbuf, recvbuf):
        return self._gather_common('Allgatherv', sendbuf, recvbuf, 0, True, True, True)

    def _scatter_common(self, name, sendbuf, recvbuf, root, icoll=False):
        isroot = self._r == root
        payload = None
        if isroot:
            sb = _buf(sendbuf, vector=True, nranks=self.size)
            ex = sb.type._extent()
            payload = [_gather_bytes(sb, sb.counts[r], sb.displs[r] * ex) for r in self._all()]
        rb = None if recvbuf is IN_PLACE else _buf(recvbuf, writable=True)

        def res(slot):
            d = slot.arrived[root][self._r]
            if rb is not None:
                if d.size > rb.nbytes():
                    raise Exception(ERR_TRUNCATE)
                _scatter_bytes(rb, d)
        if icoll:
            return self._icoll('I' + name.lower(), (root,), payload, [root], res)
        self._coll(name, (root,), payload, [] if isroot else [root], res)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._scatter_common('Scatter', sendbuf, recvbuf, root)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._scatter_common('Scatterv', sendbuf, recvbuf, root)

    def Iscatter(self, sendbuf, recvbuf, root=0):
        return self._scatter_common('Scatter', sendbuf, recvbuf, root, True)

    def Iscatterv(self, sendbuf, recvbuf, root=0):
        return self._scatter_common('Scatterv', sendbuf, recvbuf, root, True)

    def _alltoall_common(self, name, sendbuf, recvbuf, icoll=False):
        sb = _buf(sendbuf, vector=True, nranks=self.size)
        rb = _buf(recvbuf, writable=True, vector=True, nranks=self.size)
        ex = sb.type._extent()
        payload = [_gather_bytes(sb, sb.counts[r], sb.displs[r] * ex) for r in self._all()]

        def res(slot):
            for r in self._all():
                self._place(rb, r, slot.arrived[r][self._r])
        if icoll:
            return self._icoll('I' + name.lower(), (), payload, self._all(), res)
        self._coll(name, (), payload, self._all(), res)

    def Alltoall(self, sendbuf, recvbuf):
        self._alltoall_common('Alltoall', sendbuf, recvbuf)

    def Alltoallv(self, sendbuf, recvbuf):
        self._alltoall_common('Alltoallv', sendbuf, recvbuf)

    def Alltoallw(self, sendbuf, recvbuf):
        self._alltoallw(sendbuf, recvbuf, False)

    def Ialltoallw(self, sendbuf, recvbuf):
        return self._alltoallw(sendbuf, recvbuf, True)

    def _alltoallw(self, sendbuf, recvbuf, icoll):
        def parts(b, writable):
            if len(b) == 3:
                counts, displs = b[1] if isinstance(b[1], tuple) else (b[1], [0] * self.size)
                types = b[2]
            else:
                counts, displs, types = [1] * self.size, [0] * self.size, b[1]
            mem = _buf([b[0], BYTE] if not isinstance(b[0], _np.ndarray) else b[0], writable=writable)
            out = []
            for c, d, t in zip(counts, displs, types):
                x = _copy.copy(mem)
                x.type, x.count, x.mem = t, c, mem.mem[d:]
                out.append(x)
            return out
        sp = parts(sendbuf, False)
        rp = parts(recvbuf, True)
        payload = [_gather_bytes(x) if x.count and x.type._size else _np.zeros(0, 'u1') for x in sp]

        def res(slot):
            for r in self._all():
                d = slot.arrived[r][self._r]
                if d.size != rp[r].nbytes():
                    raise Exception(ERR_TRUNCATE, 'Alltoallw sizes do not match')
                if d.size:
                    _scatter_bytes(rp[r], d)
        if icoll:
            return self._icoll('Ialltoallw', (), payload, self._all(), res)
        self._coll('Alltoallw', (), payload, self._all(), res)

    def Ialltoall(self, sendbuf, recvbuf):
        return self._alltoall_common('Alltoall', sendbuf, recvbuf, True)

    def Reduce_scatter(self, sendbuf, recvbuf, recvcounts=None, op=SUM):
        s = _buf(sendbuf)
        r = _buf(recvbuf, writable=True)
        dt = s.type._prim()
        if recvcounts is None:
            recvcounts = [s.count // self.size] * self.size
        payload = _gather_bytes(s)
        lo = sum(recvcounts[:self._r]) * dt.itemsize

        def res(slot):
            _scatter_bytes(r, self._reduced(slot, op, dt).view('u1')[lo:lo + r.nbytes()])
        self._coll('Reduce_scatter', (op.name, s.nbytes(), dt.str), payload, self._all(), res)

    def Reduce_scatter_block(self, sendbuf, recvbuf, op=SUM):
        self.Reduce_scatter(sendbuf, recvbuf, None, op)

    def Ialltoallv(self, sendbuf, recvbuf):
        return self._alltoall_common('Alltoallv', sendbuf, recvbuf, True)

    # -- point to point ------------------------------------------------------------
    def _try_match(self, dst):
        """match posted receives of dst with messages, in order"""
        s = self._s
        e = self._e
        rq = s.recvs.setdefault(dst, [])
        i = 0
        while i < len(rq):
            rv = rq[i]
            cands = []
            srcs = range(self.size) if rv.src == ANY_SOURCE else [rv.src]
            for src in srcs:
                for m in s.sends.get((src, dst), []):
                    if m.pick == (not isinstance(rv.buf, _Buf)) and (rv.tag == ANY_TAG or rv.tag == m.tag):
                        cands.append(m)
                        break
            if not cands:
                i += 1
                continue
            m = cands[e.w.ch.choose(len(cands))]
            s.sends[(m.src, dst)].remove(m)
            rq.pop(i)
            self._link(m, rv)

    def _link(self, m, rv):
        e = self._e
        n = m.data.size if not m.pick and m.data is not None else None
        if not m.pick:
            nbytes = m.buf.nbytes() if m.data is None else m.data.size
            if e.poison and nbytes <= rv.buf.nbytes() and rv.buf.type._layout is None:
                rv.buf.mem[:nbytes] = 0xAB      # undefined until the receive completes

        def deliver():
            rv.req._status.source = m.src
            rv.req._status.tag = m.tag
            if m.pick:
                rv.req._result = _pickle.loads(m.data)
            else:
                data = m.data
                if data is None:
                    data = _gather_bytes(m.buf)
                    if _csum(data) != m.csum:
                        e.w.violation = e.w.violation or _core.Violation(
                            'send-buffer-changed', f'message {m.src}->{m.dst} changed before its send completed')
                if data.size > rv.buf.nbytes():
                    rv.req._err = Exception(ERR_TRUNCATE, f'message of {data.size} bytes for buffer of {rv.buf.nbytes()}')
                else:
                    _scatter_bytes(rv.buf, data)
                rv.req._status._nbytes = data.size
            rv.req._done = True
            m.req._done = True
            m.buf = None
        e.w.post(f'{m.src}>{m.dst}', deliver)

    def _isend(self, buf, dest, tag, pick, sync=False, what='Isend'):
        e = self._e
        e.w.step(f'{what}>{dest}')
        e.stat('mpi.' + what)
        req = Request(e, f'{what} to {dest}', self._r)
        if dest == PROC_NULL:
            req._done = True
            return req
        if not (0 <= dest < self.size):
            raise Exception(6, f'invalid rank {dest}')
        m = _Msg()
        m.src, m.dst, m.tag, m.req, m.pick = self._r, dest, tag, req, pick
        m.data = None
        if pick:
            m.data = _pickle.dumps(buf, -1)
            m.buf = None
        else:
            m.buf = _buf(buf)
            d = _gather_bytes(m.buf)
            m.csum = _csum(d)
        eager = not sync and (e.send_mode == 'eager' or (e.send_mode == 'random' and not e.w.ch.flip(0.5)))
        if eager:
            if not pick:
                m.data = d
            req._done = True
            e.stat('mpi.eager')
        else:
            e.stat('mpi.rendezvous')
        self._s.sends.setdefault((self._r, dest), []).append(m)
        self._try_match(dest)
        return req

    def _irecv(self, buf, source, tag, pick, what='Irecv', only=None):
        e = self._e
        e.w.step(f'{what}<{source}')
        e.stat('mpi.' + what)
        req = Request(e, f'{what} from {source}', self._r)
        if source == PROC_NULL:
            req._done = True
            return req
        if source != ANY_SOURCE and not (0 <= source < self.size):
            raise Exception(6, f'invalid rank {source}')
        rv = _Recv()
        rv.src, rv.tag, rv.req = source, tag, req
        rv.buf = None if pick else _buf(buf, writable=True)
        if only is not None:            # a message already matched by Mprobe
            self._link(only, rv)
            return req
        self._s.recvs.setdefault(self._r, []).append(rv)
        self._try_match(self._r)
        return req

    def Isend(self, buf, dest, tag=0):
        return self._isend(buf, dest, tag, False)

    def Issend(self, buf, dest, tag=0):
        return self._isend(buf, dest, tag, False, True)

    Ibsend = Irsend = Isend

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(buf, source, tag, False)

    def isend(self, obj, dest, tag=0):
        return self._isend(obj, dest, tag, True, what='isend')

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(None, source, tag, True, what='irecv')

    def Send(self, buf, dest, tag=0):
        self._isend(buf, dest, tag, False, what='Send').Wait()

    def Ssend(self, buf, dest, tag=0):
        self._isend(buf, dest, tag, False, True, what='Ssend').Wait()

    Bsend = Rsend = Send

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._irecv(buf, source, tag, False, what='Recv').Wait(status)

    def send(self, obj, dest, tag=0):
        self._isend(obj, dest, tag, True, what='send').wait()

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._irecv(None, source, tag, True, what='recv').wait(status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self._irecv(recvbuf, source, recvtag, False, what='Recv')
        s = self._isend(sendbuf, dest, sendtag, False, what='Send')
        s.Wait()
        r.Wait(status)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self._irecv(None, source, recvtag, True, what='recv')
        s = self._isend(sendobj, dest, sendtag, True, what='send')
        s.wait()
        return r.wait(status)

    def _probe_ok(self, source, tag):
        for src in (range(self.size) if source == ANY_SOURCE else [source]):
            for m in self._s.sends.get((src, self._r), []):
                if tag == ANY_TAG or tag == m.tag:
                    return m
        return None

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._e.w.wait(lambda: self._probe_ok(source, tag) is not None, 'Probe')
        m = self._probe_ok(source, tag)
        if status is not None:
            status.source, status.tag = m.src, m.tag
            status._nbytes = len(m.data) if m.data is not None else m.buf.nbytes()
        return True

    probe = Probe

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._e.w.step('Iprobe')
        m = self._probe_ok(source, tag)
        if m is not None and status is not None:
            status.source, status.tag = m.src, m.tag
            status._nbytes = len(m.data) if m.data is not None else m.buf.nbytes()
        return m is not None

    iprobe = Iprobe

    def Mprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.Probe(source, tag, status)
        return self._take(source, tag)

    def Improbe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._take(source, tag) if self.Iprobe(source, tag, status) else None

    mprobe, improbe = Mprobe, Improbe

    def _take(self, source, tag):
        m = self._probe_ok(source, tag)
        self._s.sends[(m.src, self._r)].remove(m)
        return Message(self, m)

    def Send_init(self, buf, dest, tag=0):
        return Prequest(lambda: self._isend(buf, dest, tag, False))

    Ssend_init = Bsend_init = Rsend_init = Send_init

    def Recv_init(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Prequest(lambda: self._irecv(buf, source, tag, False))

    # -- communicator management -----------------------------------------------------
    def _newcomm(self, name, sig, payload, build):
        """build(slot) -> {rank: (members)} groups as list of member lists; same on all"""
        def res(slot):
            if 'groups' not in slot.cache:
                slot.cache['groups'] = [_CommState(self._e, [self._s.members[m] for m in g[0]], *g[1])
                                        for g in build(slot)]
                slot.cache['map'] = {}
                for st, g in zip(slot.cache['groups'], slot.cache['_g']):
                    for k, m in enumerate(g[0]):
                        slot.cache['map'][m] = (st, k)
            return slot.cache['map'].get(self._r)
        return self._coll(name, sig, payload, self._all(), res)

    def Dup(self, info=None):
        def build(slot):
            slot.cache['_g'] = [(list(self._all()), (self._s.kind, self._s.dims, self._s.periods))]
            return slot.cache['_g']
        st, k = self._newcomm('Dup', (), None, build)
        return type(self)(st, k)

    Clone = Dup

    def Split(self, color=0, key=0):
        def build(slot):
            cols = {}
            for r in self._all():
                c, ky = slot.arrived[r]
                if c != UNDEFINED:
                    cols.setdefault(c, []).append((ky, r))
            slot.cache['_g'] = [([r for _, r in sorted(v)], ('intra',)) for _, v in sorted(cols.items())]
            return slot.cache['_g']
        x = self._newcomm('Split', (), (_index(color), _index(key)), build)
        return COMM_NULL if x is None else Intracomm(*x)

    def Split_type(self, split_type, key=0, info=None):
        return self.Split(0, key)

    def Free(self):
        if self._s is None:
            raise Exception(5)
        e = self._e
        e.w.step(f'Comm.Free[{self._s.id}]')
        self._s.freed.add(self._r)

    Disconnect = Free

    def Get_parent(self):
        return COMM_NULL

    def Is_inter(self):
        return False

    def Is_intra(self):
        return True

    @staticmethod
    def Compare(a, b):
        return IDENT if a == b else UNEQUAL


class Intracomm(Comm):
    def Create_cart(self, dims, periods=None, reorder=False):
        dims = [_index(d) for d in (dims if hasattr(dims, '__len__') else [dims])]
        n = 1
        for d in dims:
            n *= d
        if n > self.size:
            raise Exception(12, f'dims {dims} need more than {self.size} ranks')
        per = [False] * len(dims) if periods is None else (
            [bool(periods)] * len(dims) if not hasattr(periods, '__len__') else list(periods))

        def build(slot):
            slot.cache['_g'] = [(list(range(n)), ('cart', dims, per))]
            return slot.cache['_g']
        x = self._newcomm('Create_cart', (tuple(dims), tuple(per)), None, build)
        return COMM_NULL if x is None else Cartcomm(*x)


class Cartcomm(Intracomm):
    def Get_topo(self):
        return list(self._s.dims), list(self._s.periods), self.Get_coords(self._r)

    topo = property(Get_topo)

    @property
    def dims(self):
        return list(self._s.dims)

    @property
    def ndim(self):
        return len(self._s.dims)

    def Get_dim(self):
        return len(self._s.dims)

    def Get_coords(self, rank):
        return [int(c) for c in _np.unravel_index(rank, tuple(self._s.dims))]

    @property
    def coords(self):
        return self.Get_coords(self._r)

    def Get_cart_rank(self, coords):
        return int(_np.ravel_multi_index(tuple(coords), tuple(self._s.dims)))

    def Sub(self, remain_dims):
        rem = [bool(x) for x in remain_dims]

        def build(slot):
            cols = {}
            for r in self._all():
                c = self.Get_coords(r)
                key = tuple(v for v, k in zip(c, rem) if not k)
                cols.setdefault(key, []).append(r)
            dims = [d for d, k in zip(self._s.dims, rem) if k]
            per = [d for d, k in zip(self._s.periods, rem) if k]
            slot.cache['_g'] = [(v, ('cart', dims, per)) for _, v in sorted(cols.items())]
            return slot.cache['_g']
        x = self._newcomm('Sub', (tuple(rem),), None, build)
        return Cartcomm(*x)

    def Shift(self, direction, disp):
        c = self.Get_coords(self._r)
        out = []
        for sgn in (-1, 1):
            k = list(c)
            k[direction] += sgn * disp
            if self._s.periods[direction]:
                k[direction] %= self._s.dims[direction]
            out.append(self.Get_cart_rank(k) if 0 <= k[direction] < self._s.dims[direction] else PROC_NULL)
        return tuple(out)


COMM_NULL = Comm(None, 0)


def _csum(a):
    return _hashlib.blake2b(a.tobytes(), digest_size=8).digest()


def Compute_dims(nnodes, dims):
    nd = dims if isinstance(dims, int) else len(dims)
    fixed = [0] * nd if isinstance(dims, int) else list(dims)
    free = [i for i, d in enumerate(fixed) if not d]
    rest = nnodes
    for d in fixed:
        if d:
            if rest % d:
                raise Exception(12)
            rest //= d
    best = None

    def rec(n, k, mx):
        if k == 1:
            if n <= mx:
                yield [n]
            return
        for d in range(min(n, mx), 0, -1):
            if n % d == 0:
                for t in rec(n // d, k - 1, d):
                    yield [d] + t
    for c in rec(rest, len(free), rest) if free else [[]]:
        if best is None or max(c) - min(c) < max(best) - min(best):
            best = c
    for i, v in zip(free, best):
        fixed[i] = v
    return fixed


# ---------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------
class _FileState:
    def __init__(self, eng, path, members, amode):
        self.eng = eng
        self.path = path
        self.members = members
        self.amode = amode
        self.closed = {r: False for r in range(len(members))}
        self.cache = {r: [] for r in range(len(members))}
        eng.files.append(self)

    def _flush(self, r):
        c, self.cache[r] = self.cache[r], []
        for off, data in c:
            self.eng.fs.pwrite(self.path, off, data)

    def _lost(self, crash):
        """job dies: unsynced writes of a rank may or may not have reached the file"""
        for r in self.cache:
            c, self.cache[r] = self.cache[r], []
            if not c:
                continue
            k = self.eng.w.ch.choose(len(c) + 1)
            for off, data in c[:k]:
                self.eng.fs.raw_pwrite(self.path, off, data)
            if k < len(c) and len(c[k][1]) > 1 and self.eng.w.ch.flip(0.5):
                off, data = c[k]
                n = 1 + self.eng.w.ch.choose(len(data) - 1)
                self.eng.fs.raw_pwrite(self.path, off, data[:n])
                self.eng.stat('fault.torn_mpiio')


class File:
    def __init__(self, other=None):
        if other is not None:
            self._comm, self._f, self._pos, self._view = other._comm, other._f, other._pos, other._view

    @classmethod
    def Open(cls, comm, filename, amode=MODE_RDONLY, info=None):
        path = _os.fspath(filename)
        if isinstance(path, bytes):
            path = path.decode()
        e = comm._e
        path = e.fs.abspath(path)

        def res(slot):
            if 'f' not in slot.cache:
                slot.cache['f'] = None
                try:
                    e.fs.mpi_open(path, bool(amode & MODE_CREATE), bool(amode & (MODE_WRONLY | MODE_RDWR)),
                                  bool(amode & MODE_EXCL))
                    slot.cache['f'] = _FileState(e, path, comm._s.members, amode)
                except OSError as ex:
                    slot.cache['f'] = _mpi_err(ex)
            if slot.cache['f'] is None:
                e.w.wait(lambda: slot.cache['f'] is not None, 'File.Open pending')
            f = slot.cache['f']
            if isinstance(f, Exception):
                raise Exception(f.error_code, f.args[0])
            o = File()
            o._comm, o._f, o._pos, o._view = comm, f, [0], [0, BYTE, BYTE]
            return o
        o = comm._coll('File.Open', (path, amode), None, comm._all(), res)
        return o

    def _chk(self, write=None):
        if self._f.closed[self._comm._r]:
            raise Exception(ERR_FILE, 'closed file')
        if write and not self._f.amode & (MODE_WRONLY | MODE_RDWR):
            raise Exception(ERR_READ_ONLY, 'file opened read-only')
        if write is False and self._f.amode & MODE_WRONLY:
            raise Exception(ERR_ACCESS, 'file opened write-only')

    def Close(self):
        e = self._comm._e
        r = self._comm._r
        self._chk()
        self._comm._enter('File.Close', (self._f.path,), None)
        try:
            self._f._flush(r)
        except OSError as ex:
            self._f.closed[r] = True
            raise _mpi_err(ex)
        self._f.closed[r] = True
        if e.sync_mode == 'full':
            self._comm._coll('File.Close2', (), None, self._comm._all(), lambda s: None)

    def Sync(self):
        e = self._comm._e
        self._chk()
        self._comm._enter('File.Sync', (self._f.path,), None)
        try:
            self._f._flush(self._comm._r)
        except OSError as ex:
            raise _mpi_err(ex)
        if e.sync_mode == 'full':
            self._comm._coll('File.Sync2', (), None, self._comm._all(), lambda s: None)

    def Set_size(self, size):
        self._chk(True)

        def res(slot):
            if 'd' not in slot.cache:
                slot.cache['d'] = None
                try:
                    self._comm._e.fs.truncate(self._f.path, size)
                    slot.cache['d'] = True
                except OSError as ex:
                    slot.cache['d'] = _mpi_err(ex)
            if slot.cache['d'] is None:
                self._comm._e.w.wait(lambda: slot.cache['d'] is not None, 'File.Set_size pending')
            if slot.cache['d'] is not True:
                raise Exception(slot.cache['d'].error_code, slot.cache['d'].args[0])
        self._comm._coll('File.Set_size', (self._f.path, _index(size)), None, self._comm._all(), res)

    def Preallocate(self, size):
        self._chk(True)
        self._comm._coll('File.Preallocate', (self._f.path, _index(size)), None, self._comm._all(), lambda s: None)

    def Get_size(self):
        self._chk()
        self._comm._e.w.step('File.Get_size')
        n = self._comm._e.fs.size(self._f.path)
        for off, d in self._f.cache[self._comm._r]:
            n = max(n, off + len(d))
        return n

    size = property(Get_size)

    def Get_amode(self):
        return self._f.amode

    def Set_view(self, disp=0, etype=None, filetype=None, datarep='native', info=None):
        self._chk()
        etype = etype or BYTE
        filetype = filetype or etype
        if etype._freed or filetype._freed:
            raise Exception(ERR_TYPE, 'freed datatype in Set_view')
        self._comm._coll('File.Set_view', (self._f.path, etype._size), None,
                         [self._comm._r], lambda s: None)
        self._view[:] = [_index(disp), etype, filetype]
        self._pos[0] = 0

    def Get_view(self):
        return self._view[0], self._view[1], self._view[2], 'native'

    def Set_atomicity(self, flag):
        pass

    def Get_position(self):
        return self._pos[0]

    def Get_byte_offset(self, off):
        d, et, ft = self._view
        return d + off * et._size

    def Seek(self, offset, whence=SEEK_SET):
        if whence == SEEK_SET:
            self._pos[0] = offset
        elif whence == SEEK_CUR:
            self._pos[0] += offset
        else:
            self._pos[0] = self.Get_size() // self._view[1]._size + offset

    def _runs(self, etype_off, nbytes):
        """file byte runs for nbytes starting at etype offset within the view"""
        d, et, ft = self._view
        skip = etype_off * et._size
        if ft._layout is None:
            return [(d + skip, nbytes)] if nbytes else []
        if nbytes == 0:
            return []
        segs = ft._segments()
        ext = ft._extent()
        if ft._size == 0:
            raise Exception(ERR_IO, 'data beyond an empty file view')
        out = []
        tile = skip // ft._size
        skip -= tile * ft._size
        left = nbytes
        while left > 0:
            for o, l in segs:
                if skip >= l:
                    skip -= l
                    continue
                o, l = o + skip, l - skip
                skip = 0
                l = min(l, left)
                out.append((d + tile * ext + o, l))
                left -= l
                if left == 0:
                    break
            tile += 1
        return out

    def _write(self, buf, off, what):
        self._chk(True)
        e = self._comm._e
        b = _buf(buf)
        data = _gather_bytes(b).tobytes()
        e.stat('mpi.' + what)
        ft = self._view[2]
        if len(data) and ft._size == 0:
            raise Exception(ERR_IO, 'data beyond an empty file view')
        pos = self._pos[0] if off is None else off
        p = 0
        for o, l in self._runs(pos, len(data)):
            self._f.cache[self._comm._r].append((o, data[p:p + l]))
            p += l
        # the library may flush early: any rank's write may become visible at once
        if self._f.cache[self._comm._r] and e.w.ch.flip(0.5):
            try:
                self._f._flush(self._comm._r)
            except OSError as ex:
                raise _mpi_err(ex)
        if off is None:
            self._pos[0] += len(data) // self._view[1]._size
        return len(data)

    def _read(self, buf, off, status, what):
        self._chk(False)
        e = self._comm._e
        b = _buf(buf, writable=True)
        e.stat('mpi.' + what)
        pos = self._pos[0] if off is None else off
        got = []
        n = 0
        for o, l in self._runs(pos, b.nbytes()):
            try:
                d = e.fs.pread(self._f.path, o, l)
            except OSError as ex:
                raise _mpi_err(ex)
            own = self._f.cache[self._comm._r]
            if own:
                m = bytearray(d)
                for wo, wd in own:
                    for i in range(len(wd)):
                        q = wo + i - o
                        if 0 <= q < l:
                            if q >= len(m):
                                m.extend(b'\0' * (q + 1 - len(m)))
                            m[q] = wd[i]
                d = bytes(m)
            got.append(d)
            n += len(d)
            if len(d) < l:
                break
        data = _np.frombuffer(b''.join(got), 'u1')
        _scatter_bytes(b, data)
        if off is None:
            self._pos[0] += n // self._view[1]._size
        if status is not None:
            status._nbytes = n
        return n

    def Write(self, buf, status=None):
        self._comm._e.w.step('File.Write')
        n = self._write(buf, None, 'File.Write')
        if status is not None:
            status._nbytes = n

    def Write_at(self, offset, buf, status=None):
        self._comm._e.w.step('File.Write_at')
        self._write(buf, _index(offset), 'File.Write_at')

    def Read(self, buf, status=None):
        self._comm._e.w.step('File.Read')
        self._read(buf, None, status, 'File.Read')

    def Read_at(self, offset, buf, status=None):
        self._comm._e.w.step('File.Read_at')
        self._read(buf, _index(offset), status, 'File.Read_at')

    def Write_all(self, buf, status=None):
        self._comm._coll('File.Write_all', (self._f.path,), None,
                         [self._comm._r], lambda s: None)
        self._write(buf, None, 'File.Write_all')

    def Write_at_all(self, offset, buf, status=None):
        self._comm._coll('File.Write_at_all', (self._f.path,), None,
                         [self._comm._r], lambda s: None)
        self._write(buf, _index(offset), 'File.Write_at_all')

    def Read_all(self, buf, status=None):
        self._comm._coll('File.Read_all', (self._f.path,), None,
                         [self._comm._r], lambda s: None)
        self._read(buf, None, status, 'File.Read_all')

    def Read_at_all(self, offset, buf, status=None):
        self._comm._coll('File.Read_at_all', (self._f.path,), None,
                         [self._comm._r], lambda s: None)
        self._read(buf, _index(offset), status, 'File.Read_at_all')

    # nonblocking forms: the transfer happens when it is started, errors show at completion
    def _later(self, f, *a):
        r = Request()
        try:
            f(*a, r._status) if f.__name__.startswith('Read') else f(*a)
        except Exception as ex:
            r._err = ex
        return r

    def Iwrite(self, buf):
        return self._later(self.Write, buf)

    def Iread(self, buf):
        return self._later(self.Read, buf)

    def Iwrite_at(self, offset, buf):
        return self._later(self.Write_at, offset, buf)

    def Iread_at(self, offset, buf):
        return self._later(self.Read_at, offset, buf)

    def Iwrite_all(self, buf):
        return self._later(self.Write_all, buf)

    def Iread_all(self, buf):
        return self._later(self.Read_all, buf)

    def Iwrite_at_all(self, offset, buf):
        return self._later(self.Write_at_all, offset, buf)

    def Iread_at_all(self, offset, buf):
        return self._later(self.Read_at_all, offset, buf)

    @staticmethod
    def Delete(filename, info=None):
        _core.cur_world().mpi.fs.remove(_os.fspath(filename))

    def __bool__(self):
        return not self._f.closed[self._comm._r]


def _mpi_err(ex):
    import errno
    code = {errno.ENOSPC: ERR_NO_SPACE, errno.EACCES: ERR_ACCESS, errno.EROFS: ERR_READ_ONLY,
            errno.ENOENT: ERR_NO_SUCH_FILE}.get(ex.errno, ERR_IO)
    return Exception(code, f'{ex}')


def Get_processor_name():
    return 'sim'


def Wtime():
    import time
    return time.time()


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init():
    pass


def Finalize():
    pass


def Query_thread():
    return THREAD_MULTIPLE


def Get_version():
    return (VERSION, SUBVERSION)


def Get_library_version():
    return 'simulated MPI'


def get_vendor():
    return ('sim', (1, 0, 0))


def __getattr__(name):
    if name == 'COMM_WORLD':
        w = _core.cur_world()
        if w is None or w.mpi is None:
            raise AttributeError('COMM_WORLD outside a simulated job')
        return w.mpi.comm_world(_core.cur_rank())
    if name == 'COMM_SELF':
        w = _core.cur_world()
        r = _core.cur_rank()
        st = w.mpi.__dict__.setdefault('_selfs', {})
        if r not in st:
            st[r] = Intracomm(_CommState(w.mpi, [r]), 0)
        return st[r]
    raise AttributeError(f'simulated mpi4py.MPI has no attribute {name!r}')


for _o in list(globals().values()):
    if isinstance(_o, type) and _o.__module__ == __name__:
        _o.__module__ = 'mpi4py.MPI'
