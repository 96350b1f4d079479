"""Per-property scenario generators and oracles.
gen(r) -> scenario (JSON-able) ; run(ctx) raises core.Violation on failure."""
import copy
import json
import os

import numpy as np

import core
import simfs
import ref
from core import Violation
from harness import (Ctx, M, Skip, Unreadable, as_input, check_spod, need, collect_spod, eig_close,
                     full_params, gen_data, gen_env, gen_shape, gen_spod, gen_spod_params, gen_supply, gen_wform, is_single, make_data, packed,
                     make_weights, ref_spod, run_fit, same_everywhere, scrub, true_weights, weights_arg, where, gen_sym)


def prod(x):
    return int(np.prod(x))


# ---------------------------------------------------------------------------
# C01 batch SPOD
# ---------------------------------------------------------------------------
def gen_c01(r):
    s = gen_spod(r)
    gen_wform(r, s, geo=True)
    s['kind'] = 'batch'
    if r.random() < 0.15:
        s['savefft'] = True
    if r.random() < 0.1:
        s['relative'] = True
    if r.random() < 0.01 and s['data']['nv'] == 1:         # known finding
        s['params']['normalize_weights'] = True
        s['wform'], s['weights'] = 'novar', r.randrange(1 << 30)
    d, p = s['data'], s['params']
    if r.random() < 0.05 and s.get('wform') != 'novar':    # modes of equal energy, or few
        p.pop('normalize_data', None)
        nd, nb = p['n_dft'], d['nt'] // p['n_dft']
        if r.random() < 0.8 and nb > 1:
            p['overlap'] = 0
            d.update(nt=nd * nb, cuts=[c for c in d['cuts'] if c < nd * nb])
        gen_sym(r, s, ['blocks'] * 3 + ['spread'] * 3 + ['wave', 'one', 'repeat', 'stop'], nd)
    return s


def run_c01(ctx):
    s = ctx.scn
    x = make_data(s['data'])
    d = as_input(s['data'], x)
    keep = copy.deepcopy(d)
    rf = ref_spod(s, x)
    ex = {'savefft': True} if s.get('savefft') else {}
    sd = ctx.path('res')
    if s.get('relative'):
        sd = os.path.relpath(sd, os.getcwd())
    j = run_fit(ctx, s, d, sd, extra=ex)
    same_everywhere(j.results)
    known = s.get('wform') == 'novar' and s['data']['nv'] == 1 and len(s['data']['xshape']) > 1
    if known and s['params'].get('normalize_weights') and s['weights'] is not None:
        need(ref.close(np.asarray(j.results[0]['weights']).reshape(-1), rf['weights'].reshape(-1), 1e-4,
                       'weights without a variable axis, to be normalised: stored weights'))
    check_spod(ctx, s, j.results[0], rf)
    unchanged(d, keep, 'data')
    n = s['size']
    if n > max(s['data']['xshape'] + [s['data']['nv']]):
        ctx.probe('empty_partition')
    if s['data']['complex']:
        ctx.probe('complex')
    if s['data']['cuts']:
        ctx.probe('list_of_arrays')
    if n == 0:
        ctx.probe('serial')


def unchanged(a, b, what):
    la = a if isinstance(a, list) else [a]
    lb = b if isinstance(b, list) else [b]
    for x, y in zip(la, lb):
        if not np.array_equal(np.asarray(x), np.asarray(y)):
            raise Violation('input-changed', f'{what} passed by the caller was modified')


# ---------------------------------------------------------------------------
# C02 streaming SPOD
# ---------------------------------------------------------------------------
class LazyArr:
    """array-like that reads its snapshots when they are used"""

    def __init__(self, a, t0, hub, idx=None):
        self._a, self._t0, self._hub = a, t0, hub
        self._idx = idx if idx is not None else np.arange(a.shape[0]) + t0

    shape = property(lambda s: s._a.shape)
    ndim = property(lambda s: s._a.ndim)
    dtype = property(lambda s: s._a.dtype)
    size = property(lambda s: s._a.size)

    def __len__(self):
        return self._a.shape[0]

    def __getitem__(self, k):
        a = self._a[k]
        k0 = k[0] if isinstance(k, tuple) else k
        idx = self._idx if k0 is Ellipsis else self._idx[k0]
        if isinstance(k0, slice) or k0 is Ellipsis:
            return LazyArr(a, 0, self._hub, idx)
        self._hub.read(np.atleast_1d(idx))
        return a

    def __array__(self, dtype=None, copy=None):
        self._hub.read(self._idx)
        return np.array(self._a, dtype=dtype)

    @property
    def values(self):
        return np.asarray(self)


class Hub:
    def __init__(self, fault=None):
        self.fault = fault
        self.fired = 0
        self.reads = 0

    def read(self, idx):
        self.reads += 1
        f = self.fault
        if f is not None and f['snap'] in idx and (f['rank'] is None or f['rank'] == core.cur_rank()):
            if f['times'] > self.fired:
                self.fired += 1
                raise {'OSError': OSError, 'RuntimeError': RuntimeError, 'ValueError': ValueError,
                       'IndexError': IndexError}[f['exc']](f'simulated error reading snapshot {f["snap"]}')


def gen_c02(r):
    s = gen_spod(r, streaming=True)
    s['kind'] = 'streaming'
    s['params'].pop('mean_type', None)
    if r.random() < 0.3:
        nt = s['data']['nt']
        s['read_fault'] = dict(snap=r.choice([0, nt - 1, r.randrange(nt), r.randrange(nt)]),
                               rank=r.choice([None, r.randrange(max(s['size'], 1))]),
                               times=r.choice([1, 10**6, 10**6]),
                               exc=r.choice(['OSError', 'OSError', 'RuntimeError', 'ValueError', 'IndexError']))
        if s['data']['form'] in ('xarray', 'xlist'):
            s['data']['form'] = {'xarray': 'array', 'xlist': 'list'}[s['data']['form']]
    return s


def ref_stream(s, x):
    p = s['params']
    w = true_weights(s)
    rf = ref.streaming(x, p['n_dft'], p.get('overlap', 0), p['time_step'], w, p.get('fullspectrum', False),
                       p.get('n_modes_save'))
    rf['ltm'] = rf['mean']
    return rf


def run_c02(ctx):
    s = ctx.scn
    x = make_data(s['data'])
    d = as_input(s['data'], x)
    rf = ref_stream(s, x)
    f = s.get('read_fault')
    hub = Hub(f)
    if f:
        parts = d if isinstance(d, list) else [d]
        t = 0
        out = []
        for p in parts:
            out.append(LazyArr(p, t, hub))
            t += p.shape[0]
        d = out if isinstance(d, list) else out[0]
    j = run_fit(ctx, s, d, ctx.path('res'), cls=M.Streaming, allow_fail=bool(f))
    if f:
        if hub.fired:
            ctx.stats['fault.read_snapshot'] = ctx.stats.get('fault.read_snapshot', 0) + 1
        if j.world.failed:
            if not hub.fired:
                _, e, _ = j.excs[0]
                raise Violation('exception', f'{type(e).__name__}: {scrub(str(e), ctx.root)[:200]} at {where(e)} '
                                'although no read failed')
            ctx.probe('read_error_reported')
            return
        if hub.fired:
            ctx.probe('read_error_survived')
    same_everywhere(j.results)
    check_spod(ctx, s, j.results[0], rf, stream=True)
    ctx.probe('blocks', rf['blocks_used'])


# ---------------------------------------------------------------------------
# C03 file readers
# ---------------------------------------------------------------------------
def gen_files(r, mat=None):
    mat = r.random() < 0.35 if mat is None else mat
    nd = 3 if mat else r.choice([1, 2, 2, 3])
    xshape = gen_shape(r, nd, 20)
    nv = r.choice([1, 1, 2, 3]) if r.random() > 0.02 else r.choice([5, 11])
    nt = r.randrange(9, 24) if not mat else r.randrange(1, 12)
    cuts = []
    if not mat and r.random() < 0.75:
        cuts = sorted(r.sample(range(1, nt), r.randrange(1, min(6 if r.random() > 0.04 else 14, nt))))
    names = [f'v{k}' for k in range(nv)] + ['aux'] * (r.random() < 0.3)
    if r.random() < 0.3:
        r.shuffle(names)
    return dict(seed=r.randrange(1 << 30), nt=nt, xshape=xshape, nv=nv, trail=True, complex=False, names=names,
                enc=r.choice(['zlib', 'nc3', 'unlimited', 'chunks']) if r.random() < 0.2 else None,
                quiet=[r.random(), r.random()] if r.random() < 0.06 else None,
                npdtype=r.choice(['f8', 'f8', 'f4', 'f4', 'i2', 'i4']), form='mat' if mat else 'nc', cuts=cuts, offset=1.0,
                times=r.choice(['range', 'range', 'none', 'restart', 'descending', 'repeat', 'units', 'big']))


def time_values(d, lo, hi):
    m = d['times']
    t = np.arange(lo, hi)
    if m == 'none':
        return None
    if m == 'restart':
        return np.arange(hi - lo) * 1.0
    if m == 'descending':
        return (1000.0 - t)
    if m == 'repeat':
        return (t // 3).astype(float)
    if m == 'big':
        return (1e7 + t * 0.25).astype('f4')
    return t * 0.5


def write_files(ctx, d, x):
    import xarray as xr
    import h5py
    nt = d['nt']
    out = []
    folder = ctx.path('data')
    os.makedirs(folder, exist_ok=True)
    with simfs.passthru():
        if d['form'] == 'mat':
            for t in range(nt):
                p = os.path.join(folder, f'step{t:05d}.mat')
                with h5py.File(p, 'w') as f:
                    f['q'] = np.moveaxis(x[t], -1, 0)
                out.append(p)
        else:
            b = [0] + list(d['cuts']) + [nt]
            names = [f'v{k}' for k in range(d['nv'])]
            names = [k for k in d.get('names') or [] if k in names + ['aux']] or names
            names += [f'v{k}' for k in range(d['nv']) if f'v{k}' not in names]
            for i, (lo, hi) in enumerate(zip(b[:-1], b[1:])):
                p = os.path.join(folder, f'part{i:03d}.nc')
                dims = ['time'] + [f'x{k}' for k in range(len(d['xshape']))]
                v = {k: (['aux'], np.arange(3.)) if k == 'aux' else (dims, x[lo:hi, ..., int(k[1:])])
                     for k in names}
                tv = time_values(d, lo, hi)
                ds = xr.Dataset(v, coords=None if tv is None else {'time': tv})
                if d['times'] == 'units' and tv is not None:
                    ds['time'].attrs['units'] = 'days since 2000-01-01'
                e, kw = d.get('enc'), {}
                lead = d['seed'] % 7 == 0 and e != 'unlimited'
                if lead:                        # time is not the first dimension of the file
                    m = len(d['xshape']) - 1
                    xr.Dataset({'area': ([f'x{m}'], np.ones(d['xshape'][m]))}).to_netcdf(p, **(dict(format='NETCDF3_64BIT') if e == 'nc3' else {}))
                    kw = dict(mode='a')
                if e == 'nc3':
                    kw.update(format='NETCDF3_64BIT')
                elif e == 'unlimited':
                    kw.update(unlimited_dims=['time'])
                elif e:
                    one = dict(zlib=True) if e == 'zlib' else dict(chunksizes=[1 + (hi - lo) // 2] + [1] * len(d['xshape']))
                    kw.update(encoding={k: one for k in v if k != 'aux'})
                if packed(d):
                    for k in v:
                        if k != 'aux':
                            one = kw.setdefault('encoding', {}).get(k, {})
                            kw['encoding'][k] = dict(one, dtype='i2', scale_factor=1 / 64, add_offset=2.0, _FillValue=-32768)
                ds.to_netcdf(p, **kw)
                out.append(p)
    return out


class HugeItem:
    def __init__(self, d, n):
        self.dtype, self.itemsize = d, n

    def __getattr__(self, k):
        return getattr(self.dtype, k)


class NpProxy:
    """numpy with a small int32 limit, so that the transfer path for huge data is taken for small data, and with
    huge items, so that small data are read in several chunks"""

    def __init__(self, limit, item):
        self._limit, self._item = limit, item

    def __getattr__(self, k):
        return getattr(np, k)

    def iinfo(self, t):
        if self._limit and np.dtype(t) == np.int32:
            class I:
                max, min, bits = self._limit, -self._limit, 32
            return I
        return np.iinfo(t)

    def dtype(self, t, *a, **k):
        d = np.dtype(t, *a, **k)
        if self._item and d.kind == 'f':
            return HugeItem(d, self._item)
        return d


class knobs:
    """transfer-path knobs, restored afterwards"""

    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s

    def __enter__(self):
        self.v = M.MPI.VERSION
        if self.s.get('padded') or self.s.get('item'):
            self.ctx.patches.append(('reader', 'np', NpProxy(self.s.get('padded'), self.s.get('item'))))
        if self.s.get('mpi4'):
            M.MPI.VERSION = 4

    def __exit__(self, *a):
        self.ctx.patches.clear()
        M.MPI.VERSION = self.v


def gen_item(r, s):
    """item size that makes the reader use about k chunks"""
    if r.random() < 0.55:
        return 0
    d = s['data']
    k = r.randrange(1, max(2, min(8, d['nt'])))
    per = d['nt'] * prod(d['xshape']) * d['nv'] / 1024 / 1024 / max(s['size'], 1) / 256
    return max(1, int((k + 0.5) / per))


def long_files(r, d):
    """many time steps or many points"""
    if d['form'] == 'mat':
        d['xshape'] = enlarge(r, d['xshape'], 1500)
    elif r.random() < 0.5:
        d['nt'] = r.randrange(100, 700)
        k = r.choice([0, 1, 3, 20])
        d['cuts'] = sorted(r.sample(range(1, d['nt']), k))
    else:
        d['xshape'] = enlarge(r, d['xshape'], 4000)


def gen_c03(r):
    s = gen_env(r, 7, serial=0)
    s['data'] = gen_files(r)
    s['dtype'] = r.choice(['double', 'single'])
    if s['data']['npdtype'] == 'i4' and r.random() < 0.4:
        s['data']['scale'] = 1e5                # beyond what a float can tell apart
    if r.random() < 0.03:
        long_files(r, s['data'])
    s['padded'] = r.choice([0, 0, 1, 1, 30])
    s['mpi4'] = r.random() < 0.3
    s['nreaders'] = r.choice([None, None, 1, 2, 3, 9]) if s['data']['form'] == 'nc' else None
    s['item'] = gen_item(r, s)
    s['nblocks'] = r.choice([None, 1, 2, 3]) if s['data']['form'] == 'nc' else None
    s['nan'] = r.random() < 0.1 and s['data']['npdtype'][0] == 'f' and s['data']['form'] == 'nc'
    nt = s['data']['nt']
    s['call'] = gen_call(r, nt, 0.6)
    # the same reader asked again
    s['more'] = [gen_call(r, nt, 0.3) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < 0.25 else []
    s['whole'] = r.choice(['given', 'npy', 'given upper', 'npy']) if r.random() < 0.15 else None
    return s


def gen_call(r, nt, pall):
    c = r.random()
    if c < pall:
        return ['all']
    if c < pall + (1 - pall) / 2:
        return ['one', r.randrange(nt)]
    a = r.randrange(nt)
    return ['range', a, r.randrange(a + 1, nt + 1)]


def whole_files(s, files, x, ctx):
    """the files as read_data has to give them"""
    d = s['data']
    b = [0] + list(d['cuts']) + [d['nt']] if d['form'] == 'nc' else list(range(d['nt'] + 1))
    out = []
    for i, (lo, hi) in enumerate(zip(b[:-1], b[1:])):
        f = files[i]
        if 'npy' in s['whole']:
            f = ctx.path('data', f'part{i}.npy')
            with simfs.passthru():
                np.save(f, x[lo:hi])
        out.append((f, lo, hi))
    return out


def check_whole(s, out, x, comm):
    d = s['data']
    for f, lo, hi in out:
        got = M.uio.read_data(f, os.path.splitext(f)[1][1:].upper() if 'upper' in s['whole'] else None, comm)
        if f.endswith('.npy'):
            got = got
        elif d['form'] == 'nc':
            with got:
                got = np.stack([got[f'v{k}'].values for k in range(d['nv'])], axis=-1)
        else:
            got = np.moveaxis(got['q'], 0, -1)[None]
        if got.dtype.kind != x.dtype.kind or not np.array_equal(got, x[lo:hi], equal_nan=True):
            raise Violation('wrong-samples', f'read_data of {os.path.basename(f)} does not give the values in the file')


def run_c03(ctx, oracle=True):
    s = ctx.scn
    d = s['data']
    x = make_data(d)
    if s.get('nan'):                       # masked samples
        x[np.random.default_rng(d['seed']).random(x.shape) < 0.2] = np.nan
    files = write_files(ctx, d, x)
    dt = np.float64 if s['dtype'] == 'double' else np.float32
    nd = len(d['xshape'])
    whole = whole_files(s, files, x, ctx) if s.get('whole') else None

    def fn(rank, comm):
        if d['form'] == 'mat':
            rd = M.reader.reader_mat(list(files), nd, dt, comm, d['nv'])
        else:
            kw = {}
            if s['nblocks'] and 3 * s['nblocks'] <= d['nt']:
                kw['nblocks'] = s['nblocks']
            rd = M.reader.reader_2stage(list(files), nd, dt, comm, d['nv'], [f'v{k}' for k in range(d['nv'])],
                                        nreaders=s['nreaders'], **kw)
        if s.get('whole'):
            check_whole(s, whole, x, comm)
        meta = dict(nt=int(rd.nt), nx=int(rd.nx), dim=int(rd.dim), xdim=int(rd.xdim),
                    xshape=tuple(int(k) for k in rd.xshape), is_real=bool(rd.is_real))
        out = []
        for c in [s['call']] + s['more']:
            if c[0] == 'all':
                got = rd.get_data()
                got = [(int(v['s']), int(v['e']), np.array(v['v'])) for _, v in got.items()]
            elif c[0] == 'one':
                got = [(c[1], c[1] + 1, np.array(rd.get_data(c[1])))]
            else:
                got = [(c[1], c[2], np.array(rd.get_data_for_time(c[1], c[2])))]
            out.append(got)
        return meta, out
    with knobs(ctx, s):
        j = ctx.job(s['size'], fn, label='read')
    truth = x.reshape(d['nt'], -1, d['nv']).astype(dt)
    n, npts = s['size'], truth.shape[1]
    for rank, (meta, got) in enumerate(j.results):
        for k, v in (('nt', d['nt']), ('nx', npts), ('xshape', tuple(d['xshape'])), ('dim', nd + 2), ('xdim', nd),
                     ('is_real', True)):
            if meta[k] != v:
                raise Violation('wrong-attr', f'reader.{k} is {meta[k]!r} instead of {v!r}')
    for i, c in enumerate([s['call']] + s['more']):
        check_call(d, c, [got[i] for _, got in j.results], truth, dt, f'call {i}, ' if i else '')
    if s['more']:
        ctx.probe('asked_again')
    if s['padded']:
        ctx.probe('padded')
    if s['item']:
        ctx.probe('chunked')
    if n > npts:
        ctx.probe('empty_partition')
    if n > d['nt']:
        ctx.probe('more_ranks_than_steps')


def check_call(d, c, results, truth, dt, label):
    want = (0, d['nt']) if c[0] == 'all' else (c[1], c[1] + 1) if c[0] == 'one' else (c[1], c[2])
    pieces = []
    for rank, got in enumerate(results):
        got = sorted((g for g in got if g[1] > g[0]), key=lambda g: g[0])
        t = want[0]
        arr = []
        for a, b, v in got:
            if a != t or v.shape[0] != b - a:
                raise Violation('wrong-times', f'{label}rank {rank}: blocks cover {[(g[0], g[1]) for g in got]}')
            t = b
            arr.append(v)
        if t != want[1]:
            raise Violation('wrong-times', f'{label}rank {rank}: blocks cover {[(g[0], g[1]) for g in got]} of {want}')
        a = np.concatenate(arr)
        if a.dtype != dt:
            raise Violation('wrong-dtype', f'{label}rank {rank}: {a.dtype} instead of {np.dtype(dt)}')
        if a.ndim != 3 or a.shape[2] != d['nv']:
            raise Violation('wrong-shape', f'{label}rank {rank}: block shape {a.shape}')
        pieces.append(a)
    full = np.concatenate(pieces, axis=1)
    sub = truth[want[0]:want[1]]
    if full.shape != sub.shape:
        raise Violation('lost-samples', f'{label}all ranks together hold {full.shape} samples instead of {sub.shape}')
    if not np.array_equal(full, sub, equal_nan=True):
        i = tuple(int(k) for k in np.argwhere((full != sub) & ~(np.isnan(full) & np.isnan(sub)))[0])
        raise Violation('wrong-samples', f'{label}sample (time {i[0] + want[0]}, point {i[1]}, variable {i[2]}) is {full[i]} '
                        f'instead of {sub[i]}; {int((full != sub).sum())} of {full.size} wrong')


# ---------------------------------------------------------------------------
# C04 SPOD from files
# ---------------------------------------------------------------------------
def gen_c04(r):
    s = gen_env(r, 7, serial=0)
    p, nt, nblk = gen_spod_params(r)
    mat = r.random() < 0.3
    while nt < (1 if mat else 9):
        p, nt, nblk = gen_spod_params(r)
    f = gen_files(r, mat)
    f['nt'] = nt
    f['cuts'] = (sorted(r.sample(range(1, nt), r.randrange(1, min(5 if r.random() > 0.05 else 14, nt))))
                 if not mat and r.random() < 0.7 else [])
    if r.random() < 0.01:
        f['xshape'] = enlarge(r, f['xshape'], 700)
    s['data'] = f
    s['params'] = p
    s['weights'] = r.randrange(1 << 30) if r.random() < 0.5 else None
    s['padded'] = r.choice([0, 0, 0, 1, 50])
    s['item'] = gen_item(r, s)
    s['mpi4'] = r.random() < 0.3
    gen_wform(r, s)
    if r.random() < 0.1:
        s['params']['savefft'] = True
    s['supply'] = gen_supply(r)
    return s


def check_mode_files(folder, s, rf):
    nb = rf['n_blocks']
    nms = min(int(s['params'].get('n_modes_save', 10**9)), nb)
    names = sorted(os.listdir(os.path.join(folder, 'modes')))
    want = sorted(f'freq_idx_f{f:08d}_m{m:08d}.npy' for f in range(rf['n_freq']) for m in range(nms))
    miss = [n for n in want if n not in names]
    if miss:
        raise Violation('missing-mode', f'{len(miss)} mode files missing, first {miss[0]}')
    sh = tuple(s['data']['xshape']) + (s['data']['nv'],)
    for n in want:
        a = np.load(os.path.join(folder, 'modes', n))
        if a.shape != sh:
            raise Violation('wrong-shape', f'{n}: shape {a.shape} instead of {sh}')
    extra = [n for n in names if n not in want]
    if extra:
        raise Violation('extra-mode', f'unexpected mode files {extra[:3]}')


def fit_files(ctx, s, files, savedir, size=None, **jk):
    ex = dict(savefreq_disk=False, savefreq_disk2=True)
    args = () if s['data']['form'] == 'mat' else ([f'v{k}' for k in range(s['data']['nv'])],)
    with knobs(ctx, s):
        return run_fit(ctx, s, list(files), savedir, size=size, fit_args=args, extra=ex, **jk)


def run_c04(ctx):
    s = ctx.scn
    x = make_data(s['data'])
    files = write_files(ctx, s['data'], x)
    rf = ref_spod(s, x)
    j = fit_files(ctx, s, files, ctx.path('res'))
    same_everywhere(j.results)
    check_spod(ctx, s, j.results[0], rf)
    folder = [d for d in os.listdir(ctx.path('res'))]
    check_mode_files(ctx.path('res', folder[0]), s, rf)
    nms = min(int(s['params'].get('n_modes_save', 10**9)), rf['n_blocks'])
    if (nms * rf['n_freq']) % s['size']:
        ctx.probe('ragged_mode_rounds')
    if s['size'] > prod(s['data']['xshape']):
        ctx.probe('empty_partition')


# ---------------------------------------------------------------------------
# C05 collective arrays
# ---------------------------------------------------------------------------
DTYPES = ['<f8', '<f4', '<c16', '<c8', '<i8', '<i4', '<i2', 'i1', 'u1', '<u2', '<u4', '<u8', '?',
          '<f16', '<c32', '>f8', '>f4', '>c16', '>i4', '>u2', '>c8', '>i8']


def gen_c05(r):
    s = gen_env(r, 7, serial=0.1)
    nd = r.choice([1, 1, 2, 2, 3, 4])
    sh = [r.randrange(1, {1: 14, 2: 7, 3: 5, 4: 4}[nd]) for _ in range(nd)]
    if r.random() < 0.02:                  # many elements
        sh = enlarge(r, sh)
    ax = r.randrange(nd)
    n = max(s['size'], 1)
    s['kind'] = 'npy'
    s['axis'] = ax
    s['neg_axis'] = r.random() < 0.2
    s['shape'] = sh
    s['split'] = split(r, sh[ax], n)
    s['dtype'] = r.choice(DTYPES)
    s['layouts'] = [r.choice('CCFTSR') for _ in range(n)]
    s['same_layout'] = r.random() < 0.5
    s['seed'] = r.randrange(1 << 30)
    s['old'] = r.choice([None, None, 'short', 'long', 'equal'])
    s['load_size'] = r.choice([0, 1, 2, 3, 4, 5])
    s['load_axis'] = r.randrange(nd)
    m = max(s['load_size'], 1)
    s['load_split'] = split(r, sh[s['load_axis']], m) if r.random() < 0.5 else None
    s['forder_file'] = r.random() < 0.25
    # the file to be loaded as other versions and other writers lay it out: its header is no longer 128 bytes long
    s['header'] = r.choice([None, None, None, 'aligned16', 'long', 'v2', 'v3'])
    s['readonly_input'] = r.random() < 0.3
    return s


def enlarge(r, sh, limit=200000):
    """the shape with one or two axes made long"""
    sh = list(sh)
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(len(sh))
        m = limit // max(1, prod(sh))
        if m > 1:
            sh[k] *= int(2 ** r.uniform(0, np.log2(m)))
            sh[k] += r.randrange(3)
    return sh


def split(r, n, k):
    c = sorted(r.randrange(n + 1) for _ in range(k - 1))
    b = [0] + c + [n]
    return [y - x for x, y in zip(b[:-1], b[1:])]


def npy_truth(s):
    g = np.random.default_rng(s['seed'])
    dt = np.dtype(s['dtype'])
    sh = tuple(s['shape'])
    if dt.kind == 'b':
        return g.integers(0, 2, sh).astype(dt)
    if dt.kind in 'iu':
        ii = np.iinfo(dt)
        return g.integers(ii.min, ii.max, sh, dtype=dt.newbyteorder('='), endpoint=True).astype(dt)
    a = g.normal(size=sh) * 10.0**g.integers(-3, 4, sh)
    if dt.kind == 'c':
        a = a + 1j * g.normal(size=sh)
    return a.astype(dt)


def layout(a, kind):
    if kind == 'C':
        return np.array(a, order='C', copy=True)
    if kind == 'F':
        return np.array(a, order='F', copy=True)
    if kind == 'T':
        return np.array(a.T, order='C', copy=True).T
    if kind == 'S':                     # strided view
        b = np.zeros(tuple(2 * k for k in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == 'R':                     # negative strides
        b = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)], copy=True)
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    raise ValueError(kind)


def same_array(a, b, what, vclass='wrong-array'):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(vclass, f'{what}: shape {a.shape} instead of {b.shape}')
    x, y = a.astype(a.dtype.newbyteorder('=')), b.astype(b.dtype.newbyteorder('='))
    if x.dtype != y.dtype:
        raise Violation(vclass, f'{what}: type {a.dtype} instead of {b.dtype}')
    if not np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'):
        i = tuple(int(k) for k in np.argwhere(~((x == y) | ((x != x) & (y != y))))[0])
        raise Violation(vclass, f'{what}: value at {i} is {x[i]!r} instead of {y[i]!r}')


def run_c05(ctx):
    s = ctx.scn
    a = npy_truth(s)
    n = max(s['size'], 1)
    ax = s['axis']
    path = ctx.path('a.npy')
    if s['old']:
        g = np.random.default_rng(s['seed'] + 1)
        k = {'short': 1, 'equal': 1, 'long': 40}[s['old']]
        with simfs.passthru():
            if s['old'] == 'short':
                with open(path, 'wb') as f:
                    f.write(b'x' * 7)
            else:
                np.save(path, g.normal(size=(k * a.size * 2,)))
    b = np.concatenate([[0], np.cumsum(s['split'])])
    pieces = [np.take(a, range(b[i], b[i + 1]), axis=ax) for i in range(n)]
    lay = [s['layouts'][0]] * n if s['same_layout'] else s['layouts']
    mine = [layout(p.astype(a.dtype), lay[i]) for i, p in enumerate(pieces)]
    keep = [m.copy() for m in mine]
    if s['readonly_input']:
        for m in mine:
            m.flags.writeable = False
    sax = ax - a.ndim if s['neg_axis'] else ax

    def save(rank, comm):
        M.par.npy_save(comm, path, mine[rank], axis=sax)
    ctx.job(s['size'], save, label='npy_save')
    for r in range(n):
        same_array(mine[r], keep[r], f'array passed to npy_save by rank {r} was changed', 'input-changed')
    with simfs.passthru():
        try:
            got = np.load(path)
        except Exception as e:
            raise Violation('bad-file', f'saved file cannot be read: {type(e).__name__}: {scrub(str(e), ctx.root)}')
        size = os.path.getsize(path)
        with open(path, 'rb') as f:
            np.lib.format.read_magic(f)
            f.seek(0)
            hdr = len(f.read()) - got.nbytes
        with open(path, 'rb') as f:
            np.lib.format.read_magic(f)
            np.lib.format.read_array_header_1_0(f)
            if f.tell() != hdr:
                raise Violation('bad-file', f'saved file holds {size - f.tell()} data bytes instead of {got.nbytes}')
    same_array(got, a, 'saved file')
    if s['forder_file']:
        with simfs.passthru():
            np.save(path, np.asfortranarray(a))
    if s['header']:
        with simfs.passthru():
            other_header(path, np.load(path), s['header'])
    # load
    lax = s['load_axis']
    m = s['load_size']
    lsp = s['load_split']
    if m == 0:
        lsp = None

    def load(rank, comm):
        return M.par.npy_load(comm, path, axis=lax, count=None if lsp is None else lsp[rank])
    j = ctx.job(m, load, label='npy_load')
    exp = split_default(a.shape[lax], max(m, 1)) if lsp is None else lsp
    lo = 0
    for r, g in enumerate(j.results):
        w = np.take(a, range(lo, lo + exp[r]), axis=lax)
        same_array(g, w, f'piece of rank {r} of {m} loaded along axis {lax}')
        lo += exp[r]
    if any(c == 0 for c in s['split']):
        ctx.probe('empty_piece')
    if s['dtype'][0] == '>':
        ctx.probe('big_endian')


def other_header(path, a, kind):
    """the array stored in a file with a valid header that numpy's `save` of today would not write"""
    order = not a.flags.c_contiguous and a.flags.f_contiguous
    d = repr(dict(descr=np.lib.format.dtype_to_descr(a.dtype), fortran_order=bool(order), shape=a.shape))
    v, nlen, align, extra = dict(aligned16=(1, 2, 16, 0), long=(1, 2, 64, 300), v2=(2, 4, 64, 0), v3=(3, 4, 64, 130))[kind]
    h = d.encode('latin1' if v < 3 else 'utf8') + b' ' * extra
    h += b' ' * (-(6 + 2 + nlen + len(h) + 1) % align) + b'\n'
    with open(path, 'wb') as f:
        f.write(b'\x93NUMPY' + bytes([v, 0]) + len(h).to_bytes(nlen, 'little') + h + a.tobytes('F' if order else 'C'))


def split_default(n, size):
    return [k for _, k in ref.blockdist(n, size)]


# ---------------------------------------------------------------------------
# C13 partitions and reductions
# ---------------------------------------------------------------------------
def gen_c13(r):
    s = gen_env(r, 12, serial=0.08)
    if s['size'] and r.random() < 0.35:
        s['size'] = r.randrange(1, 13)
    s['what'] = r.choice(['data', 'distribute', 'dim', 'blockdist', 'allreduce', 'allreduce', 'pvar', 'norm', 'subcomm'])
    nd = r.choice([1, 2, 2, 3, 4])
    s['shape'] = [r.randrange(1, {1: 15, 2: 8, 3: 5, 4: 4}[nd]) for _ in range(nd)]
    if r.random() < 0.03:
        s['shape'] = enlarge(r, s['shape'], 40000)
    s['nt'] = r.randrange(1, 6)
    s['seed'] = r.randrange(1 << 30)
    s['dtype'] = r.choice([d for d in DTYPES if d != '?'])
    n = max(s['size'], 1)
    s['layouts'] = [r.choice('CCFTSR') for _ in range(n)]
    s['same_layout'] = r.random() < 0.6
    s['axis'] = r.randrange(nd)
    s['xarray'] = r.random() < 0.3
    s['nv'] = r.choice([1, 1, 2, 2, 3, 5])
    s['complex'] = r.random() < 0.2
    s['N'] = r.choice([0, 1, 2, 5, 7, 12, 13, 1000, 2**31 + 3])
    s['scalar_shape'] = r.random() < 0.1
    s['mean'] = r.choice([0.0, 1.0, 30.0, 1e4, 1e6])
    s['balanced'] = r.random() < 0.15
    s['big'] = r.random() < 0.3
    return s


def run_c13(ctx):
    s = ctx.scn
    n = max(s['size'], 1)
    g = np.random.default_rng(s['seed'])
    w = s['what']
    sh = tuple(s['shape'])
    P = M.par

    def wrap(a):
        if s['xarray']:
            import xarray as xr
            return xr.DataArray(a, dims=[f'd{i}' for i in range(a.ndim)])
        return a
    if w == 'blockdist':
        def fn(rank, comm):
            return tuple(int(v) for v in P._blockdist(s['N'], n, rank))
        j = ctx.job(s['size'], fn)
        exp = [(k, st) for st, k in ref.blockdist(s['N'], n)]
        if [tuple(x) for x in j.results] != exp:
            raise Violation('wrong-partition', f'{s["N"]} items over {n}: {j.results}')
        return
    if w in ('data', 'distribute', 'dim'):
        full = (s['nt'],) + sh if w == 'data' else sh
        a = np.arange(prod(full), dtype=float).reshape(full)
        obj = wrap(a)
        keep = a.copy()

        def fn(rank, comm):
            if w == 'data':
                x, ax, gs = P.distribute_data(obj, comm)
            elif w == 'distribute':
                x, ax, gs = P.distribute(obj, comm)
            else:
                x, ax, gs = P.distribute_dimension(obj, s['axis'], comm), s['axis'], sh
            return np.array(x), int(ax), tuple(int(k) for k in gs)
        j = ctx.job(s['size'], fn)
        if not np.array_equal(np.asarray(obj), keep):
            raise Violation('input-changed', f'{w}: input modified')
        off = 1 if w == 'data' else 0
        axs = {r[1] for r in j.results}
        if len(axs) != 1:
            raise Violation('wrong-partition', f'{w}: ranks use different axes {sorted(axs)}')
        ax = axs.pop()
        if w != 'dim' and sh[ax] != max(sh):
            raise Violation('wrong-partition', f'{w}: axis {ax} of {sh} is not the largest')
        for r in j.results:
            if r[2] != sh:
                raise Violation('wrong-partition', f'{w}: global shape {r[2]} instead of {sh}')
        sizes = [r[0].shape[ax + off] for r in j.results]
        if sum(sizes) != sh[ax] or max(sizes) - min(sizes) > 1:
            raise Violation('wrong-partition', f'{w}: {sh[ax]} items split as {sizes}')
        same_array(np.concatenate([r[0] for r in j.results], axis=ax + off), a, f'{w}: pieces together', 'wrong-partition')
        if any(k == 0 for k in sizes):
            ctx.probe('empty_partition')
        return
    if w == 'allreduce':
        dt = np.dtype(s['dtype'])
        sh = () if s['scalar_shape'] else sh
        vals = []
        for _ in range(n):
            if dt.kind in 'iu':
                b = 2**(8 * dt.itemsize - 1) // 16 if s.get('big') else 10      # no sum leaves the type
                v = g.integers(0 if dt.kind == 'u' else 1 - b, b, sh)
            else:
                b = 2**45 if s.get('big') and dt.str[1:] in ('f8', 'c16') else 1000
                v = np.asarray(g.integers(-b, b, sh) / 8.0)
                if dt.kind == 'c':
                    v = v + 1j * g.integers(-1000, 1000, sh) / 8.0
            vals.append(np.asarray(v).astype(dt))
        tot = np.sum(np.stack([np.asarray(v).astype(dt.newbyteorder('=')) for v in vals]), axis=0,
                     dtype=dt.newbyteorder('='))
        lay = [s['layouts'][0]] * n if s['same_layout'] else s['layouts']
        mine = [layout(v, lay[i]) if v.ndim else v for i, v in enumerate(vals)]
        keep = [m.copy() for m in mine]

        def fn(rank, comm):
            return np.array(P.allreduce(mine[rank], comm))
        j = ctx.job(s['size'], fn)
        for r, v in enumerate(j.results):
            same_array(v, tot, f'sum on rank {r}', 'wrong-sum')
            same_array(mine[r], keep[r], f'input of rank {r} changed', 'input-changed')
        if dt.str[0] == '>':
            ctx.probe('big_endian')
        return
    if w == 'subcomm':
        if s['size'] == 0:
            raise Skip()

        def fn(rank, comm):
            ng, color, sub = P.create_subcomm(comm)
            mem = sub.allgather(comm.rank)
            return int(ng), int(color), mem, sub.rank, sub.size
        j = ctx.job(s['size'], fn)
        groups = {}
        for r, (ng, color, mem, sr, ss) in enumerate(j.results):
            if r not in mem or ss != len(mem) or mem[sr] != r:
                raise Violation('wrong-groups', f'rank {r}: group {mem}, position {sr} of {ss}')
            groups.setdefault(color, set()).add(tuple(mem))
            if not 0 <= color < ng:
                raise Violation('wrong-groups', f'rank {r}: group {color} of {ng}')
        allm = sorted(m for gset in groups.values() for t in gset for m in t)
        ngs = {r[0] for r in j.results}
        if any(len(v) != 1 for v in groups.values()) or allm != list(range(n)) or ngs != {len(groups)}:
            raise Violation('wrong-groups', f'groups {groups} declared {sorted(ngs)}')
        return
    # statistics
    nv = s['nv']
    full = (s['nt'] + 2,) + sh + (nv,)
    a = g.normal(size=full) * g.uniform(0.5, 3, nv) + s['mean']
    if s['complex']:
        a = a + 1j * g.normal(size=full)
    if w == 'pvar':
        if s['size'] == 0:
            raise Skip()
        cuts = split(_R(g), prod(full), n)
        b = np.concatenate([[0], np.cumsum(cuts)])
        flat = a.reshape(-1)
        if s.get('balanced'):      # pieces of equal mean, and pieces that do not vary
            flat = np.full(flat.size, flat.dtype.type(round(s['mean'])))
            for k in range(0, flat.size - 1, 2):
                if g.random() < 0.3:
                    q = float(g.integers(1, 9))
                    flat[k] += q
                    flat[k + 1] -= q
        keep = flat.copy()

        def fn(rank, comm):
            v, m, c = P.pvar(flat[b[rank]:b[rank + 1]], comm)
            return complex(v), complex(m), int(c)
        j = ctx.job(s['size'], fn)
        for r, (v, m, c) in enumerate(j.results):
            if c != flat.size:
                raise Violation('wrong-stat', f'rank {r}: count {c} instead of {flat.size}')
            if not abs(m - flat.mean()) <= 1e-10 * (1 + abs(flat.mean())):
                raise Violation('wrong-stat', f'rank {r}: mean {m} instead of {flat.mean()}')
            if not abs(v - np.var(flat)) <= 1e-9 * (1 + np.var(flat)) + 7e-15 * abs(s['mean']) * np.std(flat):
                raise Violation('wrong-stat', f'rank {r}: variance {v} instead of {np.var(flat)}')
        if not np.array_equal(flat, keep):
            raise Violation('input-changed', 'pvar changed its input')
        if 0 in cuts:
            ctx.probe('empty_partition')
        return
    # norm: distributed along the largest axis (space or variables)
    wt = g.uniform(0.5, 2, sh + (nv,))
    exp = np.array([[wt[..., i] / np.var(a[..., i])] for i in range(nv)])
    ax = int(np.argmax(sh + (nv,)))
    orig = wt.copy()

    def fn(rank, comm):
        d = a
        ww = wt
        if comm is not None:
            st, k = ref.blockdist((sh + (nv,))[ax], comm.size)[rank]
            d = np.take(a, range(st, st + k), axis=ax + 1)
            ww = np.take(wt, range(st, st + k), axis=ax)
        return np.array(M.weights.apply_normalization(data=d, weights=ww, n_vars=nv, method='variance', comm=comm))
    j = ctx.job(s['size'], fn)
    got = np.concatenate(j.results, axis=ax)
    want = np.stack([wt0 for wt0 in (orig[..., i] / np.var(a[..., i]) for i in range(nv))], axis=-1)
    need(ref.close(got, want, 1e-9 + 2e-14 * s['mean'], 'normalised weights'), 'wrong-stat')
    if not np.array_equal(orig, wt):
        raise Violation('input-changed', 'weights passed to apply_normalization were modified')


class _R:
    def __init__(self, g):
        self.g = g

    def randrange(self, n):
        return int(self.g.integers(0, n))


PROPS = {
    'C01': dict(gen=gen_c01, run=run_c01),
    'C02': dict(gen=gen_c02, run=run_c02),
    'C03': dict(gen=gen_c03, run=run_c03),
    'C04': dict(gen=gen_c04, run=run_c04),
    'C05': dict(gen=gen_c05, run=run_c05),
    'C13': dict(gen=gen_c13, run=run_c13),
}
