"""Running simulated jobs of the real library, and shared workload pieces."""
import copy
import hashlib
import io
import os
import random
import shutil
import sys
import traceback
import warnings

import numpy as np

import core
import procs
import simfs
from core import Violation

REPO = os.environ.get('PYSPOD_SIM_REPO', '/repo')
MODS = {}
HOME = {}


def boot(scratch, extra=False):
    """once per process: seams, then the library under test"""
    if MODS:
        return
    sys.stdout = open(os.devnull, 'w')
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.makedirs(scratch, exist_ok=True)
    HOME['dir'] = os.path.realpath(scratch)
    os.chdir(scratch)          # the library remembers the working directory at import
    simfs.install()
    from mpi4py import MPI
    MODS['MPI'] = MPI
    procs.boot(extra)
    par = procs.get('par')
    assert os.path.realpath(par.__file__).startswith(os.path.realpath(REPO)), par.__file__
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


class Mod:
    """the library as seen by the process that asks"""

    def __getattr__(self, k):
        if k == 'MPI':
            return MODS[k]
        if k in procs.CLASSES:
            return procs.LazyClass(k)
        return procs.get(k)


M = Mod()


class Skip(Exception):
    """scenario turned out to be outside the property's domain"""


class Job:
    def __init__(self, world, fs):
        self.world, self.fs = world, fs

    @property
    def ok(self):
        return self.world.ok

    @property
    def results(self):
        return [r.result for r in self.world.ranks]

    @property
    def excs(self):
        return [(r.idx, r.exc, r.tb) for r in self.world.ranks if r.exc is not None]

    @property
    def crashed(self):
        return self.world.crashed


class Ctx:
    """one simulated case"""

    def __init__(self, scn, choices, root, keep_log=False):
        self.scn = scn
        self.ch = choices
        self.root = root
        self.keep_log = keep_log
        self.stats = {}
        self.digest = hashlib.blake2b(digest_size=8)
        self.log = []
        self.jobs = 0
        self.steps = 0
        self.switches = 0
        self.simtime = 0.0
        self.patches = []
        if scn.get('dirname'):
            self.root = os.path.join(root, scn['dirname'])
        os.makedirs(self.root, exist_ok=True)

    def probe(self, k, n=1):
        k = 'probe.' + k
        self.stats[k] = self.stats.get(k, 0) + n

    def path(self, *a):
        return os.path.join(self.root, *a)

    def job(self, size, fn, faults=(), crash_step=None, fs_cfg=None, clock=None, allow_fail=False, label='job',
            mpi=None, strategy=None, max_steps=400000):
        """run fn(rank, comm) on `size` ranks (0 = serial, no communicator)"""
        s = self.scn
        n = max(size, 1)
        w = core.World(n, self.ch, strategy=strategy or s.get('strategy', 'uniform'), max_steps=max_steps,
                       crash_step=crash_step, keep_log=self.keep_log, stats=self.stats)
        fs = simfs.SimFS(w, self.root, fs_cfg or s.get('fs'), faults, self.stats)
        eng = M.MPI.Engine(w, mpi or s.get('mpi'), fs)
        w.clock = simfs.SimClock(clock or s.get('clock', 'normal'), s.get('clock_seed', 0), n)
        w.clock.base += 1000.0 * self.jobs
        cwd = os.getcwd()
        procs.prepare(n)
        undo = []
        for mod, attr, val in self.patches:
            for k in range(n):
                m = procs.SETS[k].short[mod]
                undo.append((m, attr, getattr(m, attr)))
                setattr(m, attr, val)

        def body(rank):
            comm = eng.comm_world(rank) if size > 0 else None
            return fn(rank, comm)
        try:
            w.run(body)
        finally:
            for m, attr, val in undo:
                setattr(m, attr, val)
            self.jobs += 1
            self.steps += w.steps
            self.switches += w.switches
            self.simtime += max(0.0, w.clock.cur)
            self.stats['clock_reads'] = self.stats.get('clock_reads', 0) + w.clock.reads
            self.digest.update(w.digest().encode())
            self.digest.update(''.join(r.state[0] for r in w.ranks).encode())
            if self.keep_log:
                self.log.append(f'--- {label} size={size} steps={w.steps} states={[r.state for r in w.ranks]}')
                self.log += w.log
            for p in list(fs.touched):
                fs.settle(p)
            new = os.getcwd()
            os.chdir(cwd)
        if w.violation is not None:
            raise w.violation
        if new != cwd:
            raise Violation('cwd-changed', f'{label}: working directory changed')
        j = Job(w, fs)
        if not allow_fail and not w.crashed and w.failed:
            r = w.failed[0]
            raise Violation('exception', f'{label} ({size} ranks): rank {r.idx} raised {type(r.exc).__name__}: '
                            f'{scrub(str(r.exc), self.root)[:300]} at {where(r.exc)}')
        return j


def scrub(s, root):
    return s.replace(root, '<root>')


def where(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        if 'pyspod/' in f.filename and '/verif/' not in f.filename:
            out.append(f'{f.filename.split("pyspod/", 1)[-1]}:{f.name}')
    return ' > '.join(out[-3:])


# ---------------------------------------------------------------------------
# workload
# ---------------------------------------------------------------------------
# legal folder names that trip path handling
DIRS = ['run [1]', 'case*', 'what?', 'a.npy', 'été', 'x{0}', '-rf', 'freq_idx_00000000.npy', 'run.2%d', 'blocks']


def gen_env(r, maxranks=6, serial=0.12):
    big = r.random() < 0.08
    n = 0 if r.random() < serial else min(maxranks, r.choice([1, 2, 2, 3, 3, 4, 5, 6]))
    if n and big and maxranks > 4:
        n = r.choice([7, 8, 9, 12]) if r.random() > 0.04 else r.choice([16, 17, 24])
    return dict(
        size=n,
        strategy=r.choice(core.STRATEGIES),
        mpi=dict(send_mode=r.choice(['eager', 'rendezvous', 'random', 'random']),
                 coll_mode=r.choice(['min', 'min', 'full', 'random']),
                 io_sync=r.choice(['min', 'full']),
                 reduce=r.choice(['order', 'random'])),
        fs=dict(bufsize=r.choice([1, 64, 4096, 8192])),
        clock='normal', clock_seed=r.randrange(1 << 30),
        dirname=r.choice(DIRS) if r.random() < 0.08 else None)


def gen_shape(r, xdim=None, maxpts=24, minpts=1):
    while True:
        d = xdim or r.choice([1, 1, 2, 2, 2, 3])
        m = {1: 9, 2: 6, 3: 4}[d]
        if maxpts == 24 and r.random() < 0.006:
            sh = [int(r.choice([1, 2, 3, 2 ** r.uniform(2, {1: 12, 2: 7, 3: 5}[d])])) for _ in range(d)]
            if minpts <= int(np.prod(sh)) <= 5000:
                return sh
            continue
        if maxpts == 24 and r.random() < 0.04:
            sh = [r.randrange(1, k) for k in {1: (40,), 2: (13, 6), 3: (7, 4, 4)}[d]]
            r.shuffle(sh)
            if minpts <= int(np.prod(sh)) <= 60:
                return sh
            continue
        sh = [r.randrange(1, m + 1) for _ in range(d)]
        if minpts <= int(np.prod(sh)) <= maxpts:
            return sh


def gen_data(r, xshape, nt, nv, complex_ok=True, forms=('array', 'list', 'xarray', 'xlist')):
    form = r.choice(list(forms))
    cuts = []
    if form in ('list', 'xlist'):
        k = r.choice([1, 1, 2, 3, 4]) if r.random() > 0.04 else r.choice([9, 10, 13])
        cuts = sorted(r.sample(range(1, nt), min(k, nt - 1)))
    cplx = complex_ok and r.random() < 0.25
    odd = r.random() < 0.08
    return dict(seed=r.randrange(1 << 30), nt=nt, xshape=list(xshape), nv=nv,
                trail=nv > 1 or r.random() < 0.4, complex=cplx, late_imag=cplx and r.random() < 0.35 and r.choice(['late', 'late', 'row', 'point']),
                npdtype=r.choice(['i2', 'i4', 'i8', '>f8']) if odd and not cplx else
                r.choice(['f8', 'f8', 'f8', 'f4']) if not cplx else r.choice(['c16', 'c16', 'c8']),
                quiet=[r.random(), r.random()] if r.random() < 0.06 else None,
                scale=r.choice([1e-5, 1e6]) if r.random() < 0.06 and not odd else 1.0,
                form=form, cuts=cuts, offset=r.choice([0.0, 1.0, 5.0]), order=r.choice(['C', 'C', 'F']),
                view=r.choice(['readonly', 'strided', 'reversed', 'mixed', 'ints']) if r.random() < 0.14 else None)


def make_data(d):
    """float64/complex128 truth (nt, *x, nv)"""
    g = np.random.default_rng(d['seed'])
    nt, xs, nv = d['nt'], tuple(d['xshape']), d['nv']
    n = int(np.prod(xs)) * nv
    t = np.arange(nt)[:, None]
    x = np.zeros((nt, n), complex)
    for k in range(3):
        f = g.uniform(0.05, 0.45)
        x += g.uniform(0.5, 2.0) * np.exp(2j * np.pi * (f * t + g.uniform(0, 1, n)[None, :])) * g.uniform(0.3, 1.5, n)
    noise = g.normal(size=(nt, n)) + 1j * g.normal(size=(nt, n))
    x = x + 0.6 * noise
    if d.get('sym'):
        x = symmetric(d['sym'], g, nt, n, d['complex'])
    if not d['complex']:
        x = x.real
    x = x + d['offset'] * g.uniform(0.5, 1.5, n)
    point = d['complex'] and d.get('late_imag') in ('row', 'point')
    if point:                              # imaginary at one instant, or in one sample, only
        im = np.zeros(x.shape)
        ti = int(g.integers(0, nt))
        ni = int(g.integers(0, n)) if d['late_imag'] == 'point' else np.s_[:]
        im[ti, ni] = np.where(np.abs(x[ti, ni].imag) > 0.1, x[ti, ni].imag, 0.5)
        x = x.real + 1j * im
    elif d['complex'] and d.get('late_imag'):
        x[:1 + int(g.integers(0, 3))] = x[:1 + int(g.integers(0, 3))].real[:1] * 1.0
    if d.get('quiet') and not point:       # points without signal, as in masked regions
        m = n // nv
        a, b = sorted(int(q * m) for q in d['quiet'])
        x.reshape(nt, m, nv)[:, a:b if b - a < m else b - 1] = 0
    x = x * d.get('scale', 1.0)
    x = x.reshape((nt,) + xs + (nv,))
    sc = g.uniform(0.5, 3.0, nv)
    if not d.get('sym'):
        x = x * sc
    if d['npdtype'][0] == 'i':
        x = np.rint(x * 40)
    for a, b in whole(d):
        x[a:b] = np.rint(3 * x[a:b])
    if packed(d):
        x = np.rint(x * 64) / 64
    x = x.astype(d['npdtype'])
    return x


def packed(d):
    """files that hold scaled whole numbers"""
    return d['form'] == 'nc' and 'names' in d and d['seed'] % 11 == 0 and d['npdtype'] in ('f8', 'f4')


def whole(d):
    """the arrays of a list that hold whole numbers, in an integer type"""
    if d.get('view') != 'ints' or not d['cuts'] or d.get('sym') or d.get('scale', 1.0) != 1 or d['npdtype'] not in ('f8', 'f4'):
        return []
    b = [0] + list(d['cuts']) + [d['nt']]
    return [(b[i], b[i + 1]) for i in range(len(b) - 1) if (i + d['seed']) % 2]


def symmetric(k, g, nt, n, cplx):
    """motion whose modes come in groups of equal energy"""
    t, i = np.arange(nt)[:, None], np.arange(n)[None, :]
    if k['kind'] == 'wave':                # travelling round the domain, a whole number of times
        x = 0
        for j in range(k['waves']):
            x = x + 0.3**j * np.exp(2j * np.pi * ((j + 1) * i / n - (j + 1) * k['turns'] * t / nt))
        return x
    if k['kind'] == 'one':                 # one signal everywhere
        return (g.normal(size=(nt, 1)) + 1j * g.normal(size=(nt, 1)) * cplx) * g.normal(size=(1, n))
    if k['kind'] == 'repeat':              # the same again and again
        y = g.normal(size=(k['period'], n)) + 1j * g.normal(size=(k['period'], n)) * cplx
        return y[np.arange(nt) % k['period']]
    if k['kind'] == 'stop':                # comes to rest
        y = g.normal(size=(nt, n)) + 1j * g.normal(size=(nt, n)) * cplx
        y[k['period']:] = 0
        return y
    # another pattern in every block, and much weaker than in the block before
    q = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n)) * cplx
    q = np.linalg.qr(q)[0].T
    b = np.arange(nt) // k['period']
    return q[b % n] * 10.**(-k.get('decades', 0) * b[:, None]) * np.exp(2j * np.pi * k['turns'] * t / k['period'])


def gen_sym(r, s, kinds, blocks=0):
    """data whose modes are few, or in groups of equal energy"""
    d, k = s['data'], r.choice(list(kinds))
    nt = d['nt']
    y = dict(kind=k)
    if k == 'wave':
        y.update(waves=r.choice([1, 2]), turns=r.randrange(1, max(2, nt // 3)))
    elif k == 'blocks':
        y.update(period=blocks, turns=r.randrange(1, max(2, blocks // 2)))
    elif k == 'spread':
        b = blocks or max(1, nt // r.randrange(2, 6))
        y.update(period=b, turns=r.randrange(1, max(2, b // 2)), decades=round(r.uniform(0.8, 2.6), 2))
    elif k == 'repeat':
        y.update(period=blocks or r.randrange(2, nt))
    elif k == 'stop':
        y.update(period=r.randrange(1, nt))
    d.update(sym=y, quiet=None, late_imag=False)
    if k in ('wave', 'blocks', 'spread'):
        d['offset'] = 0.0
        if r.random() < 0.8:
            s['weights'] = None
            s.pop('wform', None)
        if d['npdtype'] in ('i2', 'i4', 'i8'):
            d['npdtype'] = 'f8'


def as_input(d, x, lazy=None):
    """the object handed to the library"""
    y = x if d['trail'] else x[..., 0]
    if d.get('order') == 'F':
        y = np.asfortranarray(y)
    form, view = d['form'], d.get('view')
    if view == 'strided':                  # every other element of a larger array
        z = np.full(tuple(2 * k for k in y.shape), 77, y.dtype)
        z[tuple(np.s_[::2] for _ in y.shape)] = y
        y = z[tuple(np.s_[::2] for _ in y.shape)]
    elif view == 'reversed':
        y = np.ascontiguousarray(y[::-1, ...])[::-1, ...]
    elif view == 'readonly':
        y = y.copy()
        y.flags.writeable = False
    parts = [y] if form in ('array', 'xarray') else np.split(y, d['cuts'], axis=0)
    if view == 'mixed' and y.dtype.kind in 'cf' and len(parts) > 1:
        parts = [p.real.copy() if y.dtype.kind == 'c' and not p.imag.any() else p.astype(np.result_type(p.dtype, np.float64))
                 if y.dtype.itemsize < 8 and i % 2 else p for i, p in enumerate(parts)]
    if len(parts) > 1 and whole(d):
        b = {a for a, _ in whole(d)}
        parts = [p.astype('i4') if a in b else p for a, p in zip([0] + list(d['cuts']), parts)]
    if form in ('xarray', 'xlist'):
        import xarray as xr
        dims = ['time'] + [f'x{i}' for i in range(y.ndim - 1)]
        parts = [xr.DataArray(p, dims=dims) for p in parts]
    return parts[0] if form in ('array', 'xarray') else parts


def make_weights(seed, xshape, nv, order='C'):
    if seed is None:
        return None
    g = np.random.default_rng(seed)
    return np.asarray(g.uniform(0.2, 2.0, tuple(xshape) + (nv,)), order=order)


def gen_spod_params(r, nt_max=60, streaming=False):
    n_dft = r.choice([4, 5, 6, 7, 8, 8, 9, 10])
    ov = r.choice([0, 0, 25, 50, 50, 75, round(r.uniform(1, 74), 1)])
    nov = int(np.ceil(n_dft * ov / 100))
    if nov > n_dft - 1:
        ov, nov = 0, 0
    nblk = r.choice([2, 2, 3, 3, 4, 5])
    if r.random() < 0.08:                  # many blocks or long ones
        if r.random() < 0.5:
            n_dft, ov = r.choice([12, 16, 21, 24]), r.choice([0, 50])
        else:
            n_dft, ov, nblk = r.choice([4, 5, 6]), r.choice([0, 50]), r.choice([8, 11, 13])
        if r.random() < 0.1:
            n_dft, ov, nblk = r.choice([(32, 0, 2), (65, 0, 2), (96, 50, 2), (4, 0, 33), (4, 75, 70)])
        nov = int(np.ceil(n_dft * ov / 100))
    nt = nov + nblk * (n_dft - nov) + r.randrange(0, n_dft - nov)
    nt = max(nt, n_dft)
    nblk = (nt - nov) // (n_dft - nov)
    p = dict(time_step=r.choice([1.0, 0.5, 12, 0.1, 3600.0]), n_dft=n_dft, overlap=ov)
    if not streaming:
        mt = r.choice(['longtime', 'longtime', 'blockwise', 'zero', None, 'LongTime'])
        if mt:
            p['mean_type'] = mt
        if r.random() < 0.2:
            p['normalize_weights'] = True
        if r.random() < 0.2:
            p['normalize_data'] = True
    if r.random() < 0.25:
        p['fullspectrum'] = True
    if r.random() < 0.3:
        p['dtype'] = 'single'
    if r.random() < 0.5:
        p['n_modes_save'] = r.randrange(1, nblk + 2)
    if r.random() < 0.4:
        p['conf_level'] = r.choice([0.9, 0.95, 0.8, 0.99, 0.5])
    return p, nt, nblk


def gen_spod(r, streaming=False, maxranks=6, complex_ok=True, forms=('array', 'list', 'xarray', 'xlist'), serial=0.12,
             minpts=1):
    s = gen_env(r, maxranks, serial)
    p, nt, nblk = gen_spod_params(r, streaming=streaming)
    xshape = gen_shape(r, minpts=minpts)
    nv = r.choice([1, 1, 1, 2, 3]) if r.random() > 0.04 else r.choice([4, 5, 7])
    s['data'] = gen_data(r, xshape, nt, nv, complex_ok, forms)
    s['params'] = p
    s['weights'] = r.randrange(1 << 30) if r.random() < 0.5 else None
    gen_wform(r, s)
    s['supply'] = gen_supply(r)
    return s


def full_params(s, savedir, **kw):
    p = dict(s['params'])
    p['n_space_dims'] = len(s['data']['xshape'])
    p['n_variables'] = s['data']['nv']
    how = s.get('supply') or ''
    p['savedir'] = os.path.relpath(savedir, HOME['dir']) if 'rel' in how else savedir
    p.update(kw)
    if 'config' in how:                    # the parameters come from a YAML file
        k = repr({k: v for k, v in p.items() if k != 'savedir'}).encode()
        f = f'{savedir}.{hashlib.md5(k).hexdigest()[:6]}.yaml'
        if not os.path.exists(f):
            import yaml
            req = [k for k in ('time_step', 'n_space_dims', 'n_variables', 'n_dft') if k in p]
            opt = [k for k in p if k not in req]
            if 'late' in how:              # optional ones first in the file
                opt.reverse()
            d = dict(required=[{k: p[k]} for k in req])
            if opt:
                d['optional'] = [{k: p[k]} for k in opt]
            with simfs.passthru(), open(f, 'w') as g:
                yaml.dump(d, g, sort_keys='late' in how)
        q = M.uio.read_config(f)
        if q != p:
            raise Violation('wrong-config', f'read_config gives {q} instead of {p}')
        p = q
    return p


def gen_supply(r):
    return r.choice(['rel', 'config', 'config late', 'config rel']) if r.random() < 0.12 else None


def true_weights(s):
    """weight of every point and variable"""
    import ref
    d = s['data']
    if s['weights'] is not None and s.get('wform') == 'geo':
        return ref.geo_weights(d['xshape'], d['nv'], 0.5 + s['weights'] % 7)
    return make_weights(s['weights'], d['xshape'], d['nv'])


def weights_arg(s):
    """the weights as handed to the library"""
    w, f, d = true_weights(s), s.get('wform'), s['data']
    if w is None:
        return None
    if f == 'geo':
        n = d['xshape']
        fn = M.weights.geo_trapz_2D if len(n) == 2 else M.weights.geo_trapz_3D
        return fn(*n, n_vars=d['nv'], R=0.5 + s['weights'] % 7)
    if f == 'flat':
        w = w.reshape(-1)
    elif f == 'novar' and d['nv'] == 1:
        w = w[..., 0]
    return {'weights_name': 'sim', 'weights': w}


def gen_wform(r, s, geo=False):
    n = s['data']['xshape']
    f = [None] * 6 + ['flat', 'novar']
    if geo and len(n) in (2, 3) and n[0] >= 4:
        f += ['geo'] * 8
    f = r.choice(f)
    if f == 'geo':
        s['weights'] = r.randrange(1 << 30)
    if f:
        s['wform'] = f
    if f in ('novar', 'geo') and s['data']['nv'] == 1 and (f == 'novar' or len(n) == 3):
        s['params'].pop('normalize_weights', None)         # known finding, see gen_c01


def is_single(s):
    return s['params'].get('dtype', 'double') == 'single'


def ref_spod(s, x):
    import ref
    p = s['params']
    w = true_weights(s)
    return ref.spod(x, p['n_dft'], p.get('overlap', 0), p['time_step'], p.get('mean_type', 'longtime').lower(), w,
                    p.get('fullspectrum', False), p.get('normalize_weights', False), p.get('normalize_data', False),
                    p.get('conf_level', 0.95))


# ---------------------------------------------------------------------------
# collecting and comparing SPOD results
# ---------------------------------------------------------------------------
def collect_spod(obj, folder=None, modes=True):
    """everything a user can read right after fit returned (no scheduling)"""
    import yaml
    with simfs.passthru():
        d = folder or obj.savedir_sim
        out = {}
        try:
            with np.load(os.path.join(d, 'eigs_freq.npz')) as z:
                out['npz'] = {k: z[k].copy() for k in z.files}
            out['weights'] = np.load(os.path.join(d, 'weights.npy'))
            out['ltm'] = np.load(os.path.join(d, 'ltm_modes.npy'))
            with open(os.path.join(d, 'params_modes.yaml')) as f:
                out['params'] = yaml.load(f, Loader=yaml.FullLoader)
            nf = len(out['npz']['freq'])
            out['modes'] = [np.array(M.post.get_modes_at_freq(d, f)) for f in range(nf)] if modes else None
        except core.SimKill:
            raise
        except BaseException as e:
            raise Unreadable(f'{type(e).__name__}: {e}') from e
        if obj is not None:
            out['attr'] = dict(eigs=np.array(obj.eigs), freq=np.array(obj.freq), n_freq=int(obj.n_freq),
                               n_blocks=int(obj.n_blocks), n_modes_save=int(obj.n_modes_save), nt=int(obj.nt),
                               nx=int(obj.nx), xshape=tuple(obj.xshape), n_modes=int(obj.n_modes))
        return out


class Unreadable(Exception):
    pass


def need(msg, vclass='wrong-result'):
    if msg:
        raise Violation(vclass, msg)


def eig_close(a, b, single, what, noise=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'{what}: shape {a.shape} instead of {b.shape}'
    if not np.all(np.isfinite(a)):
        return f'{what}: not finite'
    tol = (3e-3 if single else 1e-8) * np.max(np.abs(b), axis=-1, keepdims=True) + \
        (2e-5 if single else 1e-12) * np.max(np.abs(b)) + noise
    bad = np.abs(a - b) > tol
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        return f'{what}: {a[i]} instead of {b[i]} at {i}'
    return None


def check_spod(ctx, s, res, rf, label='', has_attr=True, ltm=True, stream=False):
    """one rank's collected results against the reference"""
    import ref
    single = is_single(s) or s['data']['npdtype'] in ('f4', 'c8')
    nb = rf['n_blocks']
    nms = min(int(s['params'].get('n_modes_save', 10**9)), nb)
    z = res['npz']
    dn = 0.0
    if not stream:
        # mean removal cancels: absolute floor in units of the data scale
        dn = (1e-9 if single else 1e-20)
    L = rf['eigs']
    need(eig_close(z['eigs'], L if not stream else L[:, :nms], single, label + 'eigenvalues', dn))
    need(ref.close(z['freq'], rf['freq'], 1e-12, label + 'frequencies'))
    if not stream:
        need(eig_close(z['eigs_c_u'], rf['eigs_c_u'], single, label + 'upper confidence bound', dn))
        need(eig_close(z['eigs_c_l'], rf['eigs_c_l'], single, label + 'lower confidence bound', dn))
    w = rf['weights']
    need(ref.close(np.asarray(res['weights']).reshape(-1), np.asarray(w).reshape(-1), 1e-4 if single else 1e-9,
                   label + 'stored weights'))
    if ltm:
        sc = max(1.0, s['data'].get('scale', 1.0), float(np.max(np.abs(rf['ltm']))))
        need(ref.close(np.asarray(res['ltm']).reshape(-1), np.asarray(rf['ltm']).reshape(-1), 1e-4 if single else 1e-9,
                       label + 'stored long-time mean', sc))
    P = res['params']
    for k, v in (('n_freq', rf['n_freq']), ('n_blocks', nb), ('n_overlap', rf['n_overlap']), ('n_modes_save', nms),
                 ('n_dft', s['params']['n_dft']), ('n_space_dims', len(s['data']['xshape'])),
                 ('n_variables', s['data']['nv'])):
        if P.get(k) != v:
            raise Violation('wrong-params', f'{label}params_modes.yaml: {k} is {P.get(k)!r} instead of {v!r}')
    if abs(P.get('time_step', 1e99) - s['params']['time_step']) > 1e-12:
        raise Violation('wrong-params', f'{label}params_modes.yaml: time_step {P.get("time_step")!r}')
    if len(res['modes']) != rf['n_freq']:
        raise Violation('wrong-result', f'{label}{len(res["modes"])} mode files instead of {rf["n_freq"]}')
    probes = {}
    for f in range(rf['n_freq']):
        m = res['modes'][f]
        if m.shape != tuple(rf['phi'].shape[1:-1]) + (nms,):
            raise Violation('wrong-result', f'{label}modes at frequency {f}: shape {m.shape} instead of '
                            f'{tuple(rf["phi"].shape[1:-1]) + (nms,)}')
        need(ref.bounded(m, w, f'{label}frequency {f}'))
        Lf = rf['lraw'][f] if not stream else rf['eigs'][f]**2
        if not stream and Lf[0] < 1e-7 * np.max(rf['lraw']):
            continue
        if stream and Lf[0] < 1e-7 * np.max(rf['eigs']**2):
            continue
        need(ref.modes_equal(m, rf['phi'][f][..., :nms], Lf, w, single, f'{label}frequency {f}', probes, None if stream else rf['phi'][f]))
    for k, v in probes.items():
        ctx.probe(k, v)
    if has_attr and res.get('attr'):
        a = res['attr']
        need(eig_close(a['eigs'], L if not stream else L[:, :nms], single, label + 'eigs attribute', dn))
        need(ref.close(a['freq'], rf['freq'], 1e-12, label + 'freq attribute'))
        for k, v in (('n_freq', rf['n_freq']), ('n_blocks', nb), ('n_modes_save', nms), ('nt', s['data']['nt']),
                     ('nx', int(np.prod(s['data']['xshape']))), ('xshape', tuple(s['data']['xshape']))):
            if a[k] != v:
                raise Violation('wrong-attr', f'{label}attribute {k} is {a[k]!r} instead of {v!r}')


def same_everywhere(results, label=''):
    """all ranks must have read identical stored results and hold equal eigenvalues"""
    a = results[0]
    for r, b in enumerate(results[1:], 1):
        for k in a['npz']:
            if not np.array_equal(a['npz'][k], b['npz'].get(k), equal_nan=True):
                raise Violation('ranks-differ', f'{label}{k} read on rank {r} when its fit returned differs from rank 0')
        for k in ('weights', 'ltm'):
            if not np.array_equal(a[k], b[k], equal_nan=True):
                raise Violation('ranks-differ', f'{label}{k} read on rank {r} when its fit returned differs from rank 0')
        if len(a['modes']) != len(b['modes']):
            raise Violation('ranks-differ', f'{label}modes read on rank {r} differ')
        for f, (x, y) in enumerate(zip(a['modes'], b['modes'])):
            if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                raise Violation('ranks-differ', f'{label}modes at frequency {f} read on rank {r} when its fit returned '
                                'differ from rank 0')
        if 'attr' in a and not np.array_equal(a['attr']['eigs'], b['attr']['eigs'], equal_nan=True):
            raise Violation('ranks-differ', f'{label}eigenvalues held by rank {r} differ from rank 0')


def run_fit(ctx, s, data, savedir, cls=None, size=None, fit_args=(), collect=True, extra=None, label='fit', **jk):
    """one fit job; returns (job, list of collected results)"""
    cls = cls or M.Standard
    size = s['size'] if size is None else size

    def fn(rank, comm):
        p = full_params(s, savedir, **(extra or {}))
        obj = cls(params=p, weights=weights_arg(s), comm=comm)
        obj.fit(data, *fit_args)
        return collect_spod(obj) if collect else str(obj.savedir_sim)
    return ctx.job(size, fn, label=label, **jk)
