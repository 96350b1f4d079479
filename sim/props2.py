"""Scenarios over several jobs: projection, reconstruction, POD, convolution coefficients."""
import copy
import os

import numpy as np

import core
import simfs
import ref
from core import Violation
from harness import (M, Skip, as_input, check_spod, need, collect_spod, eig_close, full_params, gen_data, gen_env,
                     gen_shape, gen_spod, gen_spod_params, gen_supply, gen_sym, gen_wform, is_single, make_data, make_weights, ref_spod,
                     run_fit, same_everywhere, true_weights, weights_arg)
from props import fit_files, gen_files, gen_item, prod, unchanged, write_files

EPS = {'double': 2.3e-16, 'single': 1.2e-7}


def load(p):
    with simfs.passthru():
        return np.load(p)


def yload(p):
    import yaml
    with simfs.passthru(), open(p) as f:
        return yaml.load(f, Loader=yaml.FullLoader)


# ---------------------------------------------------------------------------
# stored SPOD results -> projection -> reconstruction
# ---------------------------------------------------------------------------
def gen_source(r, maxranks=6, kinds=('mem', 'mem', 'mem', 'stream', 'files'), minpts=3):
    """scenario of the fit that produces the stored modes"""
    k = r.choice(list(kinds))
    if k == 'files':
        s = gen_env(r, maxranks, serial=0)
        p, nt, _ = gen_spod_params(r)
        while nt < 9:
            p, nt, _ = gen_spod_params(r)
        f = gen_files(r, False)
        while prod(f['xshape']) < minpts:
            f = gen_files(r, False)
        f['nt'] = nt
        f['cuts'] = sorted(r.sample(range(1, nt), r.randrange(1, min(4, nt)))) if r.random() < 0.6 else []
        f['npdtype'] = r.choice(['f8', 'f8', 'f4'])
        s['data'], s['params'] = f, p
        s['weights'] = r.randrange(1 << 30) if r.random() < 0.5 else None
        s['padded'], s['item'], s['mpi4'] = 0, 0, False
    else:
        s = gen_spod(r, streaming=k == 'stream', maxranks=maxranks, minpts=minpts)
    s['source'] = k
    if r.random() < 0.05:
        gen_sym(r, s, ['blocks', 'wave', 'one', 'repeat', 'stop'], s['params']['n_dft'])
    return s


def fit_source(ctx, s, savedir, size=None, x=None, collect=False, **jk):
    x = make_data(s['data']) if x is None else x
    if s['source'] == 'files':
        if not os.path.exists(ctx.path('data')):
            write_files(ctx, s['data'], x)
        files = sorted(os.path.join(ctx.path('data'), f) for f in os.listdir(ctx.path('data')))
        return fit_files(ctx, s, files, savedir, size=size, collect=collect, **jk)
    cls = M.Streaming if s['source'] == 'stream' else M.Standard
    return run_fit(ctx, s, as_input(s['data'], x), savedir, cls=cls, size=size, collect=collect, **jk)


def n_freq_of(s):
    p, d = s['params'], s['data']
    return p['n_dft'] if p.get('fullspectrum') or d['complex'] else p['n_dft'] // 2 + 1


def freq_of(s):
    p, d = s['params'], s['data']
    return ref.freq_axis(p['n_dft'], p['time_step'], not d['complex'], p.get('fullspectrum', False))


def gen_proj_data(r, s):
    """data handed to the projection: the fitted ones, or new ones of another length"""
    d = copy.deepcopy(s['data'])
    d['form'] = r.choice(['array', 'xarray'])
    d['cuts'] = []
    d['npdtype'] = r.choice(['c16' if d['complex'] else 'f8'] * 3 + ['c8' if d['complex'] else 'f4'])
    d['trail'] = d['nv'] > 1 or r.random() < 0.4
    d['order'] = r.choice(['C', 'F'])
    d['late_imag'] = False
    if r.random() < 0.35:
        d['seed'] = r.randrange(1 << 30)
        d['nt'] = r.randrange(2, 30)
    return d


def gen_sel(r, s):
    """frequency selection"""
    nf = n_freq_of(s)
    c = r.random()
    if c < 0.3:
        return dict(kind='all')
    if c < 0.65:
        fr = sorted(f for f in freq_of(s) if f > 0)
        a, b = sorted(r.choice(fr) * r.uniform(0.95, 1.05) for _ in range(2))
        return dict(kind='T', T_lb=1 / b, T_ub=1 / a)
    idx = r.sample(range(nf), r.randrange(1, (min(nf, 4) if r.random() < 0.6 else nf) + 1))
    if r.random() < 0.7:
        idx.sort()
    return dict(kind='idx', idx=idx, np=r.random() < 0.5)


def selected(s, sel):
    """(frequency indices, lower, upper)"""
    fr = freq_of(s)
    if sel['kind'] == 'all':
        ix = list(range(len(fr)))
        return ix, 0, len(fr) - 1
    if sel['kind'] == 'T':
        lo = int(np.argmin(np.abs(fr - 1 / sel['T_ub'])))
        hi = int(np.argmin(np.abs(fr - 1 / sel['T_lb'])))
        return list(range(lo, hi + 1)), lo, hi
    return list(sel['idx']), min(sel['idx']), max(sel['idx'])


def sel_kw(sel):
    if sel['kind'] == 'all':
        return {}
    if sel['kind'] == 'T':
        return dict(T_lb=sel['T_lb'], T_ub=sel['T_ub'])
    return dict(freq_idx=np.array(sel['idx']) if sel['np'] else list(sel['idx']))


def gen_tidx(r, nt):
    return r.choice([None, 'all', 'all', 'half', 'quarter', 'tenth', 'hundredth', 'All',
                     [r.randrange(nt) for _ in range(r.randrange(1, 5))], [nt - 1], [0, -1] if r.random() < .3 else [0]])


def gen_c07(r):
    s = gen_source(r)
    s['size2'] = r.choice([0, 1, 2, 3, 4, 5])
    s['size3'] = r.choice([0, 1, 2, 3, 4, 5])
    s['pdata'] = gen_proj_data(r, s)
    s['sel'] = gen_sel(r, s)
    s['svd'] = r.random() < 0.5
    s['dtype'] = r.choice(['double', 'double', 'single'])
    s['tol'] = (r.choice([1e-10, 1e-6, 1e-3, 0.05, 0.3]) if s['dtype'] == 'double' else
                r.choice([1e-3, 1e-2, 0.1, 0.4]))
    s['sub'] = r.choice([None, None, 'proj'])
    s['sub3'] = r.choice([None, None, 'rec'])
    s['fname'] = r.choice([None, None, 'again', 'rec_0.5'])
    if r.random() < 0.04:
        s['pdata'].update(nt=r.randrange(95, 215), seed=r.randrange(1 << 30))
    s['tidx'] = gen_tidx(r, s['pdata']['nt'])
    s['method'] = r.random() < 0.25 and s['source'] != 'files'
    s['others'] = gen_other(r, s)
    s['given'] = gen_supplied(r, s, s['pdata']['nt'])
    s['ortho'] = [r.randrange(100), r.randrange(100), r.randrange(100), r.choice(['list', 'int']), r.randrange(1 << 30) if r.random() < 0.25 else None]
    return s


def stored(folder, s):
    """modes of every frequency and weights as stored"""
    nf = n_freq_of(s)
    with simfs.passthru():
        modes = [np.array(M.post.get_modes_at_freq(folder, f)) for f in range(nf)]
        w = np.load(os.path.join(folder, 'weights.npy'))
    return modes, w.reshape(modes[0].shape[:-1])


def res_folder(ctx, sub='res'):
    ds = [d for d in os.listdir(ctx.path(sub)) if d.startswith('nfft')]
    if len(ds) != 1:
        raise Violation('wrong-result', f'result folders {ds}')
    return ctx.path(sub, ds[0])


def op_expect(modes, w, sel_ix, x, tol, dtype):
    """coefficients by the sequential formula; None when ill-conditioned at the cut-off"""
    ct = np.complex128 if dtype == 'double' else np.complex64
    n = w.size
    phir = np.concatenate([modes[f].reshape(n, -1) for f in sel_ix], axis=1).astype(ct).astype(complex)
    wf = w.reshape(-1).astype(float)
    d = x.reshape(x.shape[0], -1)
    d0 = d - d.mean(0)
    C, G = ref.oblique(phir, wf, d0, tol)
    sv = np.linalg.svd(G, compute_uv=False)
    mx = sv.max() if sv.size else 0
    eps = EPS[dtype]
    near = max(1e4 * eps, 0.05 * tol) * mx
    ok = mx > 0 and not np.any(np.abs(sv - tol * mx) <= near) and tol > 1500 * eps
    kept = sv[sv > tol * mx]
    cond = mx / kept.min() if kept.size else 1
    return phir, C, (min(1e-2, 1e4 * eps * cond) if ok and 1e4 * eps * cond < 1e-2 else None), d.mean(0)


def check_proj(ctx, s, folder, coeffs_dir, file_coeffs, x, label='', conv=False, at=None):
    """files written by a projection (kept in `at`); returns (coeffs, phir, ltm)"""
    ix, lo, hi = selected(s, s['sel'])
    modes, w = stored(folder, s)
    for f, m in enumerate(modes):
        need(ref.bounded(m, w, f'{label}stored modes at frequency {f}'))
    d = s['pdata']
    single = s['dtype'] == 'single' or d['npdtype'] in ('f4', 'c8')
    want = os.path.realpath(coeffs_dir)
    if not want.startswith(os.path.realpath(folder) + os.sep) or s['sub'] and os.path.basename(want) != s['sub']:
        raise Violation('wrong-path', f'{label}coefficients folder {coeffs_dir}')
    if os.path.dirname(os.path.realpath(file_coeffs)) != want:
        raise Violation('wrong-path', f'{label}coefficients file {file_coeffs} is not in {coeffs_dir}')
    at = at or want
    try:
        got = load(os.path.join(at, os.path.basename(file_coeffs)))
        gphi = load(os.path.join(at, 'modes_r.npy'))
        gltm = load(os.path.join(at, 'ltm.npy'))
        P = yload(os.path.join(at, 'params_coeffs.yaml'))
    except Exception as e:
        raise Violation('unreadable', f'{label}stored coefficients: {type(e).__name__}: {e}')
    need(ref.close(gltm, x.mean(0).reshape(w.shape), 1e-4 if single else 1e-9, label + 'stored mean', max(1e-3, np.abs(x).max())))
    for k, v in (('n_freq_r', len(ix)), ('freq_idx_lb', lo), ('freq_idx_ub', hi)):
        if P.get(k) != v:
            raise Violation('wrong-params', f'{label}params_coeffs.yaml: {k} is {P.get(k)!r} instead of {v!r}')
    fr = freq_of(s)
    for k, v in (('freq_lb', fr[lo]), ('freq_ub', fr[hi])):
        if abs(P.get(k, 1e9) - v) > 1e-9 * max(1, abs(v)):
            raise Violation('wrong-params', f'{label}params_coeffs.yaml: {k} is {P.get(k)!r} instead of {v!r}')
    if not conv:
        phir, C, tol, _ = op_expect(modes, w, ix, x, s['tol'], s['dtype'])
        need(ref.close(gphi, phir.reshape(w.shape + (-1,)), 1e-6 if single else 1e-12, label + 'stored modes_r'))
        if got.shape != C.shape:
            raise Violation('wrong-result', f'{label}coefficients: shape {got.shape} instead of {C.shape}')
        if not np.all(np.isfinite(got)):
            raise Violation('wrong-result', f'{label}coefficients: not finite')
        if tol is not None:
            if d['npdtype'] in ('f4', 'c8'):
                tol = max(tol, 1e-4) * 10
            need(ref.close(got, C, tol, label + 'coefficients', max(np.abs(C).max(), 1e-2)))
            ctx.probe('coeffs_compared')
        else:
            ctx.probe('coeffs_ill_conditioned')
        return got, gphi, gltm
    phi = np.stack([modes[f].reshape(w.size, -1) for f in ix])
    need(ref.close(gphi, np.moveaxis(phi, 0, 1).reshape(w.shape + (len(ix), -1)), 1e-6 if single else 1e-12,
                   label + 'stored modes_r'))
    C = ref.conv_coeffs(x.reshape(x.shape[0], -1), phi, w.reshape(-1).astype(float), s['params']['n_dft'], ix)
    need(ref.close(got, C, 2e-4 if single else 1e-8, label + 'coefficients', max(np.abs(C).max(), 1e-2)))
    ctx.probe('coeffs_compared')
    return got, gphi, gltm


def check_rec(ctx, s, file_rec, got, gphi, gltm, nt, label='', dtype=None, tidx=0):
    nt = got.shape[1]
    t = ref.time_idx(s['tidx'] if tidx == 0 else tidx, nt)
    sh = gltm.shape
    A = got if got.ndim == 2 else np.moveaxis(got, 1, 2).reshape(-1, nt)
    P = gphi.reshape((int(np.prod(sh)), -1))
    want = (P @ A[:, t] + gltm.reshape(-1)[:, None]).T.reshape((len(t),) + sh)
    try:
        rec = load(file_rec)
    except Exception as e:
        raise Violation('unreadable', f'{label}stored reconstruction: {type(e).__name__}: {e}')
    single = (dtype or s.get('dtype')) == 'single' or gltm.dtype == np.float32
    sc = max(float(np.abs(P).max() * np.abs(A).sum(0).max()), float(np.abs(gltm).max()), 1e-9)
    need(ref.close(rec, want, 1e-4 if single else 1e-10, label + 'reconstruction', sc))


def project(ctx, s, folder, size, x, conv=False, **jk):
    """returns job whose results are (file, dir)"""
    pd = as_input(s['pdata'], x)

    def fn(rank, comm):
        f = M.spod_utils.compute_coeffs_conv if conv else M.spod_utils.compute_coeffs_op
        kw = {} if conv else dict(tol=s['tol'], svd=s['svd'])
        return f(data=pd, results_dir=folder, savedir=s['sub'], dtype=s['dtype'], comm=comm, **kw, **sel_kw(s['sel']))
    return ctx.job(size, fn, **dict(dict(label='project'), **jk))


def gen_near(r, s):
    """a frequency selection whose bounds are next to those of the first one"""
    _, lo, hi = selected(s, s['sel'])
    nf = n_freq_of(s)
    a, b = sorted(min(max(q + r.choice([-1, 0, 1]), 0), nf - 1) for q in (lo, hi))
    return dict(kind='idx', idx=list(range(a, b + 1)), np=r.random() < 0.5)


def gen_other(r, s):
    """a further projection over the same modes, in a folder of its own: another frequency window or another name"""
    out = []
    while r.random() < 0.4 and len(out) < 2:
        q = dict(sel=gen_near(r, s) if r.random() < 0.4 else gen_sel(r, s), sub=r.choice([None, 'other', s['sub']]), size2=r.choice([0, 1, 2, 3]), conv=r.random() < 0.3)
        taken = [s] + out
        if all(selected(s, t['sel'])[1:] != selected(s, q['sel'])[1:] or t['sub'] != q['sub'] for t in taken):
            out.append(q)
    return out


def others(ctx, s, folder, cd, x):
    """projections made after the one in `cd` leave the latter alone"""
    a = simfs.snapshot(cd, ())
    dirs = [os.path.realpath(cd)]
    for q in s.get('others', ()):
        z = dict(s, **q)
        fc, d = agree(project(ctx, z, folder, q['size2'], x, conv=q['conv'], label='further projection').results, 'further projection')
        if os.path.realpath(d) in dirs:
            raise Violation('same-folder', f'projections on {selected(s, z["sel"])[1:]} and on another window share the folder {d}')
        dirs.append(os.path.realpath(d))
        check_proj(ctx, z, folder, d, fc, x, 'further projection: ', conv=q['conv'])
        ctx.probe('further_projections')
    b = simfs.snapshot(cd, ())
    for k, v in a.items():
        if b.get(k) != v:
            raise Violation('changed-results', f'stored {k} of a projection changed by one on another window')


def gen_supplied(r, s, nt):
    """coefficients handed to the reconstruction instead of the stored ones, as an emulator does"""
    if r.random() > 0.25:
        return None
    a = r.randrange(0, nt - 1)
    b = r.choice([nt, r.randrange(a + 2, nt + 1)])
    return dict(lo=a, hi=b, scale=r.choice([1, 1, -2.5, 0.5]), seed=r.randrange(1 << 30) if r.random() < 0.5 else None,
                tidx=gen_tidx(r, b - a))


def supplied(s, got):
    q = s.get('given')
    if not q:
        return got, s['tidx']
    a = np.array(got[:, q['lo']:q['hi']]) * q['scale']
    if q['seed'] is not None:
        g = np.random.default_rng(q['seed'])
        a = a + g.normal(size=a.shape) * (1 + 1j if np.iscomplexobj(a) else 1)
    return a.astype(got.dtype), q['tidx']


def reconstruct(ctx, s, coeffs_dir, size, given=None, tidx=0, **jk):
    t = s['tidx'] if tidx == 0 else tidx
    keep = copy.deepcopy(given)

    def fn(rank, comm):
        return M.spod_utils.compute_reconstruction(coeffs_dir=coeffs_dir, time_idx=t, savedir=s.get('sub3'),
                                                   **(dict(coeffs=given) if given is not None else {}),
                                                   filename=s.get('fname'), dtype=s['dtype'], comm=comm)
    if given is not None:
        j = ctx.job(size, fn, **dict(dict(label='reconstruct'), **jk))
        if not np.array_equal(given, keep, equal_nan=True):
            raise Violation('input-changed', 'coefficients given to the reconstruction are changed')
        ctx.probe('supplied_coefficients')
        return j
    return ctx.job(size, fn, **dict(dict(label='reconstruct'), **jk))


def agree(results, label):
    for q in results[1:]:
        if q != results[0]:
            raise Violation('ranks-differ', f'{label}: ranks return {results[0]} and {q}')
    return results[0]


def rec_path(s, cdir, out, label=''):
    d = os.path.join(cdir, s['sub3']) if s.get('sub3') else cdir
    f = os.path.join(d, (s.get('fname') or 'reconstructed') + '.npy')
    if os.path.realpath(out[0]) != os.path.realpath(f) or os.path.realpath(out[1]) != os.path.realpath(d):
        raise Violation('wrong-path', f'{label}reconstruction stored at {out}')


def run_c07(ctx):
    s = ctx.scn
    x = make_data(s['data'])
    xp = make_data(s['pdata'])
    if s['method']:
        return run_c07_method(ctx, s, x, xp)
    fit_source(ctx, s, ctx.path('res'), x=x)
    folder = res_folder(ctx)
    before = simfs.snapshot(folder)
    fc, cd = agree(project(ctx, s, folder, s['size2'], xp).results, 'projection')
    got, gphi, gltm = check_proj(ctx, s, folder, cd, fc, xp)
    others(ctx, s, folder, cd, xp)
    A, tidx = supplied(s, got)
    out = agree(reconstruct(ctx, s, cd, s['size3'], A if s['given'] else None, tidx).results, 'reconstruction')
    rec_path(s, cd, out)
    check_rec(ctx, s, out[0], A, gphi, gltm, s['pdata']['nt'], tidx=tidx)
    check_ortho(ctx, s, folder)
    after = simfs.snapshot(folder)
    for k, v in before.items():
        if after.get(k) != v:
            raise Violation('changed-results', f'stored {k} changed by projection, reconstruction or check')
    if s['ortho'][4] is not None:
        check_ortho(ctx, s, folder, True)


def run_c07_method(ctx, s, x, xp):
    """the same through the methods of the fitted object"""
    cls = M.Streaming if s['source'] == 'stream' else M.Standard
    inp, pd = as_input(s['data'], x), as_input(s['pdata'], xp)
    if s['sel']['kind'] == 'idx':
        s['sel'] = dict(kind='all')
    s['sub'] = s['sub3'] = s['fname'] = None
    s['dtype'] = 'double'
    s['tol'] = 1e-10
    kw = sel_kw(s['sel'])

    def fn(rank, comm):
        obj = cls(params=full_params(s, ctx.path('res')), weights=weights_arg(s), comm=comm)
        obj.fit(inp)
        a = obj.compute_coeffs_op(pd, results_dir=obj.savedir_sim, tol=s['tol'], svd=s['svd'], **kw)
        b = obj.compute_reconstruction(a[1], time_idx=s['tidx'])
        return tuple(a), tuple(b)
    a, b = agree(ctx.job(s['size'], fn, label='fit+project+reconstruct').results, 'methods')
    folder = res_folder(ctx)
    got, gphi, gltm = check_proj(ctx, s, folder, a[1], a[0], xp)
    rec_path(s, a[1], b)
    check_rec(ctx, s, b[0], got, gphi, gltm, s['pdata']['nt'])
    ctx.probe('methods')


def check_ortho(ctx, s, folder, mixed=False):
    modes, w = stored(folder, s)
    nf, m = len(modes), modes[0].shape[-1]
    f, i, k, form, mix = s['ortho']
    f, i, k = f % nf, i % m, k % m
    if mixed:                              # modes that are not orthonormal
        g = np.random.default_rng(mix)
        q = np.linalg.qr(g.normal(size=(m, m)))[0] * g.choice([1, 1e-3, 1j], (1, m)) if g.random() < 0.5 else \
            np.eye(m) + g.choice([0, 0, 1e-4, 0.3, 1j, 0.2j], (m, m))
        for n in [n for n in sorted(os.listdir(os.path.join(folder, 'modes'))) if n.endswith('.npy')]:
            if '_f' in n:
                continue
            with simfs.passthru():
                p = os.path.join(folder, 'modes', n)
                np.save(p, (np.load(p) @ q).astype(np.load(p).dtype))
        modes, w = stored(folder, s)
    arg = (lambda v: [v]) if form == 'list' else (lambda v: v)

    def fn(rank, comm):
        flag, O = M.spod_utils.check_orthogonality(results_dir=folder, mode_idx1=arg(i), mode_idx2=arg(k),
                                                   freq_idx=arg(f), dtype=s['dtype'], comm=comm)
        return bool(np.all(flag)), complex(np.asarray(O).reshape(-1)[0]), int(np.asarray(O).size)
    res = ctx.job(s['size3'], fn, label='orthogonality').results
    a = modes[f][..., i].reshape(-1).astype(complex)
    b = modes[f][..., k].reshape(-1).astype(complex)
    want = np.sum(a.conj() * w.reshape(-1) * b)
    sc = max(1.0, float(np.sqrt(np.sum(np.abs(a)**2 * w.reshape(-1)) * np.sum(np.abs(b)**2 * w.reshape(-1)))))
    for flag, O, n in res:
        if n != 1:
            raise Violation('wrong-result', f'orthogonality of mode {i} and {k} has {n} values')
        if not np.isfinite(want):
            continue
        if abs(O - want) > (1e-4 if s['dtype'] == 'single' else 1e-9) * sc:
            raise Violation('wrong-result', f'orthogonality of mode {i} and {k} at frequency {f}: {O} instead of {want}')
        if s['dtype'] == 'double':
            dist = abs(want - (1 if i == k else 0))
            if dist < 1e-7 and not flag:
                raise Violation('wrong-result', f'orthogonality of mode {i} and {k} denied: inner product {want}')
            if dist > 1e-5 and flag:
                raise Violation('wrong-result', f'orthogonality of mode {i} and {k} claimed: inner product {want}')
    ctx.probe('ortho')


# ---------------------------------------------------------------------------
# C14 convolution coefficients
# ---------------------------------------------------------------------------
def gen_c14(r):
    s = gen_source(r, minpts=1)
    s['size2'] = r.choice([0, 1, 2, 3, 4, 5])
    s['size3'] = r.choice([0, 1, 2, 3, 4, 5])
    s['pdata'] = gen_proj_data(r, s)
    s['pdata']['nt'] = r.randrange(3, 24) if r.random() > 0.02 else r.randrange(95, 140)
    s['sel'] = gen_sel(r, s)
    s['dtype'] = r.choice(['double', 'double', 'single'])
    s['sub'] = r.choice([None, None, 'conv'])
    s['sub3'] = r.choice([None, None, 'rec'])
    s['tidx'] = gen_tidx(r, s['pdata']['nt'])
    s['svd'], s['tol'] = r.random() < 0.5, 1e-3 if s['dtype'] == 'single' else 1e-10
    s['others'] = gen_other(r, s)
    s['given'] = gen_supplied(r, s, s['pdata']['nt'])
    return s


def run_c14(ctx):
    s = ctx.scn
    x = make_data(s['data'])
    xp = make_data(s['pdata'])
    fit_source(ctx, s, ctx.path('res'), x=x)
    folder = res_folder(ctx)
    fc, cd = agree(project(ctx, s, folder, s['size2'], xp, conv=True).results, 'convolution')
    got, gphi, gltm = check_proj(ctx, s, folder, cd, fc, xp, conv=True)
    others(ctx, s, folder, cd, xp)
    A, tidx = supplied(s, got)
    out = agree(reconstruct(ctx, s, cd, s['size3'], A if s['given'] else None, tidx).results, 'reconstruction')
    rec_path(s, cd, out)
    check_rec(ctx, s, out[0], A, gphi, gltm, s['pdata']['nt'], tidx=tidx)


# ---------------------------------------------------------------------------
# C08 POD
# ---------------------------------------------------------------------------
def gen_pod(r, maxranks=6, minpts=2):
    s = gen_env(r, maxranks)
    xshape = gen_shape(r, minpts=minpts)
    nv = r.choice([1, 1, 2, 3])
    nt = r.randrange(4, 20)
    s['data'] = gen_data(r, xshape, nt, nv, complex_ok=False)
    p = dict(time_step=r.choice([1.0, 0.5]))
    mt = r.choice(['longtime', 'longtime', 'zero', None])
    if mt:
        p['mean_type'] = mt
    if r.random() < 0.25:
        p['normalize_weights'] = True
    if r.random() < 0.25:
        p['dtype'] = 'single'
    rank = min(nt - 1, prod(xshape) * s['data']['nv'])
    if r.random() < 0.7:
        p['n_modes_save'] = r.randrange(1, rank + 1)
    s['params'] = p
    s['weights'] = r.randrange(1 << 30) if r.random() < 0.5 else None
    gen_wform(r, s)
    s['supply'] = gen_supply(r)
    if r.random() < 0.1:
        gen_sym(r, s, ['wave'] * 3 + ['spread'] * 3 + ['one', 'repeat', 'stop'])
    return s


def gen_c08(r):
    s = gen_pod(r)
    if r.random() < 0.03:
        s['data'].update(nt=r.randrange(95, 215), cuts=[])
    s['size2'] = r.choice([0, 1, 2, 3, 4, 5])
    s['size3'] = r.choice([0, 1, 2, 3, 4, 5])
    s['dtype'] = r.choice(['double', 'double', 'single'])
    s['form2'] = r.choice(['array', 'xarray'])
    s['sub'] = r.choice([None, None, 'proj'])
    s['sub3'] = r.choice([None, None, 'rec'])
    s['fname'] = r.choice([None, None, 'again', 'rec_0.5'])
    s['tidx'] = gen_tidx(r, s['data']['nt'])
    s['method'] = r.random() < 0.3
    s['given'] = None if s['method'] else gen_supplied(r, s, s['data']['nt'])
    return s


def ref_pod(s, x):
    p = s['params']
    w = true_weights(s)
    return ref.pod(x.astype(float), w, p.get('mean_type', 'longtime'), p.get('normalize_weights', False))


def collect_pod(folder, obj=None):
    with simfs.passthru():
        with np.load(os.path.join(folder, 'eigs.npz')) as z:
            out = dict(eigs=z['eigs'].copy())
        out['modes'] = np.load(os.path.join(folder, 'modes.npy'))
        out['weights'] = np.load(os.path.join(folder, 'weights.npy'))
    if obj is not None:
        out['attr'] = np.array(obj.eigs)
    return out


def check_pod(ctx, s, res, rf, label=''):
    single = is_single(s) or s['data']['npdtype'] == 'f4'
    nt = s['data']['nt']
    L = rf['eigs']
    nms = int(min(s['params'].get('n_modes_save', 10**9), nt))
    e = np.asarray(res['eigs'])
    if e.shape != (nt,):
        raise Violation('wrong-result', f'{label}eigenvalues: shape {e.shape} instead of {(nt,)}')
    tol = (1e-4 if single else 1e-9) * L[0]
    if not np.all(np.isfinite(e)):
        raise Violation('wrong-result', f'{label}eigenvalues: not finite')
    if np.max(np.abs(np.imag(e))) > tol:
        raise Violation('wrong-result', f'{label}eigenvalues: complex')
    e = e.real
    if np.any(np.diff(e) > tol):
        raise Violation('wrong-result', f'{label}eigenvalues not in decreasing order: {e[:6]}')
    need(ref.close(e, L, 1e-4 if single else 1e-9, label + 'eigenvalues', L[0]))
    need(ref.close(res['weights'].reshape(-1), rf['weights'].reshape(-1), 1e-4 if single else 1e-9, label + 'weights'))
    m = res['modes']
    sh = rf['phi'].shape[:-1]
    if m.shape != sh + (nms,):
        raise Violation('wrong-result', f'{label}modes: shape {m.shape} instead of {sh + (nms,)}')
    k = min(nms, rf['phi'].shape[-1])
    probes = {}
    if np.max(np.abs(np.imag(m[..., ref.good_modes(L, k, single)])), initial=0) > 1e-6:
        raise Violation('wrong-result', f'{label}modes: complex')
    need(ref.modes_equal(m[..., :k], rf['phi'][..., :k], L, rf['weights'], single, label + 'POD', probes, rf['phi']))
    for q, v in probes.items():
        ctx.probe(q, v)


def run_c08(ctx):
    s = ctx.scn
    x = make_data(s['data'])
    inp = as_input(s['data'], x)
    keep = copy.deepcopy(inp)
    rf = ref_pod(s, x)
    d2 = dict(s['data'], form=s['form2'], cuts=[])
    pin = as_input(d2, x)
    if s['method']:
        s['sub'] = s['sub3'] = s['fname'] = None
        s['dtype'] = 'double'

    def fit(rank, comm):
        obj = M.Pod(params=full_params(s, ctx.path('res')), weights=weights_arg(s), comm=comm)
        obj.fit(inp)
        a = b = None
        if s['method']:
            a = obj.compute_coeffs_op(pin, results_dir=obj._savedir_sim)
            b = obj.compute_reconstruction(a[1], time_idx=s['tidx'])
        return collect_pod(obj._savedir_sim, obj), str(obj._savedir_sim), a, b
    j = ctx.job(s['size'], fit, label='POD fit')
    folder = j.results[0][1]
    for q in j.results:
        check_pod(ctx, s, q[0], rf)
        need(eig_close(q[0]['attr'], q[0]['eigs'], False, 'eigs attribute'))
    unchanged(inp, keep, 'data')

    def proj(rank, comm):
        return M.pod_utils.compute_coeffs_op(pin, results_dir=folder, savedir=s['sub'], dtype=s['dtype'], comm=comm)
    if s['method']:
        fc, cd = j.results[0][2]
    else:
        fc, cd = agree(ctx.job(s['size2'], proj, label='POD projection').results, 'projection')
    want = os.path.join(folder, 'coeffs', *([s['sub']] if s['sub'] else []))
    if os.path.realpath(cd) != os.path.realpath(want):
        raise Violation('wrong-path', f'coefficients folder {cd}')
    got, gphi, gltm = load(fc), load(os.path.join(cd, 'modes_r.npy')), load(os.path.join(cd, 'ltm.npy'))
    modes = load(os.path.join(folder, 'modes.npy'))
    w = load(os.path.join(folder, 'weights.npy')).astype(float)
    single = s['dtype'] == 'single' or s['data']['npdtype'] == 'f4' or is_single(s)
    xf = x.reshape(x.shape[0], -1).astype(float)
    need(ref.close(gltm, x.astype(float).mean(0), 1e-4 if single else 1e-9, 'stored mean', max(1e-3, np.abs(x).max())))
    need(ref.close(gphi, modes, 1e-5 if single else 1e-12, 'stored modes_r', np.max(np.abs(modes[np.isfinite(modes)]), initial=1e-3))
         if np.all(np.isfinite(modes)) else None)
    L = rf['eigs']
    good = [i for i in range(modes.shape[-1]) if i < len(L) and L[i] > (1e-3 if single else 1e-9) * L[0]]
    C = modes.reshape(-1, modes.shape[-1]).T @ (w.reshape(-1)[:, None] * (xf - xf.mean(0)).T)
    if got.shape != C.shape:
        raise Violation('wrong-result', f'coefficients: shape {got.shape} instead of {C.shape}')
    need(ref.close(got[good], C[good], 2e-3 if single else 1e-8, 'coefficients'))
    ctx.probe('coeffs_compared')
    # energy kept by the coefficients of the mean-free data
    if s['params'].get('mean_type', 'longtime') == 'longtime':
        e = np.sum(np.abs(got[good])**2, axis=1)
        need(ref.close(e, L[good], 5e-3 if single else 1e-7, 'energy of the coefficients', L[0]))

    A, tidx = supplied(s, got)
    keep = A.copy()

    def rec(rank, comm):
        return M.pod_utils.compute_reconstruction(coeffs_dir=cd, time_idx=tidx, savedir=s['sub3'],
                                                  **(dict(coeffs=A) if s['given'] else {}),
                                                  filename=s['fname'], dtype=s['dtype'], comm=comm)
    out = j.results[0][3] if s['method'] else agree(ctx.job(s['size3'], rec, label='POD reconstruction').results, 'rec')
    rec_path(s, cd, out)
    if np.all(np.isfinite(modes)):
        check_rec(ctx, s, out[0], A, gphi, gltm, s['data']['nt'], dtype='single' if single else 'double', tidx=tidx)
    if not np.array_equal(A, keep, equal_nan=True):
        raise Violation('input-changed', 'coefficients given to the reconstruction are changed')
    # all energetic modes retained: the reconstruction is the data
    nen = int(np.sum(L > 1e-12 * L[0]))
    if not s['given'] and not single and modes.shape[-1] >= nen and s['params'].get('mean_type', 'longtime') == 'longtime':
        t = ref.time_idx(s['tidx'], s['data']['nt'])
        need(ref.close(load(out[0]), x[t], 1e-5, 'reconstruction from all modes', np.abs(x).max()))
        ctx.probe('full_rank_reconstruction')


PROPS = {
    'C07': dict(gen=gen_c07, run=run_c07),
    'C08': dict(gen=gen_c08, run=run_c08),
    'C14': dict(gen=gen_c14, run=run_c14),
}
