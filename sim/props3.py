"""Crash and storage-fault scenarios."""
import copy
import os
import random
import shutil

import numpy as np

import core
import simfs
import ref
from core import Violation
from harness import (M, Skip, Unreadable, as_input, check_spod, need, collect_spod, full_params, gen_data, gen_env,
                     gen_shape, gen_spod, gen_spod_params, is_single, make_data, make_weights, ref_spod, run_fit,
                     same_everywhere, weights_arg)
from props import (check_mode_files, enlarge, fit_files, gen_files, layout, npy_truth, prod, ref_stream, same_array, split,
                   write_files)
from props2 import (agree, check_pod, check_proj, check_rec, collect_pod, fit_source, freq_of, gen_pod, gen_proj_data, gen_sel,
                    gen_source, gen_tidx, load, n_freq_of, project, rec_path, reconstruct, ref_pod, res_folder, sel_kw)


# ---------------------------------------------------------------------------
# C09 FFT blocks across crashes
# ---------------------------------------------------------------------------
def gen_c09(r):
    files = r.random() < 0.3
    s = gen_env(r, 4, serial=0 if files else 0.15)
    n_dft = r.choice([4, 4, 5, 6])
    ov = r.choice([0, 0, 50])
    nov = int(np.ceil(n_dft * ov / 100))
    nblk = r.choice([2, 3, 3, 4])
    nt = nov + nblk * (n_dft - nov) + r.randrange(0, n_dft - nov)
    if files:
        nt = max(nt, 9)
    p = dict(time_step=1.0, n_dft=n_dft, overlap=ov)
    mt = r.choice(['longtime', 'blockwise', 'zero'])
    if mt != 'longtime':
        p['mean_type'] = mt
    if r.random() < 0.25:
        p['dtype'] = 'single'
    if r.random() < 0.2:
        p['fullspectrum'] = True
    if r.random() < 0.3:
        p['n_modes_save'] = r.randrange(1, nblk + 1)
    if files:
        f = gen_files(r, r.random() < 0.3)
        f['nt'] = nt
        f['cuts'] = sorted(r.sample(range(1, nt), r.randrange(0, 3))) if f['form'] == 'nc' else []
        s['data'] = f
        s['padded'], s['item'], s['mpi4'] = 0, 0, False
        s['source'] = 'files'
    else:
        s['data'] = gen_data(r, gen_shape(r, maxpts=10), nt, r.choice([1, 1, 2, 3]), True, ('array', 'list'))
        s['source'] = 'mem'
    s['params'] = p
    s['weights'] = r.randrange(1 << 30) if r.random() < 0.4 else None
    size = lambda: r.choice([1, 2, 2, 3, 4] if files else [0, 1, 2, 2, 3, 4])
    s['pre'] = r.choice([None, None, 'same', 'other', 'other'])
    s['size'] = size()
    s['jobs'] = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
        c = r.random()
        j = dict(size=size(), reuse=r.random() < 0.5, frac=r.random(), torn=r.choice([0, 0, 0.3, 0.7, 1.0]))
        j['at'] = 'blocks' if c < 0.55 else 'fs' if c < 0.75 else 'step'
        s['jobs'].append(j)
    if not s['jobs'] and s['pre'] == 'other':
        s['pre'] = 'same'
    if s['pre'] == 'other' and s['jobs']:
        s['jobs'][0]['reuse'] = False
    s['size2'] = size()
    s['reuse'] = r.random() < 0.8
    s['resave'] = r.random() < 0.5
    return s


def any_fit(ctx, s, inp, sub, size, extra, **jk):
    if s['source'] == 'files':
        ex = dict(savefreq_disk=False, savefreq_disk2=True, **extra)
        args = () if s['data']['form'] == 'mat' else ([f'v{k}' for k in range(s['data']['nv'])],)
        return run_fit(ctx, s, list(inp), ctx.path(sub), size=size, fit_args=args, extra=ex, **jk)
    return run_fit(ctx, s, inp, ctx.path(sub), size=size, extra=extra, **jk)


def make_input(ctx, s, x, sub='data'):
    if s['source'] != 'files':
        return as_input(s['data'], x)
    old = ctx.root
    try:
        ctx.root = os.path.join(old, sub)
        return write_files(ctx, s['data'], x)
    finally:
        ctx.root = old


def n_block_ops(s, size):
    p = s['params']
    nov = int(np.ceil(p['n_dft'] * p.get('overlap', 0) / 100))
    nb = (s['data']['nt'] - nov) // (p['n_dft'] - nov)
    return nb * n_freq_of(s) * (4 if size == 0 else 3 + 2 * size)


def blocks(ctx):
    return {k: v for k, v in simfs.snapshot(ctx.path('res')).items() if 'blocks' in k}


def run_c09(ctx):
    s = ctx.scn
    x = make_data(s['data'])
    inp = make_input(ctx, s, x)
    rf = ref_spod(s, x)
    if s['pre']:
        i0 = inp
        if s['pre'] == 'other':
            d = copy.deepcopy(s['data'])
            d['seed'] += 1
            i0 = make_input(ctx, dict(s, data=d), make_data(d), 'data0')
        any_fit(ctx, s, i0, 'res', s['size'], dict(savefft=True), collect=False)
    crashed = touched = False
    for k, jb in enumerate(s['jobs']):
        kw = {}
        before = blocks(ctx)
        if jb['at'] == 'step':
            kw['crash_step'] = 5 + int(jb['frac']**1.5 * (400 + 250 * jb['size']))
        elif jb['at'] == 'blocks':
            kw['faults'] = [dict(nth=int(jb['frac'] * n_block_ops(s, jb['size'])), under='blocks', mut=True, kind='crash',
                                 frac=jb['torn'])]
        else:
            kw['faults'] = [dict(nth=int(jb['frac'] * 1.3 * n_block_ops(s, jb['size'])), kind='crash', frac=jb['torn'])]
        j = any_fit(ctx, s, inp, 'res', jb['size'], dict(savefft=True, reuse_blocks=jb['reuse']), collect=False,
                    label=f'killed fit {k}', allow_fail=crashed, **kw)
        if j.crashed:
            if not crashed:
                ctx.probe('crashed')
            crashed = True
            if any(o[2] and 'blocks' in o[1] and o[0] != 'mkdir' for o in j.fs.oplog):
                ctx.probe('killed_while_blocks_written')
        elif j.world.failed:
            ctx.probe('error_after_crash')
        if blocks(ctx) != before:
            touched = True
    if s['pre'] == 'other' and not touched:
        return          # the complete blocks of other data are what the user asked to reuse
    j = any_fit(ctx, s, inp, 'res', s['size2'], dict(savefft=s['resave'], reuse_blocks=s['reuse']), label='last fit',
                allow_fail=crashed)
    if j.world.failed:
        ctx.probe('error_after_crash')
        return
    if s['reuse'] and not any(o[2] and 'blocks' in o[1] and o[0] != 'mkdir' for o in j.fs.oplog) and \
            any('blocks' in o[1] and o[0] == 'open_r' for o in j.fs.oplog):
        ctx.probe('blocks_reused')
    same_everywhere(j.results)
    check_spod(ctx, s, j.results[0], rf)
    ctx.probe('compared')


# ---------------------------------------------------------------------------
# C10 storage faults
# ---------------------------------------------------------------------------
OPS = ['batch', 'batch', 'stream', 'files', 'files', 'project', 'conv', 'recon', 'recon_conv', 'pod', 'pod_project', 'pod_recon',
       'npy', 'npy']


def gen_op(r, op):
    """scenario of one library call with everything it needs"""
    if op in ('batch', 'stream', 'files'):
        s = gen_source(r, 4, {'batch': ('mem',), 'stream': ('stream',), 'files': ('files',)}[op], minpts=1)
        if op != 'stream' and r.random() < 0.3:
            s['savefft'] = True
    elif op in ('project', 'conv', 'recon', 'recon_conv'):
        s = gen_source(r, 4, ('mem', 'mem', 'stream', 'files'))
        s['pdata'] = gen_proj_data(r, s)
        if op in ('conv', 'recon_conv'):
            s['pdata']['nt'] = r.randrange(3, 12)
        s['sel'] = gen_sel(r, s)
        s['svd'] = r.random() < 0.5
        s['dtype'] = r.choice(['double', 'double', 'single'])
        s['tol'] = 1e-6 if s['dtype'] == 'double' else 1e-2
        s['sub'] = r.choice([None, None, 'proj'])
        s['sub3'] = r.choice([None, None, 'rec'])
        s['fname'] = r.choice([None, None, 'again', 'rec_0.5'])
        s['tidx'] = gen_tidx(r, s['pdata']['nt'])
    elif op.startswith('pod'):
        s = gen_pod(r, 4)
        s['dtype'] = 'double'
        s['sub'] = r.choice([None, None, 'proj'])
        s['sub3'] = s['fname'] = None
        s['tidx'] = gen_tidx(r, s['data']['nt'])
    else:
        s = gen_env(r, 4)
        nd = r.choice([1, 2, 3])
        s['shape'] = [r.randrange(1, 7) for _ in range(nd)]
        s['axis'] = r.randrange(nd)
        s['split'] = split(r, s['shape'][s['axis']], max(s['size'], 1))
        s['dtype'] = r.choice(['<f8', '<f4', '<c16', '<i4', '>f8'])
        s['seed'] = r.randrange(1 << 30)
    s['op'] = op
    lo = 1 if s.get('source') == 'files' else 0
    s['size2'] = max(lo, r.choice([0, 1, 2, 2, 3, 4]))
    return s


class Op:
    """one call: prepare() what it needs, run(), check() its outcome"""

    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        self.op = s['op']

    def prepare(self, x=None):
        s, ctx, op = self.s, self.ctx, self.op
        if op == 'npy':
            return
        self.x = make_data(s['data'])
        if op in ('batch', 'stream'):
            self.inp = as_input(s['data'], self.x)
            self.rf = ref_spod(s, self.x) if op == 'batch' else ref_stream(s, self.x)
        elif op == 'files':
            self.inp = write_files(ctx, s['data'], self.x)
            self.rf = ref_spod(s, self.x)
        elif op.startswith('pod'):
            self.inp = as_input(s['data'], self.x)
            self.rf = ref_pod(s, self.x)
            self.pin = as_input(dict(s['data'], form='array', cuts=[]), self.x)
            if op != 'pod':
                self.pod_fit()
            if op == 'pod_recon':
                self.a = agree(self.pod_project(s['size']).results, 'projection')
        else:
            fit_source(ctx, s, ctx.path('res'), x=self.x)
            self.folder = res_folder(ctx)
            self.xp = make_data(s['pdata'])
            if op.startswith('recon'):
                self.a = agree(project(ctx, s, self.folder, s['size'], self.xp, conv=op == 'recon_conv').results, 'projection')

    def pod_fit(self, size=None, **jk):
        s, ctx = self.s, self.ctx

        def fit(rank, comm):
            obj = M.Pod(params=full_params(s, ctx.path('res')), weights=weights_arg(s), comm=comm)
            obj.fit(self.inp)
            self.pfolder = str(obj._savedir_sim)
            return collect_pod(obj._savedir_sim, obj)
        return ctx.job(s['size'] if size is None else size, fit, **dict(dict(label='POD fit'), **jk))

    def pod_project(self, size, **jk):
        s = self.s

        def fn(rank, comm):
            return M.pod_utils.compute_coeffs_op(self.pin, results_dir=self.pfolder, savedir=s['sub'], dtype=s['dtype'],
                                                 comm=comm)
        return self.ctx.job(size, fn, **dict(dict(label='POD projection'), **jk))

    def other(self):
        """leave the outcome of the same call with other data in the folder"""
        s = copy.deepcopy(self.s)
        o = Op(self.ctx, s)
        if self.op == 'npy':
            s['seed'] += 1
            o.run(s['size'])
            return
        st = s.get('stale')
        if st:
            p = s['params']
            if st == 'spectrum':
                p['fullspectrum'] = not p.get('fullspectrum', False)
            p.pop('n_modes_save', None)
            s['supply'] = None
            s['data']['seed'] += 1
            x = make_data(s['data'])
            if st == 'layout':          # in memory, one file per frequency; the call itself: files, one file per mode
                run_fit(self.ctx, s, as_input(dict(s['data'], form='array', cuts=[]), x), self.ctx.path('res'), collect=False)
            elif self.op == 'files':
                fit_files(self.ctx, s, make_input(self.ctx, s, x, 'data0'), self.ctx.path('res'), collect=False)
            else:
                run_fit(self.ctx, s, as_input(s['data'], x), self.ctx.path('res'), collect=False,
                        cls=M.Streaming if self.op == 'stream' else None)
            self.ctx.probe('stale_modes')
            return
        if self.op in ('batch', 'stream', 'pod'):
            s['data']['seed'] += 1
            o.inp = as_input(s['data'], make_data(s['data']))
            o.run(s['size'])
        elif self.op == 'files':
            s['data']['seed'] += 1
            o.inp = make_input(self.ctx, s, make_data(s['data']), 'data0')
            o.run(s['size'])
        elif self.op in ('project', 'conv'):
            s['pdata']['seed'] += 1
            o.folder, o.xp = self.folder, make_data(s['pdata'])
            o.run(s['size'])

    def run(self, size=None, **jk):
        s, ctx, op = self.s, self.ctx, self.op
        size = s['size2'] if size is None else size
        ex = {'savefft': True} if s.get('savefft') else {}
        if op == 'batch':
            return run_fit(ctx, s, self.inp, ctx.path('res'), size=size, extra=ex, collect=False, **jk)
        if op == 'stream':
            return run_fit(ctx, s, self.inp, ctx.path('res'), cls=M.Streaming, size=size, collect=False, **jk)
        if op == 'files':
            return fit_files(ctx, dict(s, params=dict(s['params'], **ex)), self.inp, ctx.path('res'), size=size,
                             collect=False, **jk)
        if op in ('project', 'conv'):
            return project(ctx, s, self.folder, size, self.xp, conv=op == 'conv', **jk)
        if op.startswith('recon'):
            return reconstruct(ctx, s, self.a[1], size, **jk)
        if op == 'pod':
            return self.pod_fit(size, **jk)
        if op == 'pod_project':
            return self.pod_project(size, **jk)
        if op == 'pod_recon':
            return ctx.job(size, lambda rank, comm: M.pod_utils.compute_reconstruction(
                coeffs_dir=self.a[1], time_idx=s['tidx'], savedir=s['sub3'], filename=s['fname'], dtype=s['dtype'],
                comm=comm), **dict(dict(label='POD reconstruction'), **jk))
        a = npy_truth(s)
        n = max(size, 1)
        sp = s['split'] if n == len(s['split']) else None
        if sp is None:
            sp = [a.shape[s['axis']] // n + (k < a.shape[s['axis']] % n) for k in range(n)]
        b = np.concatenate([[0], np.cumsum(sp)])
        pieces = [np.take(a, range(b[i], b[i + 1]), axis=s['axis']) for i in range(n)]
        return ctx.job(size, lambda rank, comm: M.par.npy_save(comm, ctx.path('a.npy'), pieces[rank], axis=s['axis']),
                       **dict(dict(label='npy_save'), **jk))

    def check(self, j, label):
        """everything promised is on disk, complete and right"""
        try:
            self._check(j, label)
        except Unreadable as e:
            raise Violation('unreadable', f'{label}stored results: {e}')
        except (OSError, ValueError, EOFError, KeyError) as e:
            raise Violation('unreadable', f'{label}stored results: {type(e).__name__}: {str(e)[:200]}')

    def _check(self, j, label):
        s, ctx, op = self.s, self.ctx, self.op
        res = j.results[0]
        if op in ('batch', 'stream', 'files'):
            out = collect_spod(None, folder=res)
            check_spod(ctx, s, out, self.rf, label, has_attr=False, stream=op == 'stream')
            if op == 'files':
                check_mode_files(res, s, self.rf)
        elif op in ('project', 'conv'):
            check_proj(ctx, s, self.folder, res[1], res[0], self.xp, label, conv=op == 'conv')
        elif op.startswith('recon'):
            cd = self.a[1]
            rec_path(s, cd, res, label)
            check_rec(ctx, s, res[0], load(os.path.join(cd, 'coeffs.npy')), load(os.path.join(cd, 'modes_r.npy')),
                      load(os.path.join(cd, 'ltm.npy')), s['pdata']['nt'], label)
        elif op == 'pod':
            out = collect_pod(self.pfolder)
            check_pod(ctx, s, out, self.rf, label)
        elif op == 'pod_project':
            check_pod_proj(s, self.pfolder, res, self.x, label)
        elif op == 'pod_recon':
            cd = self.a[1]
            rec_path(s, cd, res, label)
            c = [load(os.path.join(cd, g)) for g in ('coeffs.npy', 'modes_r.npy', 'ltm.npy')]
            if not all(np.all(np.isfinite(u)) and np.abs(u).max(initial=0) < 1e3 for u in c):
                load(res[0])        # modes without energy: only that the file is complete
                return
            check_rec(ctx, s, res[0], *c, s['data']['nt'], label,
                      'single' if is_single(s) or s['data']['npdtype'] == 'f4' else 'double')
        else:
            a = npy_truth(s)
            got = load(ctx.path('a.npy'))
            if not np.array_equal(got, a):
                raise Violation('wrong-array', f'{label}saved file differs from the array')


def check_pod_proj(s, folder, res, x, label='', single=None):
    fc, cd = res
    got, gphi, gltm = load(fc), load(os.path.join(cd, 'modes_r.npy')), load(os.path.join(cd, 'ltm.npy'))
    modes = load(os.path.join(folder, 'modes.npy'))
    w = load(os.path.join(folder, 'weights.npy')).astype(float).reshape(-1)
    if single is None:
        single = s['data']['npdtype'] == 'f4' or is_single(s)
    xf = x.reshape(x.shape[0], -1).astype(float)
    need(ref.close(gltm.reshape(x.shape[1:]), x.astype(float).mean(0), 1e-4 if single else 1e-9, label + 'stored mean', max(1e-3, np.abs(x).max())))
    C = modes.reshape(-1, modes.shape[-1]).T @ (w[:, None] * (xf - xf.mean(0)).T)
    if got.shape != C.shape or gphi.shape != modes.shape:
        raise Violation('wrong-result', f'{label}coefficients: shape {got.shape} instead of {C.shape}')
    fin = [i for i in range(C.shape[0]) if np.all(np.isfinite(C[i])) and np.abs(modes[..., i]).max() < 1e3]
    need(ref.close(got[fin], C[fin], 2e-3 if single else 1e-8, label + 'coefficients', max(np.abs(C[fin]).max(initial=0), 1e-3)))
    need(ref.close(gphi[..., fin], modes[..., fin], 1e-5 if single else 1e-12, label + 'stored modes_r'))


FAULTS = ['EIO', 'EIO', 'ENOSPC', 'ENOSPC', 'ENOSPC', 'EACCES', 'EDQUOT', 'short', 'short',
          'ESTALE', 'EMFILE', 'ETIMEDOUT', 'EFBIG', 'EROFS', 'EBUSY', 'EPERM']


def gen_c10(r):
    s = gen_op(r, r.choice(OPS))
    s['other'] = r.random() < 0.5
    if s['other'] and s['op'] in ('batch', 'stream', 'files') and r.random() < 0.5:
        s['stale'] = r.choice(['spectrum', 'modes'] + ['layout'] * 3 * (s['op'] == 'files'))
    n = 1 if r.random() < 0.75 else 2
    s['faults'] = [dict(kind=r.choice(FAULTS), at=r.random(), frac=r.choice([0, 0, 0.3, 0.8]), mut=r.random() < 0.7,
                        sticky=r.choice([0, 0, 2, 10**6])) for _ in range(n)]
    if s.get('stale') and r.random() < 0.5:
        s['faults'][0].update(op='remove', mut=True)
    if r.random() < 0.07:
        s['faults'] = 'readonly'
    s['size3'] = s['size2'] if r.random() < 0.7 else max(1 if s.get('source') == 'files' else 0, r.choice([0, 1, 2, 3, 4]))
    return s


def run_c10(ctx):
    s = ctx.scn
    o = Op(ctx, s)
    o.prepare()
    if s['other']:
        o.other()
    ro = s['faults'] == 'readonly'
    kw = {}
    if ro:
        kw['fs_cfg'] = dict(s['fs'], readonly=True)
    else:
        # count the operations of this call in this state: a rehearsal whose outcome is then wiped
        keep = ctx.path('..', 'keep-' + os.path.basename(ctx.root))
        with simfs.passthru():
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(ctx.root, keep, symlinks=True)
        j = o.run(label='rehearsal')
        ops = [q for q in j.fs.oplog if q[0] not in simfs.PURE]
        with simfs.passthru():
            for f in os.listdir(ctx.root):
                p = os.path.join(ctx.root, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            for f in os.listdir(keep):
                os.rename(os.path.join(keep, f), os.path.join(ctx.root, f))
            os.rmdir(keep)
        fl = []
        for f in s['faults']:
            n = len([q for q in ops if (q[2] or not f['mut']) and f.get('op', q[0]) == q[0]])
            fl.append(dict({'op': f['op']} if 'op' in f else {}, nth=int(f['at'] * n), kind=f['kind'], frac=f['frac'], mut=f['mut'], sticky=f['sticky']))
        kw['faults'] = fl
    j = o.run(label='call with failing storage', allow_fail=True, **kw)
    fired = [f for f in j.fs.fired]
    if not j.world.failed:
        try:
            o.check(j, '')
        except Violation as v:
            if fired:
                raise Violation('fault-hidden', f'{s["op"]} returned normally after {fired[0][1]} on {fired[0][2]} of '
                                f'{os.path.basename(fired[0][3])}, but: {v.vclass}: {v.msg}')
            raise
        if fired:
            ctx.probe('fault_survived')
    else:
        if not fired:
            r0 = j.world.failed[0]
            raise Violation('exception', f'{s["op"]} raised {type(r0.exc).__name__}: {str(r0.exc)[:200]} without a fault')
        ctx.probe('fault_reported')
    j = o.run(size=s['size3'], label='same call after the fault')
    o.check(j, 'after the fault: ')
    ctx.probe('op_' + s['op'])


# ---------------------------------------------------------------------------
# C11 nothing leaks between calls; reading changes nothing
# ---------------------------------------------------------------------------
def gen_c11(r):
    s = gen_env(r, 4)
    xshape = gen_shape(r, maxpts=12, minpts=2)
    if r.random() < 0.03:                   # fields of several pages
        xshape = enlarge(r, xshape, 900)
    nv = r.choice([1, 1, 2])
    ser = s['size'] == 0
    steps = []
    for k in range(r.choice([1, 2, 2, 3, 3, 4])):
        kind = r.choice(['mem', 'mem', 'mem', 'stream', 'pod'] + ([] if ser else ['files']))
        prev = steps[-1] if steps else None
        q = dict(kind=kind, how=r.choice(['new', 'shared', 'shared']), sub=r.choice(['res', 'res', 'res', 'res2']))
        if prev and prev['kind'] != 'pod' and r.random() < 0.4:
            q = dict(prev, how='refit')
            q['params'] = dict(prev['params'])
        elif kind == 'pod':
            z = gen_pod(r, 4)
            q['params'] = z['params']
        else:
            n_dft = r.choice([4, 4, 5, 6])
            p = dict(time_step=1.0, n_dft=n_dft, overlap=r.choice([0, 0, 50]))
            if kind != 'stream':
                mt = r.choice(['longtime', 'LongTime', 'blockwise', 'zero', None])
                if mt:
                    p['mean_type'] = mt
                if r.random() < 0.25:
                    p['normalize_weights'] = True
                if r.random() < 0.25:
                    p['normalize_data'] = True
            if r.random() < 0.3:
                p['fullspectrum'] = True
            if r.random() < 0.25:
                p['dtype'] = 'single'
            if r.random() < 0.4:
                p['n_modes_save'] = r.randrange(1, 4)
            if r.random() < 0.2 and kind == 'mem':
                p['savefft'] = True
            q['params'] = p
        if q['kind'] == 'pod':
            nt = r.randrange(4, 12)
            rank = min(nt - 1, prod(xshape) * nv)
            if 'n_modes_save' in q['params']:
                q['params']['n_modes_save'] = min(q['params']['n_modes_save'], rank)
        else:
            p = q['params']
            nov = int(np.ceil(p['n_dft'] * p['overlap'] / 100))
            nt = nov + r.choice([2, 3, 4, 5]) * (p['n_dft'] - nov) + r.randrange(0, p['n_dft'] - nov)
            if q['kind'] == 'files':
                nt = max(nt, 9)
        if q['kind'] == 'files':
            f = gen_files(r, False)
            f.update(nt=nt, xshape=xshape, nv=nv, npdtype='f8', cuts=sorted(r.sample(range(1, nt), r.randrange(0, 3))))
            q['data'] = f
        else:
            q['data'] = gen_data(r, xshape, nt, nv, q['kind'] != 'pod' and r.random() < 0.5, ('array', 'list'))
        q['weights'] = True if q.get('how') != 'refit' and r.random() < 0.5 else q.get('weights') if q.get('how') == 'refit' else None
        q['reads'] = [dict(what=r.choice(['modes', 'objmodes', 'all', 'file', 'ortho', 'tmp', 'project']), f=r.randrange(50),
                           scribble=r.random() < 0.7) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if r.random() < 0.03:
            q['reads'].insert(r.randrange(len(q['reads']) + 1), dict(
                what='plot', f=r.randrange(50), scribble=False, imaginary=r.random() < 0.4, shift=r.random() < 0.5,
                fftshift=r.random() < 0.3, coast=r.choice(['', '', 'regular', 'centred']), obj=r.random() < 0.5))
        steps.append(q)
    s['steps'] = steps
    s['wseed'] = r.randrange(1 << 30)
    s['final'] = r.choice(['reads', 'readonly', 'readonly'])
    q = steps[-1]
    s['analyses'] = [gen_analysis(r, s, q) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    s['size2'] = r.choice([0, 1, 2, 3])
    return s


def gen_analysis(r, s, q):
    """one projection and reconstruction of some data on the results of the last step"""
    a = dict(svd=r.random() < 0.5, dtype=r.choice(['double', 'double', 'single']), sub=r.choice([None, None, None, 'mine']),
             conv=r.random() < 0.3)
    a['tol'] = 1e-6 if a['dtype'] == 'double' else 1e-3
    if q['kind'] == 'pod':
        d = copy.deepcopy(q['data'])
        d.update(form='array', cuts=[])
        if r.random() < 0.6:
            d.update(seed=r.randrange(1 << 30), nt=r.randrange(2, 20))
        a['pdata'] = d
        a['dtype'] = 'double'
    else:
        a['pdata'] = gen_proj_data(r, q)
        a['sel'] = gen_sel(r, q) if r.random() < 0.5 else dict(kind='all')
        if a['conv']:
            a['pdata']['nt'] = min(a['pdata']['nt'], 16)
    a['tidx'] = gen_tidx(r, a['pdata']['nt'])
    return a


def run_analyses(ctx, s, q, z, folder):
    """the analyses one after another in one job; the files of each are kept aside and judged on their own"""
    pod = q['kind'] == 'pod'
    zs = [dict(z, **a) for a in s['analyses']]
    xs = [make_data(a['pdata']) for a in s['analyses']]
    pins = [as_input(a['pdata'], x) for a, x in zip(s['analyses'], xs)]

    def fn(rank, comm):
        out = []
        for i, a in enumerate(zs):
            if pod:
                res = M.pod_utils.compute_coeffs_op(pins[i], results_dir=folder, savedir=a['sub'], dtype=a['dtype'], comm=comm)
                rec = M.pod_utils.compute_reconstruction(coeffs_dir=res[1], time_idx=a['tidx'], dtype=a['dtype'], comm=comm)
            else:
                f = M.spod_utils.compute_coeffs_conv if a['conv'] else M.spod_utils.compute_coeffs_op
                kw = {} if a['conv'] else dict(tol=a['tol'], svd=a['svd'])
                res = f(data=pins[i], results_dir=folder, savedir=a['sub'], dtype=a['dtype'], comm=comm, **kw, **sel_kw(a['sel']))
                rec = M.spod_utils.compute_reconstruction(coeffs_dir=res[1], time_idx=a['tidx'], dtype=a['dtype'], comm=comm)
            if comm:
                comm.Barrier()
            if rank == 0:
                with simfs.passthru():
                    os.makedirs(ctx.path(f'keep{i}'))
                    for g in os.listdir(res[1]):
                        if not os.path.isdir(os.path.join(res[1], g)):
                            shutil.copy2(os.path.join(res[1], g), ctx.path(f'keep{i}', g))
            if comm:
                comm.Barrier()
            out.append((res, rec))
        return out
    j = ctx.job(s['size2'], fn, label='analyses')
    for i, a in enumerate(zs):
        lab = f'analysis {i}: '
        res, rec = agree([tuple(map(tuple, o[i])) for o in j.results], lab + 'paths')
        at = ctx.path(f'keep{i}')
        if not pod:
            c = check_proj(ctx, a, folder, res[1], res[0], xs[i], lab, conv=a['conv'], at=at)
            dt = None
        else:
            check_pod_proj(a, folder, (os.path.join(at, 'coeffs.npy'), at), xs[i], lab, is_single(a) or a['pdata']['npdtype'] == 'f4')
            c = [load(os.path.join(at, g)) for g in ('coeffs.npy', 'modes_r.npy', 'ltm.npy')]
            dt = 'single' if is_single(a) or a['pdata']['npdtype'] == 'f4' else 'double'
            if not all(np.all(np.isfinite(u)) and np.abs(u).max(initial=0) < 1e3 for u in c):
                continue
        rec_path(dict(a, sub3=None, fname=None), res[1], rec, lab)
        check_rec(ctx, a, os.path.join(at, 'reconstructed.npy'), *c, a['pdata']['nt'], lab, dt)
        ctx.probe('analyses')


def step_scn(s, q):
    z = dict(q)
    z['weights'] = s['wseed'] if q['weights'] else None
    z['size'] = s['size']
    return z


def scribble(m):
    try:
        m[...] = 12345
    except ValueError:      # read-only array
        pass


def read_something(ctx, s, q, folder, rd, rank, comm, obj=None):
    """one reading call on stored SPOD results; returns what it yields"""
    nf = n_freq_of(q)
    f = rd['f'] % nf
    what = rd['what']
    out = None
    if what == 'modes':
        m = M.post.get_modes_at_freq(folder, f)
        out = ('modes', f, np.array(m))
        if rd['scribble']:
            scribble(m)
    elif what == 'objmodes' and obj is not None:
        m = obj.get_modes_at_freq(f)
        out = ('modes', f, np.array(m))
        if rd['scribble']:
            scribble(m)
    elif what == 'all':
        m = M.post.get_all_modes(folder)
        out = ('all', None, np.array(m))
        if rd['scribble']:
            scribble(m)
    elif what == 'file':
        m = M.post.get_data_from_file(os.path.join(folder, 'weights.npy'))
        out = ('weights', None, np.array(m))
        if rd['scribble']:
            scribble(m)
    elif what == 'ortho':
        M.spod_utils.check_orthogonality(results_dir=folder, mode_idx1=[0], mode_idx2=[0], freq_idx=[f], comm=comm)
    elif what == 'project':
        x = make_data(q['data'])
        d = dict(q['data'], form='array', cuts=[])
        M.spod_utils.compute_coeffs_op(data=as_input(d, x), results_dir=folder, freq_idx=[f], tol=1e-6,
                                       savedir=ctx.path('elsewhere'), comm=comm)
    elif what == 'plot' and rank == 0:
        plot_something(ctx, q, folder, rd, f, obj)
    if out is not None and rd['scribble']:
        del m
    return out


def plot_something(ctx, q, folder, rd, f, obj):
    """figures of stored results; what they are drawn from stays as it is"""
    fr = freq_of(q)
    sh = q['data']['xshape']
    at = ctx.path('plots')
    os.makedirs(at, exist_ok=True)
    g = np.random.default_rng(rd['f'])
    E = np.abs(g.normal(size=(len(fr), 2))) + 0.1
    x = [np.linspace(0, 350, n) for n in sh]
    T = np.array(fr, dtype=float)
    xx, EE, TT = [v.copy() for v in x], E.copy(), T.copy()
    names = []
    cwd = os.getcwd()
    if len(sh) == 2 and min(sh) > 1:
        kw = dict(freq_req=fr[f], freq=T, vars_idx=[q['data']['nv'] - 1], modes_idx=[0], x1=x[1], x2=x[0], figsize=(2, 2),
                  imaginary=rd['imaginary'], shift180=rd['shift'], fftshift=rd['fftshift'], coastlines=rd['coast'],
                  path=at, filename='m.png')
        M.post.plot_2d_modes_at_frequency(folder, **kw)
        names.append(f"m_var{q['data']['nv'] - 1}_mode0.png")
    elif len(sh) == 3 and min(sh) > 1 and len(set(sh)) == 3:
        M.post.plot_3d_modes_slice_at_frequency(
            folder, freq_req=fr[f], freq=T, modes_idx=[0], x1=x[0], x2=x[1], x3=x[2], slice_dim=rd['f'] % 3, slice_id=0,
            imaginary=rd['imaginary'], fftshift=rd['fftshift'], figsize=(3, 3), path=at, filename='m.png')
        names.append('m_var0_mode0.png')
    if obj is not None and rd['obj']:
        ev = np.array(obj.eigs)
        if np.isfinite(ev).all():
            obj.plot_eigs_vs_frequency(figsize=(2, 2), filename='e.png')
            names.append(os.path.join(str(obj.savedir_sim), 'e.png'))
        if len(sh) == 2 and min(sh) > 1:
            d = g.normal(size=(4, *sh, q['data']['nv']))
            dd = d.copy()
            obj.plot_2d_data(d, time_idx=[1, 3], x1=x[1], x2=x[0], figsize=(2, 2), filename='d.png')
            if not np.array_equal(d, dd):
                raise Violation('input-changed', 'data changed by plotting them')
        if not np.array_equal(ev, obj.eigs, equal_nan=True):
            raise Violation('changed-results', 'eigenvalues of the object changed by plotting them')
    else:
        M.post.plot_eigs_vs_frequency(E, T, figsize=(2, 2), path=at, filename='e.png')
        names.append('e.png')
    for n in names:
        if not os.path.exists(os.path.join(at, n)) or os.path.getsize(os.path.join(at, n)) < 100:
            raise Violation('no-figure', f'no figure {n}')
    if not (np.array_equal(E, EE) and np.array_equal(T, TT) and all(np.array_equal(a, b) for a, b in zip(x, xx))):
        raise Violation('input-changed', 'arrays handed to a plotting function changed')
    if os.getcwd() != cwd:
        raise Violation('input-changed', 'the working directory changed by plotting')
    M.post.plt.close('all')
    ctx.probe('plots')


def check_read(out, z, mem, label):
    """what a read returned against what the fit stored"""
    if out is None:
        return
    kind, f, m = out
    modes = mem['modes']
    want = modes[f] if kind == 'modes' else np.stack(modes) if kind == 'all' else mem['weights']
    if m.shape != want.shape or not np.array_equal(m, want, equal_nan=True):
        raise Violation('wrong-read', f'{label}: {kind} read after the fit ({m.shape}) differ from the stored ones '
                        f'({want.shape})')


def run_c11(ctx):
    s = ctx.scn
    W = make_weights(s['wseed'], s['steps'][0]['data']['xshape'], s['steps'][0]['data']['nv'])
    scns, inputs, keeps, refs, xs = [], [], [], [], []
    for k, q in enumerate(s['steps']):
        z = step_scn(s, q)
        x = make_data(q['data'])
        z['source'] = q['kind']
        i = make_input(ctx, z, x, f'data{k}') if q['kind'] == 'files' else as_input(q['data'], x)
        scns.append(z)
        xs.append(x)
        inputs.append(i)
        keeps.append(copy.deepcopy(i))
        refs.append(ref_pod(z, x) if q['kind'] == 'pod' else ref_stream(z, x) if q['kind'] == 'stream' else ref_spod(z, x))
    n = max(s['size'], 1)
    weights = [{'weights_name': 'sim', 'weights': W.copy()} for _ in range(n)]
    cls = dict(mem=M.Standard, stream=M.Streaming, files=M.Standard, pod=M.Pod)

    def fn(rank, comm):
        shared, mine = {}, set()
        prev = None
        out, objs = [], []
        for k, q in enumerate(s['steps']):
            z = scns[k]
            p = full_params(z, ctx.path(q['sub']))
            if q['kind'] == 'files':
                p.update(savefreq_disk=False, savefreq_disk2=True)
            if q['how'] == 'refit' and prev is not None:
                obj = prev
            else:
                if q['how'] == 'shared':            # the caller keeps one dictionary and changes its own entries
                    for a in mine - set(p):
                        shared.pop(a, None)
                    shared.update(p)
                    mine = set(p)
                    p = shared
                obj = cls[q['kind']](params=p, weights=weights[rank] if q['weights'] else None, comm=comm)
            args = ([f'v{i}' for i in range(q['data']['nv'])],) if q['kind'] == 'files' else ()
            obj.fit(inputs[k] if q['kind'] != 'files' else list(inputs[k]), *args)
            prev = obj
            if q['kind'] == 'pod':
                folder = str(obj._savedir_sim)
                res = collect_pod(folder, obj)
                out.append((folder, res, []))
            else:
                folder = str(obj.savedir_sim)
                res = collect_spod(obj)
                if comm:
                    comm.Barrier()
                got = [read_something(ctx, s, z, folder, rd, rank, comm, obj) for rd in q['reads']]
                if comm:
                    comm.Barrier()
                again = collect_spod(obj)
                out.append((folder, res, got, again))
            objs.append((obj, np.array(obj.eigs)))
        return out, [bool(np.array_equal(o.eigs, e, equal_nan=True)) for (o, e), q2 in zip(objs, s['steps'][1:] + [{}])
                     if q2.get('how') != 'refit']
    j = ctx.job(s['size'], fn, label='sequence')
    for k, q in enumerate(s['steps']):
        lab = f'step {k} ({q["kind"]}, {q["how"]}): '
        outs = [res[0][k] for res in j.results]
        if q['kind'] == 'pod':
            for o in outs:
                check_pod(ctx, scns[k], o[1], refs[k], lab)
            continue
        check_spod(ctx, scns[k], outs[0][1], refs[k], lab, stream=q['kind'] == 'stream')
        for o in outs:
            for rd in o[2]:
                check_read(rd, scns[k], o[1], lab)
            for a, b in zip(o[1]['modes'], o[3]['modes']):
                if not np.array_equal(a, b, equal_nan=True):
                    raise Violation('changed-results', f'{lab}stored modes changed by reading them')
            for a in ('weights', 'ltm'):
                if not np.array_equal(o[1][a], o[3][a], equal_nan=True):
                    raise Violation('changed-results', f'{lab}stored {a} changed by reading')
    for res in j.results:
        if not all(res[1]):
            raise Violation('attr-changed', 'eigenvalues held by an earlier object changed with a later fit')
    for k, q in enumerate(s['steps']):
        if q['kind'] != 'files':
            a = inputs[k] if isinstance(inputs[k], list) else [inputs[k]]
            b = keeps[k] if isinstance(keeps[k], list) else [keeps[k]]
            if not all(np.array_equal(u, v) for u, v in zip(a, b)):
                raise Violation('input-changed', f'data of step {k} changed')
    for w in weights:
        if not np.array_equal(w['weights'], W) or set(w) != {'weights_name', 'weights'}:
            raise Violation('input-changed', "the caller's weights changed")
    ctx.probe('steps', len(s['steps']))
    # a new job reads what the last SPOD fit of each folder stored
    last = {}
    for k, q in enumerate(s['steps']):
        last[j.results[0][0][k][0]] = k
    ks = [k for k in last.values() if s['steps'][k]['kind'] != 'pod']
    if ks:
        read_again(ctx, s, scns, j, ks[-1])
    if s['analyses']:
        k = len(s['steps']) - 1
        run_analyses(ctx, s, s['steps'][k], scns[k], j.results[0][0][k][0])


def read_again(ctx, s, scns, j, k):
    folder = j.results[0][0][k][0]
    mem = j.results[0][0][k][1]
    q = s['steps'][k]
    before = simfs.snapshot(folder)
    kw = dict(fs_cfg=dict(s['fs'], readonly=q['sub'])) if s['final'] == 'readonly' else {}
    what = q['reads'] + [dict(what=w, f=3 * i, scribble=True) for i, w in enumerate(['modes', 'all', 'ortho', 'file', 'project'])]

    def rd(rank, comm):
        return [read_something(ctx, s, scns[k], folder, w, rank, comm) for w in what]
    jr = ctx.job(s['size2'], rd, label='read ' + s['final'], **kw)
    for res in jr.results:
        for o in res:
            check_read(o, scns[k], mem, s['final'] + ': ')
    if simfs.snapshot(folder) != before:
        raise Violation('changed-results', 'stored results changed by reading them in a new job')
    ctx.probe('read_' + s['final'])


PROPS = {
    'C09': dict(gen=gen_c09, run=run_c09),
    'C10': dict(gen=gen_c10, run=run_c10),
    'C11': dict(gen=gen_c11, run=run_c11),
}
