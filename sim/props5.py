"""Emulator: networks stored per index, over histories of trainings, inferences, crashes and damaged files."""
import os

import numpy as np

import core
import simfs
from core import Violation
from harness import M, gen_env

IDX = [0, 1, 2, 10, 11]


def gen_c15(r):
    s = gen_env(r, 1, serial=1)
    if '{' in (s['dirname'] or ''):         # Keras fills in braces of file names
        s['dirname'] = None
    s['nf'] = r.choice([1, 2, 2, 3])
    s['n_in'] = r.choice([2, 2, 3])        # with 1 the optimiser's epsilon of 0 makes every network NaN
    s['n_out'] = r.choice([1, 1, 2])
    s['neurons'] = r.choice([1, 2, 3])
    s['epochs'] = r.choice([1, 1, 2])
    s['complex'] = r.random() < 0.4
    s['tfseed'] = r.randrange(1 << 20)
    s['clock'] = 'frozen' if s['tfseed'] % 3 == 0 else 'normal'      # files of one job have the same age
    jobs = []
    seen = []
    for k in range(r.choice([1, 1, 2, 2, 3])):
        procs = r.choice([1, 1, 1, 2])
        free = list(IDX)
        r.shuffle(free)
        ops = []
        for q in range(procs):
            # processes running at the same time work on different indices
            own = free[2 * q:2 * q + 2]
            if procs == 1 and seen and r.random() < 0.7:
                own = own[:1] + [r.choice(seen)]
            o = []
            for _ in range(r.randrange(1, 5 if procs == 1 else 4)):
                i = r.choice(own)
                known = i in seen or any(a['do'] == 'train' and a['idx'] == i for a in o)
                do = r.choice(['train', 'infer', 'infer', 'infer'] if known else ['train'] * 6 + ['infer'])
                o.append(dict(do=do, idx=i, seed=r.randrange(1 << 30), n=r.randrange(0, 5), new=r.random() < 0.25,
                              cplx=s['complex'] and r.random() < 0.8, as_str=False))
            if not any(a['do'] == 'infer' for a in o) or r.random() < 0.4:
                j = r.choice([a['idx'] for a in o])
                o.append(dict(do='infer', idx=j, seed=r.randrange(1 << 30), n=r.randrange(1, 5), new=r.random() < 0.3,
                              cplx=s['complex'], as_str=False))
            if procs == 1 and r.random() < 0.15:     # trained, used, trained again and used again
                i = r.choice(own)
                o = [dict(do=do, idx=i, seed=r.randrange(1 << 30), n=r.randrange(1, 4), new=False, cplx=s['complex'], as_str=False)
                     for do in ('train', 'infer', 'train', 'infer')]
            ops.append(o)
            seen += [a['idx'] for a in o if a['do'] == 'train']
        j = dict(ops=ops, fault=None, damage=None)
        c = r.random()
        twice = any(len(t) != len(set(t)) for t in ([a['idx'] for a in o if a['do'] == 'train'] for o in ops))
        # what an interrupted training left is read when the job is over, so it must not be overwritten by then
        if c < 0.35 and not twice:
            j['fault'] = dict(kind=r.choice(['crash', 'crash', 'crash', 'EIO', 'ENOSPC', 'EACCES']), at=r.random(),
                              frac=r.choice([0, 0.4]), mut=r.random() < 0.75, sticky=r.choice([0, 0, 10**6]))
        if r.random() < 0.3 and seen:
            j['damage'] = dict(idx=r.choice(seen), part=r.choice(['real', 'imag'] if s['complex'] else ['real']),
                               how=r.choice(['remove', 'empty', 'cut', 'cut', 'garbage']), frac=r.random())
        jobs.append(j)
    if seen:            # a last process looks at everything
        o = [dict(do='infer', idx=i, seed=r.randrange(1 << 30), n=r.randrange(1, 4), new=r.random() < 0.3, cplx=s['complex'],
                  as_str=False) for i in dict.fromkeys(seen)]
        r.shuffle(o)
        jobs.append(dict(ops=[o[:4]], fault=None, damage=None))
    s['jobs'] = jobs
    return s


def series(s, seed, nt, cplx):
    g = np.random.default_rng(seed)
    x = g.uniform(-1, 1, (s['nf'], nt))
    if not cplx:
        return x
    y = g.uniform(-1, 1, (s['nf'], nt))
    if seed % 5 == 0:                      # an imaginary part at one instant only
        y[:, np.arange(nt) != int(g.integers(0, nt))] = 0
    return x + 1j * y


def read_net(path):
    """[kernel, recurrent, bias, dense kernel, dense bias], or None when the file is no network"""
    import h5py
    found = {}

    def visit(name, ob):
        if isinstance(ob, h5py.Dataset) and '/vars/' in '/' + name and 'optimizer' not in name:
            found[name] = np.array(ob)
    try:
        with simfs.passthru(), h5py.File(path, 'r') as f:
            f.visititems(visit)
    except Exception:
        return None
    a = [found[k] for k in sorted(found) if 'lstm' in k]
    b = [found[k] for k in sorted(found) if 'dense' in k]
    a = [v for v in a if v.dtype.kind == 'f']
    return a + b if len(a) == 3 and len(b) == 2 else None


def forward(w, x):
    """network output for one window x (n_in, nf)"""
    K, R, b, D, d = [np.asarray(v, float) for v in w]
    n = R.shape[0]
    h, c = np.zeros(n), np.zeros(n)
    sg = lambda v: 1 / (1 + np.exp(-v))
    for row in x:
        i, f, g, o = np.split(row @ K + h @ R + b, 4)
        c = sg(f) * c + sg(i) * np.tanh(g)
        h = sg(o) * np.tanh(c)
    return h @ D + d


def predict(s, nets, x):
    nt, n_in, n_out = x.shape[1], s['n_in'], s['n_out']
    want = np.zeros((s['nf'], nt), complex)
    want[:, :n_in] = x[:, :n_in]
    for part, w in nets.items():
        y = x.real if part == 'real' else x.imag
        for t in range(n_in, nt, n_out):
            p = forward(w, y[:, t - n_in:t].T).reshape(n_out, s['nf']).T
            e = min(nt, t + n_out)
            want[:, t:e] += p[:, :e - t] * (1 if part == 'real' else 1j)
    return want


class Watch:
    """weights and loss at the end of every epoch, seen from inside the framework"""
    on = None

    @staticmethod
    def install():
        from keras.src.callbacks import callback_list
        C = callback_list.CallbackList
        if getattr(C, '_sim', None):
            return
        C._sim = True
        begin, end = C.on_train_begin, C.on_epoch_end

        def on_begin(self, logs=None):
            if core.cur_rank() is not None:
                Watch.on[core.cur_rank()].append([])
            return begin(self, logs)

        def on_end(self, epoch, logs=None):
            if core.cur_rank() is not None:
                w = [np.array(v) for v in self.model.get_weights()]
                Watch.on[core.cur_rank()][-1].append((float((logs or {}).get('loss', np.nan)), w))
            return end(self, epoch, logs)
        C.on_train_begin, C.on_epoch_end = on_begin, on_end


def same_net(a, b):
    return a is not None and len(a) == len(b) and all(u.shape == v.shape and np.array_equal(u, v, equal_nan=True) for u, v in zip(a, b))


def best(fit):
    lo = None
    for l, w in fit:
        if lo is None or l < lo[0] or np.isnan(lo[0]):
            lo = (l, w)
    return None if lo is None else lo[1]


def run_c15(ctx):
    s = ctx.scn
    import tensorflow as tf
    import keras
    tf.config.run_functions_eagerly(True)
    keras.backend.clear_session()
    Watch.install()
    d = ctx.path('nets')
    state = {}          # file name -> network stored last, None when damaged; absent when there is none
    file = lambda part, i: os.path.join(d, f'{part}{i}.weights.h5')

    def listing():
        with simfs.passthru():
            return set(os.listdir(d)) if os.path.isdir(d) else set()

    def body(k, jb):
        def fn(rank, comm):
            keras.utils.set_random_seed(s['tfseed'] + 17 * k + rank)
            em, out = None, []
            log[rank] = out
            for op in jb['ops'][rank]:
                if em is None or op['new']:
                    em = M.Nets(dict(data_type='complex' if s['complex'] else 'real', n_neurons=s['neurons'],
                                     epochs=s['epochs'], batch_size=32, n_seq_in=s['n_in'], n_seq_out=s['n_out'], savedir=d))
                    em.model_initialize(np.zeros((s['nf'], 12)))
                rec = dict(op=op, pre=simfs.snapshot(d))
                out.append(rec)
                if op['do'] == 'train':
                    n0 = len(Watch.on[rank])
                    a, b = series(s, op['seed'], 12 + op['n'], op['cplx']), series(s, op['seed'] + 1, 11, op['cplx'])
                    keep = a.copy(), b.copy()
                    try:
                        em.model_train(a, b, idx=op['idx'])
                        rec['ok'] = True
                    except Exception as e:
                        rec['exc'] = e
                        em = None
                    finally:
                        rec['fits'] = Watch.on[rank][n0:]
                    if not (np.array_equal(a, keep[0]) and np.array_equal(b, keep[1])):
                        raise Violation('input-changed', 'training changed the data')
                    if 'ok' in rec:
                        rec['nets'] = {p: read_net(file(p, op['idx'])) for p in parts(op)}
                else:
                    x = series(s, op['seed'], s['n_in'] + op['n'], op['cplx'])
                    keep = x.copy()
                    try:
                        rec['got'] = np.array(em.model_inference(x, idx=op['idx']))
                    except Exception as e:
                        rec['exc'] = e
                        em = None
                    if not np.array_equal(x, keep):
                        raise Violation('input-changed', 'inference changed the data')
                rec['post'] = simfs.snapshot(d)
            return True
        return fn

    def parts(op):
        if op['do'] == 'infer':
            x = series(s, op['seed'], s['n_in'] + op['n'], op['cplx'])
        else:
            x = series(s, op['seed'], 12 + op['n'], op['cplx'])
        return ('real', 'imag') if np.iscomplexobj(x) else ('real',)

    for k, jb in enumerate(s['jobs']):
        n = len(jb['ops'])
        if n > 1:           # two processes that both find no folder: Keras' own race
            os.makedirs(d, exist_ok=True)
        log = [[] for _ in range(n)]
        Watch.on = [[] for _ in range(n)]
        kw = {}
        if jb['fault']:
            f = jb['fault']
            ntr = sum(len(parts(o)) if o['do'] == 'train' else 0 for q in jb['ops'] for o in q)
            nin = sum(len(parts(o)) if o['do'] == 'infer' else 0 for q in jb['ops'] for o in q)
            nops = (98 * ntr * s['epochs'] if f['mut'] else 98 * ntr * s['epochs'] + 8 * nin)
            kw['faults'] = [dict(nth=int(f['at'] * max(nops, 1)), kind=f['kind'], frac=f['frac'], mut=f['mut'], under='nets',
                                 sticky=f['sticky'] if f['kind'] != 'crash' else 0)]
        j = ctx.job(n if n > 1 else 0, body(k, jb), label=f'process {k}', allow_fail=True, **kw)
        for rk in j.world.failed:
            if isinstance(rk.exc, Violation):
                raise rk.exc
            raise Violation('exception', f'harness: {type(rk.exc).__name__}: {str(rk.exc)[:200]}')
        fired = [q for q in j.fs.fired if q[1] != 'crash']
        for rank in range(n):
            for rec in log[rank]:
                judge(ctx, s, rec, state, file, parts(rec['op']), bool(fired), n == 1, 'post' in rec)
        if j.crashed:
            ctx.probe('crashed')
        # what a killed process left is either the old network, a new one, or nothing usable
        if jb['damage']:
            dm = jb['damage']
            p = file(dm['part'], dm['idx'])
            with simfs.passthru():
                if os.path.exists(p):
                    size = os.path.getsize(p)
                    if dm['how'] == 'remove':
                        os.remove(p)
                        state.pop(p, None)
                    else:
                        if dm['how'] == 'garbage':
                            with open(p, 'wb') as f:
                                f.write(np.random.default_rng(1).bytes(size))
                        else:
                            os.truncate(p, 0 if dm['how'] == 'empty' else int(size * dm['frac']))
                        state[p] = None
                    ctx.probe('damaged_' + dm['how'])


def judge(ctx, s, rec, state, file, parts, faulty, alone, ended):
    op = rec['op']
    mine = {os.path.basename(file(p, op['idx'])) for p in ('real', 'imag')}
    lab = f'{op["do"]} {op["idx"]}: '
    if ended and alone:
        for f in set(rec['pre']) | set(rec['post']):
            if f not in mine and f.endswith('.weights.h5') and rec['pre'].get(f) != rec['post'].get(f):
                raise Violation('other-changed', f'{lab}stored network {f} of another index changed')
    if op['do'] == 'train':
        if 'ok' in rec:
            fits = list(rec['fits'])
            for p in parts:
                w = rec['nets'][p]
                if w is None:
                    raise Violation('not-stored', f'{lab}returned, but {p}{op["idx"]} holds no network')
                hit = [i for i, f in enumerate(fits) if same_net(w, best(f) or [])]
                if not hit:
                    raise Violation('wrong-network', f'{lab}{p}{op["idx"]} holds another network than the best one trained')
                fits.pop(hit[0])
                state[file(p, op['idx'])] = w
            ctx.probe('trained')
        else:
            if 'exc' in rec and not faulty:
                raise Violation('exception', f'{lab}{type(rec["exc"]).__name__}: {str(rec["exc"])[:200]}')
            # interrupted: look at what is there
            new = [w for f in rec.get('fits', []) for _, w in f]
            for p in parts:
                fn = file(p, op['idx'])
                old = state.get(fn)
                w = read_net(fn)
                with simfs.passthru():
                    there = os.path.exists(fn)
                if not there:
                    state.pop(fn, None)
                elif w is None:
                    state[fn] = None
                    ctx.probe('torn_network')
                elif same_net(w, old or []) or any(same_net(w, v) for v in new):
                    state[fn] = w
                else:
                    state[fn] = None        # complete for HDF5, but not a network anybody trained
        return
    # inference
    if not ended and 'got' not in rec and 'exc' not in rec:
        return              # killed
    if 'post' in rec and alone and rec['pre'] != rec['post']:
        raise Violation('changed-results', f'{lab}stored networks changed')
    nets = {p: state.get(file(p, op['idx'])) for p in parts}
    usable = all(w is not None for w in nets.values())
    if 'exc' in rec:
        if usable and not faulty:
            raise Violation('exception', f'{lab}{type(rec["exc"]).__name__}: {str(rec["exc"])[:200]}')
        ctx.probe('refused' if not usable else 'fault_reported')
        return
    if not usable:
        bad = [p for p, w in nets.items() if w is None]
        raise Violation('wrong-network', f'{lab}predicted although the stored network ({bad}) is missing or damaged')
    x = series(s, op['seed'], s['n_in'] + op['n'], op['cplx'])
    got = rec['got']
    want = predict(s, nets, x)
    if got.shape != want.shape:
        raise Violation('wrong-prediction', f'{lab}shape {got.shape} instead of {want.shape}')
    if not np.array_equal(got[:, :s['n_in']], x[:, :s['n_in']]):
        raise Violation('wrong-prediction', f'{lab}the given window is not returned unchanged')
    err = np.abs(got - want)
    if not np.array_equal(np.isnan(got), np.isnan(want)) or not np.all(err[~np.isnan(want)] <= 1e-4 * (1 + np.abs(want[~np.isnan(want)]))):
        t = int(np.argmax(err.max(axis=0)))
        raise Violation('wrong-prediction', f'{lab}prediction at step {t} of {x.shape[1]} is not that of the stored network')
    ctx.probe('predicted')


PROPS = {'C15': dict(gen=gen_c15, run=run_c15)}
