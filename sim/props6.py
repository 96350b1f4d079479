"""Figures, probes and lookups: what is shown is what was stored."""
import os
import shutil

import numpy as np

import core
import ref
import simfs
from core import Violation
from harness import M, as_input, full_params, make_data, weights_arg
from props import fit_files, prod, write_files
from props3 import FAULTS
from props2 import freq_of, gen_source, n_freq_of, res_folder, stored

FIGURE, FILM = b'a figure' * 20, b'a film' * 20
BASE = ['nfreq', 'ncoords', 'eigsf', 'eigsp', 'eigs', 'coeffs', 'series', 'hist', 'mtracers', 'mtracers', 'dtracers', 'dtracers']
PLANE = ['modes2', 'modes2', 'modes2', 'modes2', 'data2', 'data2', 'video', 'subplot', 'report']


def gen_view(r, s):
    d = s['data']
    sh = d['xshape']
    kinds = list(BASE)
    if min(sh) > 1 and len(sh) == 2:
        kinds += PLANE
    if min(sh) > 1 and len(sh) == 3:
        kinds += ['slice3'] * 8
    nv = d['nv']
    k = r.choice(kinds)
    v = dict(what=k, obj=r.random() < 0.5, f=r.randrange(1000), off=r.choice([0, 0, r.uniform(-0.4, 0.4), 3, -3]),
             vars=r.sample(range(nv), r.randrange(1, nv + 1)), modes=r.sample(range(4), r.randrange(1, 4)), seed=r.randrange(1 << 30),
             x=r.choice([None, 'even', 'uneven', 'falling']), imaginary=r.random() < 0.4, fftshift=r.random() < 0.25,
             ext=r.choice(['.png', '.jpg', '.v2.png']), name=r.choice(['fig', 'a_b', 'fig.x']), all=r.random() < 0.3,
             max=r.random() < 0.25, coast=r.choice(['', '', 'regular', 'centred']), swap=r.random() < 0.3,
             lim=[r.random(), r.random(), r.random(), r.random()] if r.random() < 0.25 else None, shift=r.random() < 0.2,
             sdim=r.randrange(3), sid=r.choice([None, r.random(), r.random()]), n=r.randrange(1, 4), t=[r.random(), r.random()],
             npint=r.random() < 0.2)
    return v


def gen_c16(r):
    s = gen_source(r, maxranks=4, kinds=('mem', 'mem', 'mem', 'stream', 'files'), minpts=1)
    if r.random() < 0.6:      # mostly fields
        while len(s['data']['xshape']) == 1 or min(s['data']['xshape']) < 2 or prod(s['data']['xshape']) > 60:
            s = gen_source(r, maxranks=4, kinds=('mem', 'mem', 'mem', 'stream', 'files'), minpts=1)
    s['views'] = [gen_view(r, s) for _ in range(r.randrange(1, 5))]
    s['again'] = r.randrange(1 << 30) if r.random() < 0.2 else None
    if r.random() < 0.3:      # a view while the storage fails
        v = dict(gen_view(r, s), obj=False)
        s['drill'] = dict(view=v, kind=r.choice(FAULTS), at=r.random(), frac=r.choice([0, 0.3, 0.8]), mut=r.random() < 0.5, sticky=r.choice([0, 0, 2, 10**6]))
    return s


class Canvas:
    """what is drawn, seen from inside the plotting library; pixels are not made"""
    on = None

    def __init__(self):
        self.saved = []        # (path, figure)

    @classmethod
    def install(cls):
        import matplotlib
        from matplotlib import animation, axes, figure
        if getattr(axes.Axes, '_sim', None):
            return
        axes.Axes._sim = True

        def tap(name):
            real = getattr(axes.Axes, name)

            def wrapped(self, *a, **k):
                if Canvas.on is not None and core.cur_rank() is not None:
                    self.__dict__.setdefault('_simdraw', []).append((name, [np.array(v) for v in a if not np.isscalar(v)]))
                return real(self, *a, **k)
            setattr(axes.Axes, name, wrapped)
        for n in ('contourf', 'pcolormesh'):
            tap(n)
        real = figure.Figure.savefig

        def savefig(self, fname, *a, **k):
            if Canvas.on is None or core.cur_rank() is None:
                return real(self, fname, *a, **k)
            Canvas.on.saved.append((os.fspath(fname) if isinstance(fname, (str, os.PathLike)) else None, look(self)))
            if isinstance(fname, (str, os.PathLike)):
                with open(fname, 'wb') as f:
                    f.write(FIGURE)
        figure.Figure.savefig = savefig

        class Film(animation.AbstractMovieWriter):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)

            @classmethod
            def isAvailable(cls):
                return True

            def setup(self, fig, outfile, dpi=None):
                self.fig, self.out = fig, outfile
                Canvas.on.saved.append((str(outfile), look(fig)))

            def grab_frame(self, **k):
                Canvas.on.frames += 1

            def finish(self):
                with open(self.out, 'wb') as f:
                    f.write(FILM)
        animation.writers._registered['ffmpeg'] = animation.FFMpegWriter = Film
        which = shutil.which
        shutil.which = lambda c, *a, **k: '/usr/bin/ffmpeg' if c == 'ffmpeg' and Canvas.on is not None else which(c, *a, **k)
        matplotlib.rcParams['figure.max_open_warning'] = 0


def look(fig):
    """what a figure shows: per pair of axes its lines and fields, and the titles"""
    out = []
    for ax in fig.axes:
        lines = [(np.array(l.get_xdata(orig=False), float), np.array(l.get_ydata(orig=False), float)) for l in ax.lines]
        draw = list(ax.__dict__.get('_simdraw', ()))
        if lines or draw:
            out.append(dict(title=ax.get_title(), xlabel=ax.get_xlabel(), lines=lines, draw=draw, xlim=ax.get_xlim(), ylim=ax.get_ylim()))
    st = fig._suptitle.get_text() if getattr(fig, '_suptitle', None) else ''
    return dict(axes=out, title=st)


def same(a, b, what, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation('wrong-figure', f'{what}: shape {a.shape} instead of {b.shape}')
    if not np.allclose(a, b, rtol=tol, atol=tol * max(1e-300, float(np.nanmax(np.abs(np.where(np.isfinite(b), b, 0)), initial=0))), equal_nan=True):
        raise Violation('wrong-figure', f'{what} differ from the stored values')


class Look:
    """one view and its judgement"""

    def __init__(self, ctx, s, v, folder, obj, eigs):
        self.ctx, self.s, self.v, self.folder, self.obj, self.eigs = ctx, s, v, folder, obj if v['obj'] else None, eigs
        d = s['data']
        self.sh, self.nv, self.nt = tuple(d['xshape']), d['nv'], d['nt']
        self.fr = np.array(freq_of(s), float)
        self.f = v['f'] % len(self.fr)
        self.modes, self.w = stored(folder, s)
        self.nm = self.modes[0].shape[-1]
        self.at = str(obj.savedir_sim) if self.obj is not None else ctx.path('figures')
        self.keep = []
        with simfs.passthru():
            os.makedirs(self.at, exist_ok=True)
        g = self.g = np.random.default_rng(v['seed'])
        self.x = []
        for n in self.sh:
            if v['x'] == 'uneven':
                c = np.cumsum(g.uniform(0.3, 2, n)) - 3
            elif v['x'] == 'falling':
                c = np.linspace(90, -90, n) if n > 1 else np.array([4.0])
            else:
                c = np.linspace(0, 360, n, endpoint=False)
            self.x.append(c)

    def name(self):
        return self.v['name'] + self.v['ext']

    def hold(self, *arrays):
        """inputs that have to come out as they went in"""
        self.keep += [(a, np.array(a)) for a in arrays if a is not None]

    def fig(self, name):
        p = os.path.join(self.at, name)
        got = [f for n, f in Canvas.on.saved if n and os.path.realpath(n) == os.path.realpath(p)]
        if len(got) != 1:
            raise Violation('no-figure', f'{self.v["what"]}: {name} was drawn {len(got)} times; drawn: '
                            f'{[os.path.basename(n) for n, _ in Canvas.on.saved if n]}')
        return got[0]

    def count(self, n):
        if len(Canvas.on.saved) != n:
            raise Violation('no-figure', f'{self.v["what"]}: {len(Canvas.on.saved)} figures instead of {n}: '
                            f'{[os.path.basename(n) for n, _ in Canvas.on.saved if n]}')

    def split(self, name, tail):
        b, e = os.path.splitext(name)
        return b + tail + e

    def near(self):
        """a frequency to ask for, closest to stored frequency f"""
        df = float(np.abs(np.diff(self.fr)).min()) if len(self.fr) > 1 else 1.0
        off = self.v['off']
        if abs(off) > 1:       # out of the range
            q = self.fr.max() + off * df if off > 0 else self.fr.min() + off * df
            self.f = int(np.argmin(np.abs(self.fr - q)))
            return float(q)
        return float(self.fr[self.f] + off * df)

    def vars(self):
        v = list(self.v['vars'])
        return v if len(v) > 1 or not self.v['npint'] else v[0]

    def mids(self, within=True):
        m = [k for k in self.v['modes'] if k < self.nm or not within] or [0]
        return m

    def coords(self, x):
        """points to ask for, and the nearest stored ones"""
        out = []
        for _ in range(self.v['n']):
            c, ix = [], []
            for a in x:
                i = int(self.g.integers(len(a)))
                gap = min([abs(a[i] - a[j]) for j in (i - 1, i + 1) if 0 <= j < len(a)] or [1.0])
                c.append(float(a[i] + self.g.choice([0, 0.4, -0.4]) * gap))
                ix.append(i)
            out.append((tuple(c), tuple(ix)))
        return out

    # -- lookups ---------------------------------------------------------
    def nfreq(self):
        q = self.near()
        if self.obj is not None:
            f, i = self.obj.find_nearest_freq(freq_req=q) if self.v['all'] else self.obj.find_nearest_freq(freq_req=q, freq=self.fr)
        else:
            fr = self.fr if self.v['all'] else list(self.fr)
            f, i = M.post.find_nearest_freq(freq_req=q, freq=fr)
        best = np.abs(self.fr - q).min()
        if not (0 <= i < len(self.fr)) or abs(f - self.fr[i]) > 1e-12 * abs(self.fr).max() or \
                abs(abs(self.fr[i] - q) - best) > 1e-9 * np.abs(self.fr).max():
            raise Violation('wrong-lookup', f'frequency nearest to {q}: {f} at {i} of {self.fr}')
        self.count(0)

    def ncoords(self):
        if self.v['npint']:
            self.x = [list(c) for c in self.x]
        for c, ix in self.coords(self.x):
            if self.obj is not None:
                xi, i = self.obj.find_nearest_coords(c, self.x)
            else:
                xi, i = M.post.find_nearest_coords(c, self.x, self.sh)
            if len(i) != len(ix) or any(int(a) != b for a, b in zip(i, ix)) or any(abs(a[k] - b) > 1e-9 for a, k, b in zip(self.x, ix, xi)):
                raise Violation('wrong-lookup', f'point nearest to {c}: {xi} at {i} instead of {ix}')
        self.count(0)

    # -- spectra and series ---------------------------------------------
    def spectrum(self, fn, want_x):
        E = self.eigs
        T = self.fr.copy()
        self.hold(E, T)
        name = self.name()
        if self.obj is not None:
            getattr(self.obj, fn)(figsize=(2, 2), filename=name, title='spectrum')
        else:
            getattr(M.post, fn)(E, T, figsize=(2, 2), path=self.at, filename=name)
        a = self.fig(name)['axes']
        self.count(1)
        if len(a) != 1 or len(a[0]['lines']) != E.shape[1]:
            raise Violation('wrong-figure', f'{fn}: {[len(q["lines"]) for q in a]} lines instead of {E.shape[1]}')
        for k, (p, y) in enumerate(a[0]['lines']):
            same(p, want_x, f'{fn}: abscissae')
            same(y, np.real(E[:, k]), f'{fn}: line {k}')

    def eigsf(self):
        self.spectrum('plot_eigs_vs_frequency', self.fr)

    def eigsp(self):
        with np.errstate(divide='ignore'):
            self.spectrum('plot_eigs_vs_period', 1 / self.fr)

    def series1(self, n=None):
        return self.g.normal(size=n or int(self.g.integers(3, 9)))

    def eigs_(self):
        E = self.eigs if self.obj is not None else self.g.normal(size=(4, 2)) + 1j * self.g.normal(size=(4, 2))
        self.hold(E)
        if self.obj is not None:
            self.obj.plot_eigs(figsize=(2, 2), filename=self.name())
        else:
            M.post.plot_eigs(E, figsize=(2, 2), path=self.at, filename=self.name())
        a = self.fig(self.name())['axes']
        self.count(1)
        E = np.asarray(E)
        if len(a) != 1 or len(a[0]['lines']) != E.shape[1]:
            raise Violation('wrong-figure', 'plot_eigs: number of lines')
        for k, (p, y) in enumerate(a[0]['lines']):
            same(p, E[:, k].real, 'plot_eigs: real parts')
            same(y, E[:, k].imag, 'plot_eigs: imaginary parts')
        for lo, hi in (a[0]['xlim'], a[0]['ylim']):
            if lo > -np.abs(E).max() or hi < np.abs(E).max():
                raise Violation('wrong-figure', f'plot_eigs: eigenvalues up to {np.abs(E).max()} are outside of ({lo}, {hi})')

    def coeffs(self):
        C = self.g.normal(size=(5, 7)) + (1j * self.g.normal(size=(5, 7)) if self.v['all'] else 0)
        ix = [k for k in self.v['modes']]
        self.hold(C)
        M.post.plot_coeffs(C, coeffs_idx=ix, figsize=(2, 2), path=self.at, filename=self.name())
        self.count(len(ix))
        for k in ix:
            a = self.fig(self.split(self.name(), f'_coeff_id{k}'))['axes']
            if len(a) != 1 or len(a[0]['lines']) != 1:
                raise Violation('wrong-figure', f'plot_coeffs: {[len(q["lines"]) for q in a]} lines for coefficient {k}')
            same(a[0]['lines'][0][0], np.arange(7), 'plot_coeffs: times')
            same(a[0]['lines'][0][1], C[k].real, f'plot_coeffs: coefficient {k}')

    def series(self):
        a, b = self.series1(), self.series1()
        self.hold(a, b)
        M.post.plot_compare_time_series(a, b, 'one', 'two', figsize=(2, 2), path=self.at, filename=self.name())
        self.two(a, b)

    def hist(self):
        a = self.series1()
        b = self.series1(len(a))
        M.post.plot_training_histories(list(a), list(b), figsize=(2, 2), path=self.at, filename=self.name())
        self.two(a, b)

    def two(self, a, b):
        q = self.fig(self.name())['axes']
        self.count(1)
        if len(q) != 1 or len(q[0]['lines']) != 2:
            raise Violation('wrong-figure', 'comparison: number of lines')
        same(q[0]['lines'][0][1], a, 'first series')
        same(q[0]['lines'][1][1], b, 'second series')

    # -- tracers ---------------------------------------------------------
    def mtracers(self):
        q = self.near()
        if not q or abs(q) < 1e-9 * np.abs(self.fr).max():
            q, self.f = float(self.fr[1]), 1
        x = None if self.v['x'] is None else self.x
        pts = self.coords(x or [np.arange(n) for n in self.sh])
        mods = self.mids()
        shift = self.v['fftshift'] and len(self.sh) > 1
        kw = dict(freq_req=q, freq=self.fr, coords_list=[c for c, _ in pts], x=x, vars_idx=self.vars(), modes_idx=list(mods),
                  fftshift=shift, figsize=(3, 3), filename=self.name())
        self.hold(self.fr, *(x or ()))
        if self.obj is not None:
            self.obj.plot_mode_tracers(**kw)
        else:
            M.post.plot_mode_tracers(self.folder, path=self.at, **kw)
        self.count(len(pts) * len(self.v['vars']))
        ph = np.exp(-1j * np.linspace(0, 10 * np.pi, 100))

        def judge(fig, ix, var):
            if len(fig['axes']) != len(mods) or any(len(a['lines']) != 1 for a in fig['axes']):
                raise Violation('wrong-figure', f'mode tracers: {[len(a["lines"]) for a in fig["axes"]]} lines for {len(mods)} modes')
            for a, m in zip(fig['axes'], mods):
                z = self.modes[self.f][..., var, m]
                if shift:
                    z = np.fft.fftshift(z, axes=1)
                t, y = a['lines'][0]
                same(y, (z[ix] * ph).real, f'tracer of mode {m}, variable {var} at {ix}', 1e-6 if z.dtype == np.complex64 else 1e-9)
                if abs(t[0]) > 1e-12 or min(abs(t[-1] - 1 / q), abs(t[-1] - 1 / self.fr[self.f])) > 1e-9 * abs(t[-1]):
                    raise Violation('wrong-figure', f'mode tracer over {t[0]}..{t[-1]}, not the period {1 / q}')
        self.pairs([(ix, var) for _, ix in pts for var in self.v['vars']], judge)

    def pairs(self, want, judge):
        """one figure for each of `want`, in any order, and no file for two of them"""
        left = list(Canvas.on.saved)
        names = {}
        for w in want:
            first = None
            for k, (n, fig) in enumerate(left):
                try:
                    judge(fig, *w)
                except Violation as e:
                    first = first or e
                    continue
                if names.setdefault(n, w) == w:
                    del left[k]
                    break
                first = first or Violation('wrong-figure', f'tracers of {names[n]} and {w} share the file {os.path.basename(n)}')
            else:
                raise first

    def field(self, nt=None):
        """data of the shape of the fitted ones"""
        nt = nt or self.nt
        return self.g.normal(size=(nt, *self.sh, self.nv))

    def window(self, nt, most=None):
        a, b = sorted(int(t * nt) for t in self.v['t'])
        b = max(b, a + 1)
        if most:
            b = min(b, a + most)
        return [a, min(b, nt)]

    def dtracers(self):
        X = self.field()
        w = self.window(self.nt)
        x = None if self.v['x'] is None else self.x
        pts = self.coords(x or [np.arange(n) for n in self.sh])
        kw = dict(coords_list=[c for c, _ in pts], x=x, time_limits=w, vars_idx=self.vars(), figsize=(2, 2), filename=self.name())
        self.hold(X, *(x or ()))
        if self.obj is not None:
            self.obj.plot_data_tracers(X[..., 0] if self.nv == 1 and self.v['all'] else X, **kw)
        else:
            M.post.plot_data_tracers(X, path=self.at, **kw)
        self.count(len(pts) * len(self.v['vars']))

        def judge(fig, ix, var):
            if len(fig['axes']) != 1 or len(fig['axes'][0]['lines']) != 1:
                raise Violation('wrong-figure', 'data tracers: number of lines')
            t, y = fig['axes'][0]['lines'][0]
            same(t, np.arange(*w), 'data tracer: times')
            same(y, X[(slice(*w),) + ix + (var,)], f'data tracer of variable {var} at {ix}')
        self.pairs([(ix, var) for _, ix in pts for var in self.v['vars']], judge)

    # -- fields ----------------------------------------------------------
    def axes2(self):
        """(x1, x2, field of axis 0 and 1 as drawn) for the orientation chosen"""
        n0, n1 = self.sh
        if self.v['x'] is None and not self.v['shift']:
            return None, None, n0 != n1
        swap = self.v['swap'] and n0 != n1 and not self.v['shift']
        return (self.x[0], self.x[1], True) if swap else (self.x[1], self.x[0], False)

    def drawn(self, ax, name):
        d = [a for n, a in ax['draw'] if n == name]
        if len(d) != 1 or len(d[0]) < 3:
            raise Violation('wrong-figure', f'{self.v["what"]}: {len(d)} fields in one pair of axes')
        return d[0][:3]

    def modes2(self):
        q = self.near()
        x1, x2, tr = self.axes2()
        n1 = self.sh[1]
        shift = self.v['shift'] and n1 % 2 == 0 and self.v['x'] != 'falling' and not self.v['max']
        sq = x1 is None and self.sh[0] == self.sh[1]
        lim = None
        if self.v['lim'] and not shift and self.obj is None and x1 is not None:
            lim = []
            for n, (a, b) in zip((len(x1), len(x2)), (self.v['lim'][:2], self.v['lim'][2:])):
                a = int(a * (n - 1))
                lim.append((a, a + 2 + int(b * (n - a - 1))))
        mods = list(self.mids(False))
        kw = dict(freq_req=q, freq=self.fr, vars_idx=self.vars(), modes_idx=mods, x1=x1, x2=x2, fftshift=self.v['fftshift'] and not shift,
                  imaginary=self.v['imaginary'], plot_max=self.v['max'], coastlines=self.v['coast'], figsize=(3, 3),
                  shift180=shift, filename=self.name())
        self.hold(self.fr, x1, x2)
        if self.obj is not None:
            self.obj.plot_2d_modes_at_frequency(**kw)
        else:
            if lim:
                kw.update(limits_x1=lim[0], limits_x2=lim[1])
            M.post.plot_2d_modes_at_frequency(self.folder, path=self.at, **kw)
        mods = [m for m in mods if m < self.nm]
        self.count(len(mods) * len(self.v['vars']))
        for var in self.v['vars']:
            for m in mods:
                fig = self.fig(self.split(self.name(), f'_var{var}_mode{m}'))
                z = np.array(self.modes[self.f][:, :, var, m])
                if kw['fftshift']:
                    z = np.fft.fftshift(z, axes=1)
                a1 = np.arange(self.sh[0]) if x1 is None else x1
                a2 = np.arange(self.sh[1]) if x2 is None else x2
                if shift:
                    z = np.hstack((z[:, n1 // 2:], z[:, :n1 // 2]))
                    a1 = a1 - 180
                if tr:
                    z = z.T
                if lim:
                    a1, a2 = a1[slice(*lim[0])], a2[slice(*lim[1])]
                    z = z[slice(*lim[1]), slice(*lim[0])]
                if len(fig['axes']) < (2 if self.v['imaginary'] else 1):
                    raise Violation('wrong-figure', f'modes: {len(fig["axes"])} pairs of axes')
                for part, ax in zip((np.real, np.imag) if self.v['imaginary'] else (np.real,), fig['axes']):
                    d1, d2, Z = self.drawn(ax, 'contourf')
                    same(d1, a1, 'modes: first coordinate')
                    same(d2, a2, 'modes: second coordinate')
                    if not sq or not np.array_equal(Z, part(z).T):
                        same(Z, part(z), f'{part.__name__} part of mode {m}, variable {var}', 1e-6)
                    if self.v['max'] and not sq:
                        self.cross(ax, a1, a2, np.abs(z))

    def cross(self, ax, a1, a2, mag):
        """lines that cross at the largest value"""
        if (np.abs(mag - mag.max()) <= 1e-9 * mag.max()).sum() > 1:
            return
        i2, i1 = np.unravel_index(np.argmax(mag), mag.shape)
        hy = [y for x, y in ax['lines'] if y.size and np.ptp(y) == 0 and np.ptp(x) > 0]
        vx = [x for x, y in ax['lines'] if x.size and np.ptp(x) == 0 and np.ptp(y) > 0]
        if len(hy) != 1 or len(vx) != 1:
            raise Violation('wrong-figure', f'largest value: {len(hy)} horizontal and {len(vx)} vertical lines')
        same([vx[0].flat[0], hy[0].flat[0]], [a1[i1], a2[i2]], 'largest value: position of the lines')

    def slice3(self):
        q = self.near()
        dim = self.v['sdim']
        x = self.x if self.v['x'] else [np.arange(n) for n in self.sh]
        sid = None if self.v['sid'] is None else int(self.v['sid'] * self.sh[dim])
        mods = list(self.mids())
        kw = dict(freq_req=q, freq=self.fr, vars_idx=self.vars(), modes_idx=mods, slice_dim=dim, slice_id=sid,
                  fftshift=self.v['fftshift'], imaginary=self.v['imaginary'], plot_max=self.v['max'], coastlines=self.v['coast'],
                  figsize=(3, 3), filename=self.name())
        if self.v['x']:
            o = [0, 1, 2]
            if self.v['swap'] and len(set(self.sh)) == 3:      # another order: told by the lengths
                o = [int(k) for k in self.g.permutation(3)]
            kw.update({f'x{k + 1}': x[o[k]] for k in range(3)})
        self.hold(self.fr, *x)
        if self.obj is not None:
            self.obj.plot_3d_modes_slice_at_frequency(**kw)
        else:
            M.post.plot_3d_modes_slice_at_frequency(self.folder, path=self.at, **kw)
        self.count(len(mods) * len(self.v['vars']))
        rest = [k for k in range(3) if k != dim]
        for var in self.v['vars']:
            for m in mods:
                fig = self.fig(self.split(self.name(), f'_var{var}_mode{m}'))
                z3 = self.modes[self.f][..., var, m]
                k = sid
                if k is None:
                    mag = np.abs(z3)
                    if (mag >= mag.max() * (1 - 1e-9)).sum() > 1:
                        continue
                    k = np.unravel_index(np.argmax(mag), mag.shape)[dim]
                z = np.take(z3, k, axis=dim)
                if self.v['fftshift']:
                    z = np.fft.fftshift(z, axes=1)
                if len(fig['axes']) < (2 if self.v['imaginary'] else 1):
                    raise Violation('wrong-figure', f'slices: {len(fig["axes"])} pairs of axes')
                for part, ax in zip((np.real, np.imag) if self.v['imaginary'] else (np.real,), fig['axes']):
                    d1, d2, Z = self.drawn(ax, 'contourf')
                    same(d1, x[rest[0]], 'slice: first coordinate')
                    same(d2, x[rest[1]], 'slice: second coordinate')
                    same(Z, part(z).T, f'{part.__name__} part of slice {k} of mode {m}, variable {var}', 1e-6)
                    if self.v['max']:
                        self.cross(ax, x[rest[0]], x[rest[1]], np.abs(z).T)

    def data2(self):
        X = self.field() + (1j * self.field() if self.v['imaginary'] else 0)
        x1, x2, tr = self.axes2()
        sq = x1 is None and self.sh[0] == self.sh[1]
        ts = sorted({int(t * self.nt) for t in self.v['t']}) if not self.v['swap'] else [int(t * self.nt) for t in self.v['t'][:1]]
        kw = dict(time_idx=ts, vars_idx=self.vars(), x1=x1, x2=x2, coastlines=self.v['coast'], figsize=(3, 3), filename=self.name())
        self.hold(X, x1, x2)
        if self.obj is not None:
            self.obj.plot_2d_data(X[..., 0] if self.nv == 1 and self.v['all'] else X, **kw)
        else:
            M.post.plot_2d_data(X, path=self.at, **kw)
        self.count(len(ts) * len(self.v['vars']))
        for var in self.v['vars']:
            for t in ts:
                fig = self.fig(self.split(self.name(), f'_var{var}_time{t}'))
                z = X[t, ..., var].real
                a1 = np.arange(self.sh[0]) if x1 is None else x1
                a2 = np.arange(self.sh[1]) if x2 is None else x2
                d1, d2, Z = self.drawn(fig['axes'][0], 'contourf')
                same(d1, a1, 'data: first coordinate')
                same(d2, a2, 'data: second coordinate')
                if not sq or not np.array_equal(Z, z.T):
                    same(Z, z.T if tr else z, f'data of variable {var} at time {t}')

    def video(self):
        X = self.field()
        w = self.window(self.nt, 4)
        x1, x2, tr = self.axes2()
        sq = x1 is None and self.sh[0] == self.sh[1]
        kw = dict(time_limits=w, vars_idx=self.v['vars'], sampling=self.v['n'], x1=x1, x2=x2, coastlines=self.v['coast'],
                  figsize=(2, 2), filename=self.v['name'] + '.mp4')
        self.hold(X, x1, x2)
        Canvas.on.frames = 0
        if self.obj is not None:
            self.obj.generate_2d_data_video(X[..., 0] if self.nv == 1 and self.v['all'] else X, **kw)
        else:
            M.post.generate_2d_data_video(X, path=self.at, **kw)
        ts = list(range(*w))[::self.v['n']]
        self.count(len(self.v['vars']))
        if Canvas.on.frames != len(ts) * len(self.v['vars']):
            raise Violation('wrong-figure', f'film of {Canvas.on.frames} pictures instead of {len(ts)} for each of {len(self.v["vars"])} variables')
        for var in self.v['vars']:
            fig = self.fig(self.split(self.v['name'] + '.mp4', f'_var{var}'))
            d = [a[:3] for ax in fig['axes'] for n, a in ax['draw'] if n == 'pcolormesh']
            if len(d) != len(ts):
                raise Violation('wrong-figure', f'film of {len(d)} pictures instead of {len(ts)}')
            for t, (d1, d2, Z) in zip(ts, d):
                z = X[t, ..., var]
                same(d1, np.arange(self.sh[0]) if x1 is None else x1, 'film: first coordinate')
                same(d2, np.arange(self.sh[1]) if x2 is None else x2, 'film: second coordinate')
                if not sq or not np.array_equal(Z, z.T):
                    same(Z, z.T if tr else z, f'film: variable {var} at time {t}')

    def subplot(self):
        v = [self.g.normal(size=self.sh) for _ in range(self.v['n'])]
        a = {}
        for k, q in enumerate(v):
            a[f'var{k + 1}'] = q
            a[f'title{k + 1}'] = f'T{k}'
        self.hold(*v)
        M.post.generate_2d_subplot(path=self.at, filename=self.name(), **a)
        self.count(1)
        ax = [q for q in self.fig(self.name())['axes'] if any(n == 'contourf' for n, _ in q['draw'])]
        if len(ax) != len(v):
            raise Violation('wrong-figure', f'{len(ax)} fields instead of {len(v)}')
        for k, q in enumerate(v):
            d = [d for n, d in ax[k]['draw'] if n == 'contourf']
            same(d[0][0], q, f'field {k}')
            if ax[k]['title'] != f'T{k}':
                raise Violation('wrong-figure', f'field {k} has the title {ax[k]["title"]!r}')

    def report(self):
        if self.obj is None or self.s['data']['complex'] or self.s['params'].get('fullspectrum') or self.eigs.shape[1] > 6:
            return self.nfreq()
        x1, x2 = self.x[1], self.x[0]
        self.hold(x1, x2)
        self.obj.plot_report(x1, x2, path=self.at, filename='report.pdf')
        E, fr = self.eigs[1:], self.fr[1:]
        pages = [f for n, f in Canvas.on.saved]
        k = 0
        while k < len(pages):
            a = pages[k]['axes'][0]
            px, py = a['lines'][-1]
            if len(a['lines']) != E.shape[1] + 1 or px.size != 1:
                raise Violation('wrong-figure', 'report: a peak page has not one marker')
            for i in range(E.shape[1]):
                same(a['lines'][i][1], E[:, i], 'report: spectrum')
                same(a['lines'][i][0], fr, 'report: frequencies')
            m = int(a['title'].split('mode')[1])
            i = int(np.argmin(np.abs(fr - px[0])))
            same([px[0], py[0]], [fr[i], E[i, m]], f'report: peak of mode {m}')
            per, unit = 1 / fr[i], 'hours'
            for u, lo, hi, sc in (('minutes', 0, 1, 1 / 60), ('days', 24, 24 * 30.437, 24), ('months', 24 * 30.437, 24 * 365.25, 24 * 30.437),
                                  ('years', 24 * 365.25, np.inf, 24 * 365.25)):
                if lo <= per < hi:
                    unit, per = u, per / sc
                    break
            if a['title'] != f'Period {per:.2f} {unit}, mode {m}':
                raise Violation('wrong-figure', f'report: title {a["title"]!r} for the period of {1 / fr[i]} hours')
            k += 1
            if m < self.nm:
                if k >= len(pages):
                    raise Violation('wrong-figure', 'report: a peak without its mode')
                d1, d2, Z = self.drawn(pages[k]['axes'][0], 'contourf')
                same(Z, self.modes[i + 1][:, :, 0, m].real, f'report: mode {m} at {fr[i]}', 1e-6)
                k += 1
        self.ctx.probe('report_pages', len(pages))

    def run(self):
        cwd = os.getcwd()
        with simfs.passthru():
            before = simfs.snapshot(os.path.join(self.folder, 'modes'), ())
        Canvas.on = Canvas()
        try:
            getattr(self, {'eigs': 'eigs_'}.get(self.v['what'], self.v['what']))()
            for n, _ in Canvas.on.saved:
                with simfs.passthru():
                    if n and os.path.getsize(n) != len(FILM if n.endswith('.mp4') else FIGURE):
                        raise Violation('no-figure', f'{os.path.basename(n)} is not complete')
        finally:
            Canvas.on = None
            M.post.plt.close('all')
        for a, b in self.keep:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation('input-changed', f'{self.v["what"]}: arrays handed in changed')
        if os.getcwd() != cwd:
            raise Violation('input-changed', 'the working directory changed by plotting')
        with simfs.passthru():
            if simfs.snapshot(os.path.join(self.folder, 'modes'), ()) != before:
                raise Violation('changed-results', f'{self.v["what"]}: stored modes changed')
        self.ctx.probe('view.' + self.v['what'])


def run_c16(ctx):
    Canvas.install()
    s = ctx.scn
    bad = []
    for seed in [None, s['again']] if s['again'] is not None else [None]:
        q = dict(s, data=dict(s['data'], seed=seed)) if seed is not None else s
        x = make_data(q['data'])

        def views(rank, comm, folder, obj):
            with simfs.passthru(), np.load(os.path.join(folder, 'eigs_freq.npz')) as z:
                E = np.array(z['eigs'])
            for v in s['views']:
                if rank == 0 and not bad:
                    try:
                        Look(ctx, q, v, folder, obj, E if obj is None or not v['obj'] else np.array(obj.eigs)).run()
                    except Violation as e:
                        bad.append(e)
                elif obj is not None and v['what'] == 'modes2' and v['all'] and v['obj']:
                    # drawing is up to the first process
                    obj.plot_2d_modes_at_frequency(freq_req=0, freq=np.array(freq_of(q)), filename='none.png')
                if comm:
                    comm.Barrier()
            return folder
        if s['source'] == 'files':
            shutil.rmtree(ctx.path('data'), ignore_errors=True)
            write_files(ctx, q['data'], x)
            fit_files(ctx, q, sorted(os.path.join(ctx.path('data'), f) for f in os.listdir(ctx.path('data'))), ctx.path('res'), collect=False)
            folder = res_folder(ctx)
            ctx.job(s['size'], lambda rank, comm: views(rank, comm, folder, None), label='views')
        else:
            cls = M.Streaming if s['source'] == 'stream' else M.Standard
            data = as_input(q['data'], x)

            def fn(rank, comm):
                obj = cls(params=full_params(q, ctx.path('res')), weights=weights_arg(q), comm=comm)
                obj.fit(data)
                return views(rank, comm, str(obj.savedir_sim), obj)
            ctx.job(s['size'], fn, label='fit and views')
            if seed is None and s['again'] is None:
                folder = res_folder(ctx)
                if not bad:
                    ctx.job(0, lambda rank, comm: views(rank, comm, folder, None), label='views')
        if bad:
            raise bad[0]
    if s.get('drill'):
        drill(ctx, q, s['drill'])


def drill(ctx, s, f):
    """a view that meets failing storage says so, or shows what it should"""
    folder, bad = res_folder(ctx), []
    with simfs.passthru(), np.load(os.path.join(folder, 'eigs_freq.npz')) as z:
        E = np.array(z['eigs'])

    def fn(rank, comm):
        try:
            Look(ctx, s, f['view'], folder, None, E).run()
        except Violation as e:
            bad.append(e)
    j = ctx.job(0, fn, label='rehearsal')
    if bad:
        raise bad[0]
    n = len([q for q in j.fs.oplog if q[0] not in simfs.PURE and (q[2] or not f['mut'])])
    fault = dict(nth=int(f['at'] * n), kind=f['kind'], frac=f['frac'], mut=f['mut'], sticky=f['sticky'])
    j = ctx.job(0, fn, label='view with failing storage', faults=[fault], allow_fail=True)
    fired = j.fs.fired
    if bad and fired:
        raise Violation('fault-hidden', f'{f["view"]["what"]} returned normally after {fired[0][1]} on {fired[0][2]} of '
                        f'{os.path.basename(fired[0][3])}, but: {bad[0].vclass}: {bad[0].msg}')
    if not bad and not j.world.failed:
        ctx.probe('fault_survived')
    if j.world.failed:
        if not fired:
            r0 = j.world.failed[0]
            raise Violation('exception', f'{f["view"]["what"]} raised {type(r0.exc).__name__}: {str(r0.exc)[:200]} without a fault')
        ctx.probe('fault_reported')
    del bad[:]
    ctx.job(0, fn, label='the view again')
    if bad:
        raise bad[0]


PROPS = {
    'C16': dict(gen=gen_c16, run=run_c16),
}
