"""Sequential reference models (plain numpy, one process, whole data set).
Written from the definitions, not from the library's data layout."""
import math
import numpy as np
import scipy.special as sc


def hamming(n):
    x = np.arange(n)
    return 0.54 - 0.46 * np.cos(2 * np.pi * x / (n - 1))


def n_overlap(n_dft, pct):
    return int(np.ceil(n_dft * pct / 100))


def norm_weights(data, weights):
    w = np.array(weights, dtype=float)
    for i in range(data.shape[-1]):
        w[..., i] = w[..., i] / np.var(data[..., i])
    return w


def freq_axis(n_dft, dt, isreal, full):
    f = np.arange(n_dft) / dt / n_dft
    if full:
        return f
    if isreal:
        return np.arange(n_dft // 2 + 1) / n_dft / dt
    f = f.copy()
    # two-sided: indices above half belong to negative frequencies
    f[n_dft // 2 + 1:] -= 1 / dt
    return f


def spod(data, n_dft, overlap_pct, dt, mean='longtime', weights=None, fullspectrum=False,
         normalize_weights=False, normalize_data=False, conf=0.95):
    """data: (nt, *x, nv). Returns dict."""
    nt = data.shape[0]
    isreal = not np.iscomplexobj(data) or bool(np.all(np.isreal(data)))
    nov = n_overlap(n_dft, overlap_pct)
    nblk = (nt - nov) // (n_dft - nov)
    d = data.reshape(nt, -1)
    if weights is None:
        w = np.ones(data.shape[1:])
    else:
        w = np.array(weights, dtype=float).reshape(data.shape[1:])
    if normalize_weights:
        w = norm_weights(data, w)
    wf = w.reshape(-1)
    ltm = d.sum(0) / nt
    win = hamming(n_dft)
    full = fullspectrum or not isreal
    nf = n_dft if full else n_dft // 2 + 1
    Q = np.zeros((nf, d.shape[1], nblk), complex)
    for b in range(nblk):
        o = min(b * (n_dft - nov) + n_dft, nt) - n_dft
        x = d[o:o + n_dft].copy()
        if mean == 'longtime':
            x = x - ltm
        elif mean == 'blockwise':
            x = x - x.mean(0)
        if normalize_data:
            v = (np.abs(x - x.mean(0))**2).sum(0) / (n_dft - 1)
            v = np.where(v < 4 * np.finfo(float).eps, 1.0, v)
            x = x / v
        x = x * win[:, None]
        h = np.fft.fft(x, axis=0)[:nf] / win.mean() / n_dft
        Q[:, :, b] = h
    L = np.zeros((nf, nblk))
    Phi = np.zeros((nf, d.shape[1], nblk), complex)
    for f in range(nf):
        X = Q[f] * np.sqrt(wf)[:, None] / math.sqrt(nblk)
        u, s, vh = np.linalg.svd(X, full_matrices=False)
        k = len(s)
        L[f, :k] = s**2
        with np.errstate(all='ignore'):
            Phi[f, :, :k] = np.where(wf[:, None] > 1e-9, u / np.sqrt(wf)[:, None],
                                     Q[f] @ vh.conj().T / (s * math.sqrt(nblk)))
    Lraw = L.copy()
    if isreal and not fullspectrum:        # one side holds the energy of both, but for zero and Nyquist
        L = L.copy()
        L[1:(n_dft + 1) // 2] *= 2
    xi_u = 2 * sc.gammaincinv(nblk, 1 - conf)
    xi_l = 2 * sc.gammaincinv(nblk, conf)
    return dict(eigs=L, lraw=Lraw, phi=Phi.reshape((nf,) + data.shape[1:] + (nblk,)), n_blocks=nblk, n_freq=nf,
                n_overlap=nov, weights=w, ltm=ltm.reshape(data.shape[1:]), freq=freq_axis(n_dft, dt, isreal, fullspectrum),
                eigs_c_l=L * 2 * nblk / xi_l, eigs_c_u=L * 2 * nblk / xi_u, isreal=isreal, Q=Q)


def geo_weights(xshape, nv, R):
    """trapezoidal weights on the sphere; the poles take half the distance of their neighbours, the first meridian none"""
    n1, n2 = xshape[:2]
    lat = np.radians(np.linspace(-90, 90, n1))
    dlat = np.full(n1, lat[1] - lat[0])
    dlat[0] = dlat[-1] = dlat[1] / 2
    dlon = np.full(n2, 2 * np.pi / n2)
    dlon[0] = 0
    w = R**2 * np.cos(lat)[:, None] * dlat[:, None] * dlon[None, :]
    w = w.reshape((n1, n2) + (1,) * (len(xshape) - 1))
    return np.abs(w) * np.ones(tuple(xshape) + (nv,))


def stream_starts(nt, n_dft, dn):
    """first snapshot of every block, in the order the blocks close.

    The published streaming algorithm (and its original implementation, whose
    numbers the upstream tests pin to 1e-10) keeps ceil(n_dft/dn) partial sums;
    a sum that closes is rescheduled dn after the youngest one, counted before
    the later sums have taken the current snapshot, so that one snapshot is
    skipped per round of sums."""
    npar = -(-n_dft // dn)
    age = [-j * dn for j in range(npar)]
    out = []
    for t in range(nt):
        for j in range(npar):
            if age[j] == n_dft - 1:
                out.append(t - n_dft + 1)
                age[j] = min(age) - dn
            else:
                age[j] += 1
    return out


def streaming(data, n_dft, overlap_pct, dt, weights=None, fullspectrum=False, n_modes=None):
    """sequential streaming SPOD (rank-1 updates of a truncated basis)"""
    nt = data.shape[0]
    isreal = not np.iscomplexobj(data) or bool(np.all(np.isreal(data)))
    nov = n_overlap(n_dft, overlap_pct)
    dn = n_dft - nov
    nblk = (nt - nov) // dn
    d = data.reshape(nt, -1)
    w = np.ones(data.shape[1:]) if weights is None else np.array(weights, float).reshape(data.shape[1:])
    sw = np.sqrt(w.reshape(-1))
    m = nblk if n_modes is None else min(n_modes, nblk)
    full = fullspectrum or not isreal
    nf = n_dft if full else n_dft // 2 + 1
    F = np.fft.fft(np.eye(n_dft))[:, :nf].copy()
    if isreal and not fullspectrum:
        F[:, 1:(n_dft + 1) // 2] *= 2
    win = hamming(n_dft)
    gain = 1 / win.mean() / n_dft
    U = [np.zeros((d.shape[1], m), complex) for _ in range(nf)]
    S = [np.zeros(m) for _ in range(nf)]
    nb = 0
    for lo in stream_starts(nt, n_dft, dn):
        hi = lo + n_dft
        mu = d[:hi].sum(0) / hi
        X = ((d[lo:hi] - mu) * win[:, None])
        H = gain * (F.T @ X)                      # nf x npts
        nb += 1
        for f in range(nf):
            x = H[f] * sw
            Ux = U[f].conj().T @ x
            p = x - U[f] @ Ux
            p = p - U[f] @ (U[f].conj().T @ p)      # little may be left, and not orthogonal
            a = np.linalg.norm(p)
            if a <= 1e-12 * np.linalg.norm(Ux):
                p, a = np.zeros_like(p), 0.0
            K = np.zeros((m + 1, m + 1), complex)
            K[:m, :m] = np.sqrt(nb + 2) * np.diag(S[f])
            K[:m, m] = Ux
            K[m, m] = a
            K *= np.sqrt((nb + 1) / (nb + 2)**2)
            u, s, _ = np.linalg.svd(K)
            with np.errstate(all='ignore'):
                V = np.hstack([U[f], (p / a)[:, None] if a > 0 else p[:, None]]) @ u
            U[f] = V[:, :m]
            S[f] = s[:m]
    phi = np.stack(U) / sw[None, :, None]
    return dict(eigs=np.stack(S), phi=phi.reshape((nf,) + data.shape[1:] + (m,)), n_blocks=nblk, n_freq=nf,
                n_overlap=nov, weights=w, freq=freq_axis(n_dft, dt, isreal, fullspectrum), blocks_used=nb,
                mean=(d.sum(0) / nt).reshape(data.shape[1:]))


def pod(data, weights=None, mean='longtime', normalize_weights=False):
    nt = data.shape[0]
    d = data.reshape(nt, -1)
    w = np.ones(data.shape[1:]) if weights is None else np.array(weights, float).reshape(data.shape[1:])
    if normalize_weights:
        w = norm_weights(data, w)
    wf = w.reshape(-1)
    x = d - d.mean(0) if mean == 'longtime' else d
    X = (x * np.sqrt(wf)).T
    u, s, vh = np.linalg.svd(X, full_matrices=False)
    L = np.zeros(nt)
    L[:len(s)] = s**2
    phi = u / np.sqrt(wf)[:, None]
    return dict(eigs=L, phi=phi.reshape(data.shape[1:] + (u.shape[1],)), weights=w)


def oblique(phir, wf, data0, tol=1e-10):
    """phir (n,k) ; data0 (nt,n) mean free -> coeffs (k,nt)"""
    M = phir.conj().T @ (wf[:, None] * phir)
    q = phir.conj().T @ (wf[:, None] * data0.T)
    return np.linalg.pinv(M, tol) @ q, M


def blockdist(n, size):
    q, r = divmod(n, size)
    out = []
    s = 0
    for i in range(size):
        k = q + (1 if i < r else 0)
        out.append((s, k))
        s += k
    return out


def time_idx(sel, nt):
    if sel is None:
        return [0, nt % 2, nt - 1]
    if isinstance(sel, str):
        step = {'all': 1, 'half': 2, 'quarter': 4, 'tenth': 10, 'hundredth': 100}[sel.lower()]
        return list(range(0, nt, step))
    return list(sel)


def conv_coeffs(data, phi, wf, n_dft, freq_idx):
    """continuous-discrete expansion coefficients by windowed convolution.
    data (nt, n) ; phi (nfr, n, m) modes of the selected frequencies."""
    nt, n = data.shape
    win = hamming(n_dft)
    gain = 1 / win.mean()
    x = data - data.mean(0)
    half = int(np.ceil(n_dft / 2))
    z = np.zeros((half, n))
    xp = np.concatenate([z, x, z])
    fac = n_dft / gain
    out = np.zeros((len(freq_idx), nt, phi.shape[-1]), complex)
    for i in range(nt):
        H = np.fft.fft(xp[i:i + n_dft] * win[:, None], axis=0)[list(freq_idx)]
        if i < half - 2:
            corr = math.sqrt(fac / np.sum(win[half - i - 1:n_dft]))
        elif i >= nt - half:
            corr = math.sqrt(fac / np.sum(win[0:nt + half - i - 1]))
        else:
            corr = 1.0
        for f in range(len(freq_idx)):
            out[f, i] = corr * (phi[f].conj().T @ (wf * H[f]))
    return out


# ---------------------------------------------------------------------------
# comparisons
# ---------------------------------------------------------------------------
def close(a, b, rtol, what, scale=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return f'{what}: shape {a.shape} instead of {b.shape}'
    if a.size == 0:
        return None
    if not np.all(np.isfinite(a)):
        return f'{what}: not finite'
    s = np.max(np.abs(b)) if scale is None else scale
    e = np.max(np.abs(a - b))
    if e > rtol * max(s, 1e-300):
        i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
        return f'{what}: differs by {e:.3g} (scale {s:.3g}) at {tuple(int(k) for k in i)}: {a[i]} instead of {b[i]}'
    return None


def good_modes(L, k, single):
    """indices of well-conditioned, isolated eigenvalues among the first k"""
    gap, floor = (5e-2, 1e-2) if single else (1e-4, 1e-8)
    out = []
    if L[0] <= 0:
        return out
    for i in range(min(k, len(L))):
        if L[i] < floor * L[0]:
            break
        if i > 0 and L[i - 1] - L[i] < gap * L[i]:
            continue
        if i + 1 < len(L) and L[i] - L[i + 1] < gap * L[i]:
            continue
        out.append(i)
    return out


def modes_equal(phi, ref, L, w, single, what, probes=None, full=None):
    """phi, ref (..., m) ; L eigenvalues (full list); equality up to unit phase"""
    m = phi.shape[-1]
    if phi.shape[:-1] != ref.shape[:-1]:
        return f'{what}: mode shape {phi.shape} instead of {ref.shape}'
    g = good_modes(L, m, single)
    wf = np.asarray(w).reshape(-1)
    tol = 2e-2 if single else 1e-5
    for i in g:
        a = np.asarray(phi[..., i]).reshape(-1)
        b = np.asarray(ref[..., i]).reshape(-1)
        if not np.all(np.isfinite(a)):
            return f'{what} mode {i}: not finite'
        ph = np.sum(b.conj() * wf * a)
        if abs(abs(ph) - 1) > tol:
            return f'{what} mode {i}: overlap with reference {abs(ph):.6f} instead of 1'
        d = (a - b * (ph / abs(ph)))
        err = math.sqrt(abs(np.sum(wf * np.abs(d)**2)))
        if err > tol * 10:
            return f'{what} mode {i}: weighted distance {err:.3g} from reference'
        s = np.max(np.abs(b))
        if np.max(np.abs(d)) > tol * 20 * s:
            return f'{what} mode {i}: point error {np.max(np.abs(d)):.3g} (scale {s:.3g})'
        if probes is not None:
            probes['modes_compared'] = probes.get('modes_compared', 0) + 1
    return orthonormal(phi, L, w, single, what, full, probes)


def bounded(phi, w, what):
    """whatever its energy, no mode is larger than a unit one: round-off is not amplified"""
    a = np.asarray(phi).reshape(-1, phi.shape[-1])
    if not np.all(np.isfinite(a)):
        return f'{what}: mode {int(np.argwhere(~np.isfinite(a))[0][1])} not finite'
    n = np.sqrt(np.sum(np.asarray(w).reshape(-1)[:, None] * np.abs(a)**2, 0))
    if n.size and n.max() > 10:
        return f'{what}: mode {int(np.argmax(n))} has the norm {n.max():.3g}'
    return None


def orthonormal(phi, L, w, single, what, full=None, probes=None):
    """energetic modes are orthonormal, and modes of equal energy span what they must"""
    m = phi.shape[-1]
    gap, floor = (5e-2, 1e-2) if single else (1e-4, 1e-8)
    msg = bounded(phi, w, what)
    if msg or L[0] <= 0:
        return msg
    e = [i for i in range(min(m, len(L))) if L[i] >= floor * L[0]]
    a = np.asarray(phi).reshape(-1, m)[:, e]
    wf = np.asarray(w).reshape(-1)
    tol = 2e-2 if single else 1e-5
    g = np.abs((a.conj().T * wf) @ a - np.eye(len(e)))
    if g.size and g.max() > tol:
        i, j = np.unravel_index(np.argmax(g), g.shape)
        return f'{what}: modes {i} and {j} are not orthonormal (off by {g.max():.3g})'
    if full is None:
        return None
    # far weaker, but above round-off: not zero, and not blown up
    for i in range(min(m, len(L))):
        if (1e-3 if single else 1e-11) * L[0] <= L[i] < floor * L[0]:
            n = math.sqrt(np.sum(wf * np.abs(np.asarray(phi).reshape(-1, m)[:, i])**2))
            if abs(n - 1) > 0.1:
                return f'{what}: mode {i}, of {L[i] / L[0]:.2g} of the energy of the first, has the norm {n:.3g}'
            if probes is not None:
                probes['weak_modes'] = probes.get('weak_modes', 0) + 1
    b = np.asarray(full).reshape(-1, full.shape[-1])
    i = 0
    while i < len(e):
        j = i + 1
        while j < len(L) and L[j - 1] - L[j] < gap * L[j - 1]:
            j += 1
        if j - i > 1 and L[j - 1] >= floor * L[0] and j <= b.shape[1]:
            q = (b[:, i:j].conj().T * wf) @ a[:, i:min(j, len(e))]
            n = np.abs(np.sqrt(np.sum(np.abs(q)**2, 0)) - 1)
            if n.max() > 10 * tol:
                return f'{what}: mode {i + int(np.argmax(n))} is outside the space of the {j - i} modes of equal energy (by {n.max():.3g})'
            if probes is not None:
                probes['equal_energy_modes'] = probes.get('equal_energy_modes', 0) + min(j, len(e)) - i
        i = j
    return None
