"""Naive reference model of binning (used by the analysis checks)."""
import numpy as np


def bins(x, nb, pad=0):
    """(..., nbins, nb+pad): consecutive bins along the last axis, with pad//2 samples
    of the previous and (pad+1)//2 of the next complete bin, zeros where there is none."""
    nb, pad = int(nb), int(pad)
    x = np.asarray(x)
    k = x.shape[-1] // nb
    p0 = pad // 2
    out = np.zeros(x.shape[:-1] + (k, nb + pad), x.dtype)
    for i in range(k):
        for j in range(nb + pad):
            t = i * nb + j - p0
            # only samples of the neighbouring *bin* are available
            if 0 <= t < k * nb:
                out[..., i, j] = x[..., t]
    return out


def bmean(x, nb):
    x = np.asarray(x)
    if x.dtype.kind == 'M':
        # microsecond exact in integer arithmetic
        t = bins(x.astype('datetime64[ns]').astype('int64'), nb)
        base = t[..., :1]
        return (base[..., 0] + np.round((t - base).mean(-1)).astype('int64')).astype('datetime64[ns]')
    return np.nanmean(bins(x, nb).astype(float), -1)


def bvar(x, nb):
    return np.nanvar(bins(x, nb).astype(float), -1)


def line_resid(y):
    """Residual of the least-squares line through the valid points of a 1-D array."""
    y = np.asarray(y, float)
    g = np.isfinite(y)
    out = np.full(y.shape, np.nan)
    if g.sum() == 0:
        return out
    t = np.arange(len(y), dtype=float)
    t -= t[g].mean()
    A = np.stack([np.ones(len(y)), t], 1)
    c = np.linalg.lstsq(A[g], y[g], rcond=None)[0]
    out[g] = (y - A @ c)[g]
    return out


def along(fn, x, axis=-1):
    return np.apply_along_axis(fn, axis, np.asarray(x))


def bdetrend(x, nb, pad=0):
    return along(line_resid, bins(x, nb, pad).astype(float))


def bdemean(x, nb, pad=0):
    b = bins(x, nb, pad).astype(float)
    return b - np.nanmean(b, -1, keepdims=True)


# ------------------------------------------------------------------ spectra
def window(w, n):
    if w is None or (isinstance(w, (int, float)) and w == 1):
        return np.ones(n)
    if isinstance(w, str) and w.startswith('hann'):
        return .5 - .5 * np.cos(2 * np.pi * np.arange(n) / (n - 1))
    if isinstance(w, str) and w.startswith('hamm'):
        return .54 - .46 * np.cos(2 * np.pi * np.arange(n) / (n - 1))
    return np.asarray(w, float)


def starts(l, nfft, step=None):
    """Segment starts of the documented rule: maximal data use, at least 50% overlap,
    fewest ensembles; or the step given."""
    if l <= nfft:
        return [0]
    if step is None:
        n = int(2. * l / nfft)
        step = int((l - nfft) / (n - 1))
    return list(range(0, l - nfft + 1, int(step)))


def segs(x, nfft, w, st):
    t = np.arange(nfft) - (nfft - 1) / 2.
    out = []
    for s in st:
        y = np.asarray(x[s:s + nfft], float)
        y = y - y.mean()
        y = y - t * (t @ y) / (t @ t)
        out.append(y * w)
    return np.array(out)


def dft(s):
    n = s.shape[-1]
    k = np.arange(1, n // 2 + 1)
    E = np.exp(-2j * np.pi * np.outer(np.arange(n), k) / n)
    return s @ E


def cpsd(a, b, nfft, fs, w='hann', step=None):
    l = len(a)
    nfft = int(min(nfft, l))
    w = window(w, nfft)
    st = starts(l, nfft, step)
    A, B = dft(segs(a, nfft, w, st)), dft(segs(b, nfft, w, st))
    return (A * B.conj()).mean(0) * 2 / (w ** 2).sum() / fs


def phase(a, b, nfft, w='hann', step=None):
    if len(a) > len(b):
        return phase(b, a, nfft, w).conj()
    if len(a) < len(b):
        nfft = int(min(nfft, len(a)))
        w = window(w, nfft)
        sa, sb = quasi_starts(len(a), len(b), nfft)
        A, B = dft(segs(a, nfft, w, sa)), dft(segs(b, nfft, w, sb))
        return (B / np.abs(B) / (A / np.abs(A))).mean(0)
    l = len(a)
    nfft = int(min(nfft, l))
    w = window(w, nfft)
    st = starts(l, nfft, step)
    A, B = dft(segs(a, nfft, w, st)), dft(segs(b, nfft, w, st))
    return (B / np.abs(B) / (A / np.abs(A))).mean(0)


def freqs(nfft, fs, units='Hz'):
    f = np.arange(1, nfft // 2 + 1) * float(fs) / nfft
    return f * 2 * np.pi if 'rad' in units else f


def quasi_starts(la, lb, nfft):
    """Segment starts of two records of different length (shorter first)."""
    nfft = min(nfft, la, lb)
    if la <= nfft:
        return [0], [0]
    n = int(2. * la / nfft)
    s = [int((l - nfft) / (n - 1)) for l in (la, lb)]
    a, b = (list(range(0, l - nfft + 1, q)) for l, q in zip((la, lb), s))
    k = min(len(a), len(b))
    return a[:k], b[:k]


def xspec(a, b, nfft, fs, w='hann'):
    """Cross spectrum of records of equal or different length."""
    if len(a) == len(b):
        return cpsd(a, b, nfft, fs, w)
    if len(a) > len(b):
        return xspec(b, a, nfft, fs, w).conj()
    nfft = int(min(nfft, len(a)))
    w = window(w, nfft)
    sa, sb = quasi_starts(len(a), len(b), nfft)
    A, B = dft(segs(a, nfft, w, sa)), dft(segs(b, nfft, w, sb))
    return (A * B.conj()).mean(0) * 2 / (w ** 2).sum() / fs


def coherence(a, b, nfft, w='hann', debias=True, noise=(0, 0)):
    if np.ndim(noise) == 0:
        noise = (noise, noise)
    if len(a) > len(b):
        a, b, noise = b, a, noise[::-1]
    nfft = int(min(nfft, len(a)))
    n = int(2. * len(a) / nfft)
    sp = [None if len(x) == nfft else int((len(x) - nfft) / (n - 1)) for x in (a, b)]
    P = [cpsd(x, x, nfft, 1, w, s).real - 2 * q ** 2 for x, s, q in zip((a, b), sp, noise)]
    c = np.abs(xspec(a, b, nfft, 1, w)) ** 2 / P[0] / P[1]
    return c * (1 + 1. / n) - 1. / n if debias else c
