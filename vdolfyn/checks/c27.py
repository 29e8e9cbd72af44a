"""C27: ADV cleaning."""
import numpy as np
import xarray as xr
from dolfyn.adv import clean
from .. import synth
from ..core import _copy

RULE = ('Random 1-D to 3-D records (float32/float64, spikes, NaN runs, offsets) and thresholds: each mask is compared sample by sample with a direct evaluation of its criterion, '
        'every filling method is checked for what it changed and against exact interpolants, and quiet records with isolated spikes anywhere (first and last samples, block edges) must have them found. '
        'Non-trivial: at least one flagged and one unflagged sample.')
FILES = ['dolfyn/adv/clean.py']


def da(x, rng=None, fs=None):
    x = np.asarray(x)
    n = x.shape[-1]
    c = {'time': synth.times(n, fs or 8.)}
    dims = ('time',)
    if x.ndim == 2:
        c['dir'] = ['X', 'Y', 'Z', 'W'][:x.shape[0]]
        dims = ('dir', 'time')
    elif x.ndim == 3:
        c['dir'] = ['X', 'Y', 'Z', 'W'][:x.shape[0]]
        c['range'] = np.arange(x.shape[1]) * 1.
        dims = ('dir', 'range', 'time')
    return xr.DataArray(x.copy(), dims=dims, coords=c, attrs={'units': 'm s-1'}, name='vel')


def ratio(u):
    """(n,) record -> how far outside the Goring & Nikora ellipsoid each point is (> 1: spike)."""
    u = np.asarray(u, float)
    n = len(u)
    u = u - u.mean()
    d = np.zeros(n)
    d[1:n - 1] = (u[2:] - u[:n - 2]) / 2
    e = np.zeros(n)
    e[2:n - 2] = (d[3:n - 1] - d[1:n - 3]) / 2
    L2 = 2 * np.log(n)
    al = np.arctan2((u * e).sum(), (u ** 2).sum())
    c2, s2 = np.cos(al) ** 2, np.sin(al) ** 2
    su, sd, se = u.var(), d.var(), e.var()
    a2 = L2 * (c2 * su - s2 * se) / (c2 * c2 - s2 * s2)
    b2 = L2 * (c2 * se - s2 * su) / (c2 * c2 - s2 * s2)
    with np.errstate(all='ignore'):
        return (u * np.cos(al) + e * np.sin(al)) ** 2 / a2 + (u * np.sin(al) - e * np.cos(al)) ** 2 / b2 + d ** 2 / (L2 * sd)


def gn_ratio(u, npt):
    n = len(u)
    r = np.zeros(n)
    for k in range(n // npt):
        r[k * npt:(k + 1) * npt] = ratio(u[k * npt:(k + 1) * npt])
    r[-npt:] = ratio(u[-npt:])
    return r


def runs(m):
    """[(start, stop)] of the True runs of a 1-D mask"""
    d = np.flatnonzero(np.diff(np.r_[0, m.astype(int), 0]))
    return list(zip(d[::2], d[1::2]))


def run(ctx):
    for rng in ctx.cases('limits', ctx.n(150, 2500)):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(v) for v in rng.integers(1, 5, nd - 1)) + (int(rng.integers(2, 60)),)
        x = (rng.normal(0, 3, shape) + rng.normal(0, 3)).astype(rng.choice(['f4', 'f8']))
        x[rng.random(shape) < .05] = np.nan
        x[rng.random(shape) < .05] *= 10
        th = float(10 ** rng.uniform(-.5, 1.2))
        lo, hi = sorted(float(np.float32(q)) for q in rng.normal(0, 5, 2))
        for q in (lo, hi, -5, 5):
            x[rng.random(shape) < .03] = q
        u = da(x)
        with ctx.observe('limits', dict(u=x, th=th, lo=lo, hi=hi)):
            m = ctx.call(clean.spike_thresh, u, thresh=th, pure=True)
            ctx.check(m.shape == x.shape and m.dtype == bool, 'spike_thresh:shape', 'mask %s %s' % (m.shape, m.dtype))
            j = np.abs(np.diff(x, axis=-1))
            ctx.eq(m[..., 1:], j > th, 'spike_thresh', 'samples more than %g from the previous one' % th)
            ctx.check(not (m[..., 0] & ~(np.abs(x[..., 0]) > th)).any(), 'spike_thresh:first', 'a first sample within the threshold is flagged')
            r = [lo, hi] if rng.random() < .5 else (lo, hi)
            m = ctx.call(clean.range_limit, u, range=r, pure=True)
            ctx.eq(m, ~((x > lo) & (x < hi)), 'range_limit', 'samples outside %s' % (r,))
            m = ctx.call(clean.range_limit, u)
            ctx.eq(m, ~((x > -5) & (x < 5)), 'range_limit:default', 'samples outside +-5')
            m = ctx.call(clean.spike_thresh, u)
            ctx.eq(m[..., 1:], j > 10, 'spike_thresh:default', 'samples more than 10 from the previous one')

    for rng in ctx.cases('gn', ctx.n(120, 2000)):
        nd = int(rng.choice([1, 1, 2, 3]))
        npt = int(rng.integers(12, 120))
        n = int(rng.integers(8, 5 * npt))
        shape = tuple(int(v) for v in rng.integers(1, 4, nd - 1)) + (n,)
        x = np.empty(shape)
        for i in np.ndindex(*shape[:-1]):
            x[i] = synth.signal(rng, n)
            for _ in range(int(rng.integers(0, 4))):
                x[i][int(rng.integers(n))] += rng.normal() * 20 * x[i].std()
        x = x.astype(rng.choice(['f4', 'f8', 'f8']))
        tol = 1e-3 if x.dtype == np.float32 else 1e-6
        u = da(x)
        nanblocks = nd == 1 and rng.random() < .4 and n > 3 * npt
        gaps = []
        if nanblocks:       # at least three gaps longer than npt/10, at least 8 good samples apart
            pos = int(rng.choice([0, 10]))
            while pos < n - 8:
                w = int(npt // 10 + rng.integers(1, 6))
                e = min(pos + w, n)
                gaps.append((pos, e))
                pos = e + int(rng.integers(8, npt * 2))
            if gaps and rng.random() < .5:      # nothing after the last gap
                w = int(npt // 10 + rng.integers(2, 30))
                while gaps and gaps[-1][1] > n - w - 8:
                    gaps.pop()
                gaps.append((n - w, n))
            if len(gaps) < 3:
                gaps = []
            for a, b in gaps:
                u.values[a:b] = np.nan
        x = u.values
        with ctx.observe('gn', dict(npt=npt, gaps=gaps, u=x)):
            arg = u if rng.random() < .7 else x
            m = ctx.call(clean.GN2002, arg, npt=npt, pure=True)
            ctx.check(m.shape == x.shape and m.dtype == bool, 'GN2002:shape', 'mask %s %s' % (m.shape, m.dtype))
            for i in np.ndindex(*shape[:-1]):
                if gaps:
                    r = np.zeros(n)
                    nan = np.isnan(x)
                    good = ~nan
                    for a, b in runs(good):
                        r[a:b] = gn_ratio(x[a:b], npt)
                else:
                    r = gn_ratio(x[i], npt)
                sure = ~(np.abs(r - 1) < tol * 30) & ~np.isnan(r)
                ctx.eq(m[i][sure], (r > 1)[sure], 'GN2002:criterion', 'points outside the ellipsoid (component %s)' % (i,))

    for rng in ctx.cases('find', ctx.n(80, 1000)):
        npt = int(rng.choice([50, 200, 1000, 5000]))
        n = int(rng.integers(max(60, npt // 4), 3 * npt))
        x = rng.normal(0, .05, n) + rng.normal()
        nsp = 1 + int(rng.integers(0, max(1, min(n, npt) // 60)))
        pos = rng.choice(np.arange(0, n - 6, 6), nsp, replace=False) + int(rng.integers(0, 6))
        if rng.random() < .3:
            pos[0] = rng.choice([0, n - 1])
            pos = np.array([pos[0]] + [p for p in pos[1:] if abs(p - pos[0]) > 5])
        x[pos] += rng.choice([-1, 1], len(pos)) * rng.uniform(4, 8, len(pos))
        with ctx.observe('find', dict(n=n, npt=npt, pos=pos, u=x)):
            m = ctx.call(clean.GN2002, da(x), npt=npt)
            ctx.check(m[pos].all(), 'GN2002:missed-spike', lambda: 'isolated spikes at %s of %d samples (npt=%d) were not flagged' % (pos[~m[pos]], n, npt))
            near = np.zeros(n, bool)
            for k in range(-2, 3):
                near[np.clip(pos + k, 0, n - 1)] = True
            ctx.check(not m[~near].any() or (m[~near].mean() < .1), 'GN2002:flags-quiet-samples', lambda: '%d quiet samples flagged' % m[~near].sum())
            m2 = ctx.call(clean.spike_thresh, da(x), thresh=2)
            p2 = pos[pos > 0]
            ctx.check(m2[p2].all(), 'spike_thresh:missed-spike', 'isolated spikes at %s not flagged' % p2[~m2[p2]])
    # a NaN inside a block (known finding)
    for rng in ctx.cases('find-nan', ctx.n(6, 40)):
        x = rng.normal(0, .05, 400)
        p = int(rng.integers(50, 350))
        x[p] += 6
        x[(p + int(rng.integers(10, 300))) % 400] = np.nan
        with ctx.observe('find-nan', dict(p=p, u=x)):
            m = ctx.call(clean.GN2002, da(x), npt=200)
            m |= ctx.call(clean.GN2002, da(x), npt=400)
            ctx.check(m[p], 'GN2002:nan-in-block', 'a spike of 120 standard deviations is missed when the same block has a NaN')

    for rng in ctx.cases('fill', ctx.n(150, 2500)):
        nd = int(rng.choice([1, 2, 2]))
        n = int(rng.integers(20, 200)) if rng.random() < .8 else int(rng.integers(200, 3000))
        if rng.random() < .04:      # more samples than two bytes count
            n, nd = int(rng.integers(66000, 72000)), 1
        shape = ((int(rng.integers(1, 5)),) if nd == 2 else ()) + (n,)
        method = str(rng.choice(['linear', 'cubic', 'pchip', 'nearest', 'slinear']))
        dt = str(rng.choice(['f4', 'f8', 'f8']))
        fs = float(rng.choice([1, 8, 32, .5]))
        poly = rng.random() < .5
        t = np.arange(n) / n
        if poly:
            deg = {'linear': 1, 'slinear': 1, 'cubic': 3, 'pchip': 1, 'nearest': 0}[method]
            x = sum(rng.normal(0, 1, shape[:-1] + (1,)) * t ** k for k in range(deg + 1))
        else:
            x = rng.normal(0, 1, shape)
        x = x.astype(dt)
        npt = int(rng.integers(4, 16) if method in ('cubic', 'pchip') else rng.integers(1, 16))
        maxgap = int(rng.integers(1, 8))
        one = nd == 2 and rng.random() < .4
        mask = np.zeros((n,) if one else shape, bool)
        for i in np.ndindex(*mask.shape[:-1]):
            for _ in range(int(rng.integers(0, 6))):
                s = n - int(rng.integers(1, min(n, 20000))) if rng.random() < .5 else int(rng.integers(0, n))
                mask[i][s:s + int(rng.integers(1, maxgap + 4))] = True
        full = np.broadcast_to(mask, shape).copy()
        prenan = rng.random() < .3
        if prenan:
            w = rng.random(shape) < .03
            x[w] = np.nan
            full |= w
        if any((~full[i]).sum() < 6 for i in np.ndindex(*shape[:-1])):
            continue
        u = da(x, fs=fs)
        gapok = all((~full[i][max(a - npt, 0):a]).sum() + (~full[i][b:b + npt]).sum() >= 5 for i in np.ndindex(*shape[:-1]) for a, b in runs(full[i]))
        if method in ('cubic', 'pchip') and not gapok:
            continue
        with ctx.observe('fill', dict(method=method, poly=poly, npt=npt, maxgap=maxgap, mask=mask, u=x), nontrivial=bool(mask.any())):
            m0 = mask.copy()
            out = ctx.call(clean.clean_fill, u, mask, npt=npt, method=method, maxgap=maxgap)
            ctx.eq(mask, m0, 'clean_fill:mask-changed')
            v = out.values
            ctx.check(v.dtype == x.dtype and out.dims == u.dims, 'clean_fill:type', '%s %s' % (v.dtype, out.dims))
            ctx.eq(out['time'].values, synth.times(n, fs), 'clean_fill:time')
            for i in np.ndindex(*shape[:-1]):
                f = full[i]
                ctx.eq(v[i][~f], x[i][~f], 'clean_fill:changed-unflagged', 'unflagged samples')
                good = np.flatnonzero(~f)
                for a, b in runs(f):
                    g = v[i][a:b]
                    k = int(np.isfinite(g).sum())
                    edge = a < good[0] or b > good[-1]
                    ctx.check(k <= maxgap, 'clean_fill:beyond-maxgap', '%d samples of a gap of %d filled, maxgap=%d' % (k, b - a, maxgap))
                    if edge:
                        continue
                    if b - a <= maxgap:
                        ctx.check(k == b - a, 'clean_fill:not-filled', 'gap of %d with maxgap=%d: %d filled' % (b - a, maxgap, k), gap=[a, b])
                    if k == 0:
                        continue
                    l, r = float(x[i][a - 1]), float(x[i][b])
                    w = np.arange(1, b - a + 1) / (b - a + 1)
                    fin = np.isfinite(g)
                    if poly and not (method == 'cubic' and prenan):
                        deg_x = x[i].astype(float)
                        ref = np.interp(np.arange(a, b), np.flatnonzero(~f), deg_x[~f]) if method != 'cubic' else np.polyval(np.polyfit(np.flatnonzero(~f) - a, deg_x[~f], 3), np.arange(a, b) - a)
                        ctx.close(g[fin], ref[fin], 'clean_fill:value:' + method, 'gap [%d, %d) of an exact polynomial' % (a, b), rtol=0,
                                  atol=2e-4 * (1 + np.nanmax(np.abs(x[i]))))
                    elif method in ('linear', 'slinear'):
                        ctx.close(g[fin], (l + (r - l) * w)[fin], 'clean_fill:value:' + method, 'gap [%d, %d)' % (a, b), rtol=0, atol=1e-4 * (1 + abs(l) + abs(r)))
                    elif method == 'pchip':
                        lo, hi = min(l, r), max(l, r)
                        ctx.check(((g[fin] >= lo - 1e-5) & (g[fin] <= hi + 1e-5)).all(), 'clean_fill:value:pchip', 'leaves the interval of its neighbours')
                    elif method == 'nearest':
                        ctx.check(np.isin(g[fin], np.array([l, r], x.dtype)).all(), 'clean_fill:value:nearest', 'neither neighbour')

    for rng in ctx.cases('ensmean', ctx.n(150, 2500)):
        nd = int(rng.choice([1, 2]))
        fs = int(rng.integers(1, 9)) if rng.random() < .5 else float(rng.choice([1, 2., 8, .5, 32]))
        window = int(rng.integers(2, 20)) if fs != .5 else 2 * int(rng.integers(1, 10))
        if rng.random() < .1:      # products that fall just short of, or above, an integer
            fs, window = [(.29, 100), (1.1, 10), (2.3, 100), (.57, 100)][int(rng.integers(4))]
        nb = int(round(fs * window))
        n = nb * int(rng.integers(1, 5)) + (int(rng.integers(0, nb)) if rng.random() < .7 else 0)
        shape = ((int(rng.integers(1, 5)),) if nd == 2 else ()) + (n,)
        x = (rng.normal(0, 1, shape) + rng.normal()).astype(rng.choice(['f4', 'f8']))
        mask = rng.random(shape) < rng.choice([.05, .3])
        s = int(rng.integers(0, n))
        mask[..., s:s + int(rng.integers(1, 2 * nb))] = True
        w = rng.random(shape) < .02
        x[w] = np.nan
        u = da(x, fs=fs)
        with ctx.observe('ensmean', dict(fs=fs, window=window, n=n, mask=mask, u=x), nontrivial=bool(mask.any() and not mask.all())):
            out = ctx.call(clean.fill_nan_ensemble_mean, u, mask, fs, window, pure=True)
            ctx.check(out.dims == u.dims and out.shape == u.shape, 'ensemble_mean:shape', '%s' % (out.shape,))
            bad = mask | np.isnan(x)
            v = out.values
            ctx.eq(v[~bad], x[~bad].astype(v.dtype), 'ensemble_mean:changed-unflagged', 'unflagged samples')
            exp = np.full(shape, np.nan)
            for i in np.ndindex(*shape[:-1]):
                for a in range(0, n, nb):
                    g = ~bad[i][a:a + nb]
                    if g.any():
                        exp[i][a:a + nb] = x[i][a:a + nb][g].astype(float).mean()
            ctx.close(v[bad], exp[bad], 'ensemble_mean:value', 'filled with the mean of the ensemble', rtol=1e-5, atol=1e-5)
            ctx.eq(out['time'].values, u['time'].values, 'ensemble_mean:time')
