"""C29: the array tools."""
import numpy as np
from scipy.signal import medfilt
from dolfyn.tools import misc
from .. import synth, binmodel as bm

RULE = ('Arrays of 1-4 dimensions along any axis with random NaN runs (leading, trailing, all-NaN), any gap limit; every 1-D slice judged against a direct evaluation of the contract. Non-trivial: contains a gap, a run or a trend.')
FILES = ['dolfyn/tools/misc.py']


def gappy(rng, shape, axis, dt='f8'):
    x = rng.normal(0, 1, shape) * 10 ** rng.uniform(-2, 2) + rng.normal()
    x = np.moveaxis(x.copy(), axis, -1)
    for i in np.ndindex(*x.shape[:-1]):
        n = x.shape[-1]
        m = rng.random()
        if m < .08:
            x[i] = np.nan
            continue
        for _ in range(int(rng.integers(0, 5))):
            s = int(rng.integers(0, n))
            x[i][s:s + int(rng.integers(1, 7))] = np.nan
        if m < .25:
            x[i][:int(rng.integers(1, n))] = np.nan
        elif m < .4:
            x[i][int(rng.integers(1, n)):] = np.nan
    return np.ascontiguousarray(np.moveaxis(x, -1, axis)).astype(dt)


def fill_ref(y, t, maxgap, extrap):
    y = np.array(y, float)
    g = [i for i in range(len(y)) if not np.isnan(y[i])]
    o = y.copy()
    if not g:
        return o
    if extrap:
        if g[0] <= maxgap:
            o[:g[0]] = y[g[0]]
        if len(y) - 1 - g[-1] <= maxgap:
            o[g[-1] + 1:] = y[g[-1]]
    for a, b in zip(g[:-1], g[1:]):
        if b - a > 1 and b - a - 1 <= maxgap:
            for j in range(a + 1, b):
                o[j] = y[a] + (y[b] - y[a]) * (t[j] - t[a]) / (t[b] - t[a])
    return o


def run(ctx):
    def shp(rng):
        nd = int(rng.integers(1, 5))
        s = [int(v) for v in rng.integers(1, 5, nd)]
        ax = int(rng.integers(-nd, nd))
        s[ax] = int(rng.integers(2, 40))
        return tuple(s), ax

    for rng in ctx.cases('fill', ctx.n(300, 5000)):
        shape, ax = shp(rng)
        dt = str(rng.choice(['f4', 'f8']))
        a = gappy(rng, shape, ax, dt)
        maxgap = np.inf if rng.random() < .3 else int(rng.integers(0, 9))
        ext = bool(rng.integers(2))
        n = shape[ax]
        t = np.sort(rng.uniform(0, 50, n)) + np.arange(n) * .01
        nonuni = bool(rng.integers(2))
        kw = {}
        if maxgap != np.inf:
            kw['maxgap'] = maxgap
        if ext:
            kw['extrapFlg'] = True
        if ax != 0 or rng.random() < .5:
            kw['dim'] = ax
        if len(shape) == 1 and rng.random() < .5:
            kw.pop('dim', None)
        elif ax != 0:
            kw['dim'] = ax
        with ctx.observe('fill', dict(shape=shape, axis=ax, maxgap=maxgap, extrap=ext, nonuniform=nonuni, a=a), nontrivial=bool(np.isnan(a).any())):
            b = a.copy()
            tt = t.copy()
            r = ctx.call(misc.interpgaps, b, tt, **kw) if nonuni else ctx.call(misc.fillgaps, b, **kw)
            if len(shape) == 1:
                ctx.check(r is not None, 'fill-returns', 'a 1-D fill returns the array')
                ctx.eq(r, b, 'fill-inplace', 'returned array and the array filled in place')
            ctx.eq(tt, t, 'fill-time-changed', 'time argument')
            tx = t if nonuni else np.arange(n, dtype=float)
            want = bm.along(lambda y: fill_ref(y, tx, maxgap, ext), a.astype(float), ax)
            g = ~np.isnan(a)
            ctx.eq(b[g], a[g], 'fill-valid-changed', 'valid samples')
            ctx.check((np.isnan(b) == np.isnan(want)).all(), 'fill-which', lambda: 'filled the wrong samples: %d NaNs left, expected %d' % (np.isnan(b).sum(), np.isnan(want).sum()))
            sc = np.nanmax(np.abs(a)) if g.any() else 1
            ctx.close(b, want, 'fill-values', 'interpolated values', rtol=1e-9 if dt == 'f8' else 1e-5, atol=sc * (1e-9 if dt == 'f8' else 2e-6))
            ctx.check(b.dtype == a.dtype, 'fill-dtype', '%s' % b.dtype)
    for rng in ctx.cases('detrend', ctx.n(200, 3000)):
        shape, ax = shp(rng)
        dt = str(rng.choice(['f4', 'f8']))
        s = [1] * len(shape)
        s[ax] = shape[ax]
        a = gappy(rng, shape, ax, 'f8') if rng.random() < .5 else rng.normal(size=shape)
        a = a + np.arange(shape[ax]).reshape(s) * rng.normal() + rng.normal(0, 10)
        # a line needs two points
        few = np.sum(~np.isnan(a), ax, keepdims=True) < 2
        a = np.where(few, np.nan, a).astype(dt)
        with ctx.observe('detrend', dict(shape=shape, axis=ax, a=a)):
            kw = {} if ax == -1 and rng.random() < .5 else dict(axis=ax)
            r = ctx.call(misc.detrend, a, pure=True, **kw)
            want = bm.along(bm.line_resid, a.astype(float), ax)
            sc = np.nanmax(np.abs(a)) if not np.isnan(a).all() else 1
            tol = sc * (1e-9 if dt == 'f8' else 5e-6)
            ctx.close(r, want, 'detrend', 'detrended data', rtol=1e-6, atol=tol)
            ctx.close(ctx.call(misc.detrend, r, pure=True, **kw), want, 'detrend-idempotent', 'detrending twice', rtol=1e-6, atol=2 * tol)
            b = a.copy()
            ctx.call(misc.detrend, b, in_place=True, **kw)
            ctx.close(b, want, 'detrend-inplace', 'in-place detrended data', rtol=1e-6, atol=tol)
    for rng in ctx.cases('group', ctx.n(250, 4000)):
        n = int(rng.integers(1, 40))
        p = float(rng.choice([0, .1, .5, .5, .8, .95, 1]))
        b = rng.random(n) < p
        ml = int(rng.integers(0, 6))
        if rng.random() < .2:
            b = b.astype(str(rng.choice(['i8', 'f8'])))
        with ctx.observe('group', dict(b=b.astype(int), min_length=ml), nontrivial=bool(b.any())):
            r = ctx.call(misc.group, b, pure=True, **({} if ml == 0 and rng.random() < .5 else dict(min_length=ml)))
            want, i = [], 0
            while i < n:
                if b[i]:
                    j = i
                    while j < n and b[j]:
                        j += 1
                    if j - i >= ml:
                        want.append((i, j))
                    i = j
                else:
                    i += 1
            got = [(int(s.start), int(s.stop)) for s in r]
            ctx.check(got == want, 'group', lambda: 'runs %s, expected %s' % (got, want))
    for rng in ctx.cases('slices', ctx.n(120, 1500)):
        nd = int(rng.integers(2, 6))
        shape = tuple(int(v) for v in rng.integers(1, 5, nd))
        ax = int(rng.integers(-nd, nd))
        with ctx.observe('slices', dict(shape=shape, axis=ax)):
            cnt = np.zeros(shape, int)
            seen = []
            for s in misc.slice1d_along_axis(shape, ax):
                v = cnt[s]
                ctx.check(v.ndim == 1 and len(v) == shape[ax], 'slice-shape', 'slice of shape %s' % (v.shape,))
                cnt[s] += 1
                seen.append(tuple(q for q in s if not isinstance(q, slice)))
                if len(seen) > cnt.size + 2:
                    break
            ctx.check((cnt == 1).all(), 'slice-cover', 'slices do not cover every element exactly once (min %d max %d)' % (cnt.min(), cnt.max()))
            ctx.check(seen == sorted(seen), 'slice-order', 'slices are not in row order')
    for rng in ctx.cases('medfilt', ctx.n(150, 2000)):
        k = [int(2 * rng.integers(0, 3) + 1), int(2 * rng.integers(0, 5) + 1)]
        oned = rng.random() < .5
        n = int(rng.integers(max(k), 40))
        m = 1 if oned else int(rng.integers(k[0], 9))
        if oned:
            k[0] = 1
        a = rng.normal(0, 1, (m, n))
        isn = np.zeros(a.shape, bool)
        if rng.random() < .7:
            isn = rng.random(a.shape) < .1
            s = int(rng.integers(0, n))
            isn[:, s:s + int(rng.integers(1, 12))] = True
            a[isn] = np.nan
        thresh = float(np.round(rng.uniform(.01, .99), 4)) if rng.random() < .8 else 0
        with ctx.observe('medfilt', dict(kernel=k, thresh=thresh, oned=oned, a=a)):
            arg = a[0] if oned else a
            r = ctx.call(misc.medfiltnan, arg, k[1] if oned and rng.random() < .5 else list(k), pure=True, **(dict(thresh=thresh) if thresh else {}))
            ctx.check(r.shape == arg.shape, 'medfilt-shape', '%s' % (r.shape,))
            r = r.reshape(a.shape)
            pad = ((k[0] // 2,) * 2, (k[1] // 2,) * 2)
            P, N = np.pad(np.nan_to_num(a), pad), np.pad(isn, pad)
            for i in range(m):
                for j in range(n):
                    w, c = P[i:i + k[0], j:j + k[1]], N[i:i + k[0], j:j + k[1]]
                    frac = c.mean()
                    if thresh and abs(frac - thresh) < 1e-9:
                        continue
                    if thresh and frac > thresh:
                        ctx.check(np.isnan(r[i, j]), 'medfilt-nan', 'window with %g NaN above the threshold %g gives %r' % (frac, thresh, r[i, j]))
                    elif frac == 0:
                        ctx.close(r[i, j], np.median(w), 'medfilt-median', 'median of a window without NaN', rtol=1e-12)
