"""C19: binning and ensemble averaging."""
import numpy as np
import xarray as xr
from dolfyn.binned import TimeBinner
from dolfyn import VelBinner
from dolfyn.adp.api import ADPBinner
from dolfyn.adv.api import ADVBinner
from .. import synth, binmodel as bm

RULE = ('Random arrays (1-4 dimensions, float32/64/int/bool/datetime, NaN patterns, any record length, n_bin given to the binner and overridden per call, overlap padding) through reshape/mean/var/std/detrend/demean, '
        'and random instrument datasets through do_avg/do_var, judged sample by sample against a naive reference. Non-trivial: at least one complete bin and a remainder or more than one bin.')
FILES = ['dolfyn/binned.py', 'dolfyn/velocity.py']


def scale(x):
    x = np.abs(np.asarray(x, float))
    return np.nanmax(x) if np.isfinite(x).any() else 1.


def arr(rng, n, nd):
    lead = tuple(int(k) for k in rng.integers(1, 4, nd - 1))
    kind = str(rng.choice(['f4', 'f8', 'f8', 'i4', 'u1', 'bool', 'unique']))
    if kind == 'unique':
        x = np.arange(np.prod(lead + (n,)), dtype=float).reshape(lead + (n,))
    elif kind == 'bool':
        x = rng.random(lead + (n,)) < .4
    elif kind[0] in 'iu':
        x = rng.integers(0, 200, lead + (n,)).astype(kind)
    else:
        x = np.empty(lead + (n,))
        for i in np.ndindex(*lead):
            x[i] = synth.signal(rng, n)
        x = x.astype(kind)
        m = rng.random()
        if m < .3:
            x[rng.random(x.shape) < .2] = np.nan
        elif m < .4:
            x[..., :int(rng.integers(1, n))] = np.nan
    return kind, x


def run(ctx):
    ad = lambda a, b: np.abs((a - b).astype('int64')).max() if a.size else 0
    for rng in ctx.cases('prim', ctx.n(260, 5000)):
        n = int(rng.integers(4, 220))
        nd = int(rng.integers(1, 5))
        kind, x = arr(rng, n, nd)
        nb = int(rng.integers(1, n + 1))
        own = nb if rng.random() < .5 else int(rng.integers(1, 400))
        if rng.random() < .3:
            nb = float(nb)
        fs = float(rng.choice([1, 2, 16, 32, .5]))
        pad = int(rng.integers(0, min(nb, 12) + 1))
        cls = [TimeBinner, VelBinner, ADVBinner, ADPBinner][int(rng.integers(4))]
        if own == nb:
            b, kw = cls(nb, fs), {}
        else:
            b, kw = cls(own, fs), dict(n_bin=nb)
        sc = scale(x)
        with ctx.observe('prim', dict(shape=x.shape, kind=kind, nb=nb, own=own, pad=pad, x=x, cls=cls.__name__),
                         nontrivial=n != nb):
            r = ctx.call(b.reshape, x, pure=True, **kw)
            ctx.eq(r, bm.bins(x, nb), 'reshape', 'reshape')
            ctx.check(r.dtype == x.dtype, 'reshape-dtype', 'dtype %s -> %s' % (x.dtype, r.dtype))
            r = ctx.call(b.reshape, x, n_pad=pad, pure=True, **kw)
            ctx.eq(r, bm.bins(x, nb, pad), 'reshape-pad', 'reshape with n_pad=%d' % pad)
            r = ctx.call(b.mean, x, pure=True, **kw)
            ctx.close(r, bm.bmean(x, nb), 'mean', 'bin mean', rtol=1e-5, atol=1e-5 * sc if kind == 'f4' else 1e-12 * sc)
            v = bm.bvar(x, nb)
            r = ctx.call(b.var, x, pure=True, **kw)
            ctx.close(r, v, 'var', 'bin variance', rtol=2e-3, atol=3e-6 * sc * sc)
            r = ctx.call(b.std, x, pure=True, **kw)
            ctx.close(r, np.sqrt(v), 'std', 'bin standard deviation', rtol=2e-3, atol=3e-3 * sc)
            if nd > 1:
                ax = int(rng.integers(0, nd))
                y = np.moveaxis(x, -1, ax) if False else np.swapaxes(x, -1, ax)
                r = ctx.call(b.mean, y, axis=ax, pure=True, **kw)
                ctx.close(r, bm.bmean(x, nb), 'mean-axis', 'bin mean along axis %d' % ax, rtol=1e-5,
                          atol=1e-5 * sc if kind == 'f4' else 1e-12 * sc)
            if kind in ('f4', 'f8', 'unique'):
                tol = 1e-4 if kind == 'f4' else 1e-9
                r = ctx.call(b.demean, x, pure=True, **kw)
                ctx.close(r, bm.bdemean(x, nb), 'demean', 'demean', rtol=0, atol=tol * sc)
                r = ctx.call(b.demean, x, n_pad=pad, pure=True, **kw)
                ctx.close(r, bm.bdemean(x, nb, pad), 'demean-pad', 'demean n_pad', rtol=0, atol=tol * sc)
                if nb >= 3 and pad == 0 or (nb >= 4 and not np.isnan(x).any()):
                    w = bm.bdetrend(x, nb, pad)
                    ok = (np.isfinite(bm.bins(x, nb, pad)).sum(-1) != 1)[..., None] | np.isnan(w)
                    r = ctx.call(b.detrend, x, n_pad=pad, pure=True, **kw)
                    ctx.close(np.where(ok, r, 0), np.where(ok, w, 0), 'detrend', 'detrend', rtol=0, atol=tol * sc * 3)
    for rng in ctx.cases('time', ctx.n(40, 600)):
        n = int(rng.integers(4, 200))
        nb = int(rng.integers(1, n + 1))
        fs = float(rng.choice([1, 2, 16, 32, 7, .1]))
        t = synth.times(n, fs, str(rng.choice(['2017-08-04T12:00:00', '1969-12-31T23:59:50', '2000-02-29T00:00:01'])))
        if rng.random() < .4:
            t = t + np.cumsum((rng.random(n) < .05) * 10 ** 9 * 3600).astype('timedelta64[ns]')
        with ctx.observe('time', dict(n=n, nb=nb, fs=fs, t0=str(t[0])), nontrivial=n != nb):
            b, kw = (TimeBinner(nb, fs), {}) if rng.random() < .5 else (TimeBinner(int(rng.integers(1, 300)), fs), dict(n_bin=nb))
            r = ctx.call(b.mean, t, pure=True, **kw)
            w = bm.bmean(t, nb)
            ctx.check(r.shape == w.shape and ad(r.astype('datetime64[ns]'), w) < 5000, 'time-mean',
                      lambda: 'bin times %s, expected %s' % (r[:3], w[:3]))
    for rng in ctx.cases('nonint', ctx.n(60, 900)):
        # a bin length that is not a whole number: no sample used twice, at most one skipped at a time, no drift
        ib = int(rng.integers(2, 60))
        nb = ib + float(rng.choice([.1, .2, .25, .5, .75, .9, .99, 1e-3]))
        n = int(rng.integers(ib + 1, 1500))
        b = [TimeBinner, VelBinner, ADPBinner][int(rng.integers(3))](nb if rng.random() < .7 else 7, 1.)
        kw = {} if b.n_bin == nb else dict(n_bin=nb)
        x = rng.normal(size=(2, n))
        x[rng.random(x.shape) < .1] = np.nan
        with ctx.observe('nonint', dict(nb=nb, n=n, own=b.n_bin, x=x), nontrivial=n > 2 * nb):
            i = ctx.call(b.reshape, np.arange(n), pure=True, **kw)
            ctx.check(i.shape == (int(n // nb), ib), 'nonint-shape', lambda: '%d samples in bins of %g: shape %s' % (n, nb, i.shape))
            d = np.diff(i.ravel())
            ctx.check(((d == 1) | (d == 2)).all() and i[0, 0] == 0, 'nonint-order', lambda: 'samples used: %s' % i.ravel()[:40])
            ctx.check((np.abs(i[:, 0] - np.arange(len(i)) * nb) <= 1 + 1e-9).all(), 'nonint-drift', lambda: 'bins of %g start at %s' % (nb, i[:, 0]))
            y = x[:, i]
            ctx.eq(ctx.call(b.reshape, x, pure=True, **kw), y, 'nonint-reshape', 'reshape')
            m = np.isfinite(y).sum(-1) > 0
            ctx.close(np.where(m, ctx.call(b.mean, x, pure=True, **kw), 0), np.where(m, np.nanmean(y, -1), 0), 'nonint-mean', 'mean', rtol=1e-9, atol=1e-12)
            ctx.close(np.where(m, ctx.call(b.std, x, pure=True, **kw), 0), np.where(m, np.nanstd(y, -1), 0), 'nonint-std', 'std', rtol=1e-3, atol=1e-3)
            ctx.close(ctx.call(b.demean, x, pure=True, **kw), y - np.nanmean(y, -1)[..., None], 'nonint-demean', 'demean', rtol=0, atol=1e-9)
            t = synth.times(n, 1.)
            r = ctx.call(b.mean, t, pure=True, **kw)
            w = bm.bmean(t[i].ravel(), ib)
            ctx.check(r.shape == w.shape and ad(r.astype('datetime64[ns]'), w) < 5000, 'nonint-time', lambda: 'bin times %s, expected %s' % (r[:3], w[:3]))
    for rng in ctx.cases('short', ctx.n(10, 60)):
        n = int(rng.integers(1, 30))
        x = rng.normal(size=(2, n))
        with ctx.observe('short', dict(n=n)):
            ctx.expect_raises('short-accepted', Exception, TimeBinner(n + 1 + int(rng.integers(5)), 1.).mean, x)
    for rng in ctx.cases('ds', ctx.n(48, 700)):
        kind = synth.KINDS[int(rng.integers(len(synth.KINDS)))]
        nt = int(rng.integers(8, 90))
        ds = synth.make(rng, kind, nt=nt, nr=int(rng.integers(2, 5)), coord_sys=str(rng.choice(['inst', 'earth'])),
                        nan_frac=float(rng.choice([0, .2])))
        if rng.random() < .5:
            ds['ensemble'] = ('time', np.arange(nt))
        if rng.random() < .5 and 'range' in ds.dims:
            ds['alt_sig'] = (('n_altraw', 'time'), rng.normal(size=(3, nt)))
            ds = ds.rename({'n_altraw': 'n_altraw'}).assign_coords(n_altraw=[0, 1, 2])
        if rng.random() < .5 and 'range' in ds.dims:
            t5 = ds.time.values + np.timedelta64(125, 'ms')
            ds = ds.assign_coords(time_b5=t5, range_b5=ds['range'].values + .1)
            ds['vel_b5'] = (('range_b5', 'time_b5'), rng.normal(size=(ds.sizes['range'], nt)).astype('f4'))
        nb = int(rng.integers(2, nt // 2 + 1))
        var = bool(rng.integers(2))
        names = None
        if rng.random() < .3:
            names = [str(v) for v in rng.permutation(list(ds.data_vars))[:4]]
        cls = ADVBinner if kind.startswith('vector') else ADPBinner if rng.random() < .5 else VelBinner
        b = cls(nb, ds.fs, n_fft=int(rng.integers(2, nb + 1)))
        acc = rng.random() < .4
        with ctx.observe('ds', dict(kind=kind, nt=nt, nb=nb, var=var, names=names, acc=acc, vel=ds.vel.values)):
            f = b.do_var if var else b.do_avg
            suf = '_var' if var else ''
            if acc:
                out = b.do_avg(ds, names=['vel'])
                kept = out['vel'].values.copy()
                out2 = ctx.call(f, ds, out, names=names)
                ctx.check(out2 is out, 'acc-identity', 'out_ds not returned')
                if var or (names is not None and 'vel' not in names):
                    ctx.eq(out['vel'], kept, 'acc-lost', 'averages already in out_ds')
            else:
                out = ctx.call(f, ds, pure=True, names=names)
            seen = 0
            for k in (names or list(ds.data_vars)):
                d = ds[k]
                tds = [x for x in d.dims if x.startswith('time')]
                if 'ensemble' in k or 'n_altraw' in d.dims or not tds:
                    if tds:
                        ctx.check(k + suf not in out or acc, 'unexpected-variable', '%s in the output' % k)
                    continue
                ctx.check(k + suf in out, 'missing-variable', '%s missing from the average' % k)
                o = out[k + suf]
                ctx.check(o.dims == d.dims, 'dims', '%s dims %s -> %s' % (k, d.dims, o.dims))
                sc = scale(d)
                if var:
                    ctx.close(o, bm.bvar(d.values, nb), 'ds-var', k + ' variance', rtol=2e-3, atol=4e-6 * sc * sc)
                else:
                    ctx.close(o, bm.bmean(d.values, nb), 'ds-mean', k + ' mean', rtol=1e-5, atol=2e-6 * sc)
                ctx.check(dict(o.attrs) == dict(d.attrs), 'var-attrs', '%s attributes %s -> %s' % (k, d.attrs, o.attrs))
                for c in d.dims:
                    if c.startswith('time'):
                        w = bm.bmean(d[c].values, nb)
                        ctx.check(o[c].shape == w.shape and ad(o[c].values.astype('datetime64[ns]'), w) < 5000,
                                  'ds-time', lambda: '%s: %s is %s, expected %s' % (k, c, o[c].values[:2], w[:2]))
                    else:
                        ctx.eq(o[c], d[c], 'ds-coord', '%s coordinate %s' % (k, c))
                seen += 1
            ctx.count('variables-averaged', seen)
            if not var:
                u = np.hypot(ds.vel.values[0].astype(float), ds.vel.values[1].astype(float))
                ctx.close(out['U_std'], np.sqrt(bm.bvar(u, nb)), 'U_std', 'U_std', rtol=2e-3, atol=2e-4 * scale(u))
            for k, a in ds.attrs.items():
                ctx.check(k in out.attrs and np.all(out.attrs[k] == a), 'attrs', 'attribute %s: %r -> %r' % (k, a, out.attrs.get(k)))
            ctx.check(out.attrs['n_bin'] == nb and out.attrs['n_fft'] == b.n_fft, 'attrs-bin', 'n_bin/n_fft attributes')
    for rng in ctx.cases('refuse', ctx.n(10, 60)):
        ds = synth.make(rng, 'vector', nt=40)
        with ctx.observe('refuse', dict(v=ds.vel.values)):
            ctx.expect_raises('fs-mismatch-accepted', Exception, VelBinner(8, ds.fs * 2).do_avg, ds)
            ctx.expect_raises('fs-mismatch-accepted', Exception, VelBinner(8, ds.fs / 2).do_avg, ds)
            b = VelBinner(8, ds.fs)
            o = b.do_avg(ds)
            ctx.expect_raises('inconsistent-out-accepted', AttributeError, VelBinner(10, ds.fs).do_avg, ds, o)
            d2 = ds.copy()
            d2.attrs['inst_model'] = 'other'
            ctx.expect_raises('inconsistent-out-accepted', AttributeError, b.do_avg, d2, o)
            d3 = ds.assign(empty=(('time', 'q'), np.zeros((40, 0))))
            ctx.expect_raises('empty-accepted', RuntimeError, b.do_avg, d3)
