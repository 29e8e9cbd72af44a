"""C12: time conversions against the calendar."""
import datetime as D
import numpy as np
import xarray as xr
from dolfyn import time as T
from .. import synth

RULE = ('Random and boundary instants 1901-2200 (leap days, year ends, sub-second, before 1970), scalars, lists, arrays of any shape, DataArrays; every conversion against python datetime arithmetic and every pair composed. '
        'Non-trivial: more than one instant.')
FILES = ['dolfyn/time.py']
E0 = D.datetime(1970, 1, 1)


def instants(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        y = int(rng.integers(1901, 2200))
        if k < .15:
            y = int(rng.choice([1904, 1972, 2000, 2020, 2096, 1996]))
            d = D.datetime(y, 2, int(rng.integers(28, 30)))
        elif k < .3:
            d = D.datetime(y, 12, 31)
        elif k < .4:
            d = D.datetime(y, 1, 1)
        elif k < .5:
            d = D.datetime(int(rng.choice([1969, 1970])), int(rng.choice([1, 12])), int(rng.choice([1, 31])))
        else:
            d = D.datetime(y, 1, 1) + D.timedelta(days=int(rng.integers(0, 365)))
        s = float(rng.choice([0, 86399, int(rng.integers(0, 86400))]))
        us = int(rng.choice([0, 0, 100, 500000, 999900, 10 * int(rng.integers(0, 100000)), int(rng.integers(0, 1000000))]))
        out.append(d + D.timedelta(seconds=s, microseconds=us))
    return out


def us_of(d):
    """exact microseconds since 1970"""
    t = d - E0
    return (t.days * 86400 + t.seconds) * 10 ** 6 + t.microseconds


def run(ctx):
    for rng in ctx.cases('times', ctx.n(250, 5000)):
        n = int(rng.choice([1, 2, 5, 12]))
        d = instants(rng, n)
        us = np.array([us_of(x) for x in d], 'int64')
        ep = us / 1e6
        d64 = us.astype('datetime64[us]').astype('datetime64[ns]')
        tol = 1e-6            # float64 seconds resolve better than 1 us until 2200
        with ctx.observe('times', dict(d=[x.isoformat() for x in d]), nontrivial=n > 1):
            near = lambda a, what, t=1000: ctx.check(
                np.asarray(a).astype('datetime64[ns]').shape == d64.shape and
                np.abs((np.asarray(a).astype('datetime64[ns]') - d64).astype('int64')).max() <= t,
                what, lambda: '%s: %s, expected %s' % (what, np.asarray(a)[:3], d64[:3]))
            nearu = lambda a, what, t=1: ctx.check(
                len(a) == n and max(abs(us_of(x) - int(u)) for x, u in zip(a, us)) <= t,
                what, lambda: '%s: %s, expected %s' % (what, list(a)[:3], d[:3]))
            r = ctx.call(T.epoch2dt64, ep, pure=True)
            near(r, 'epoch2dt64')
            ctx.check(r.dtype.kind == 'M', 'epoch2dt64-dtype', '%s' % r.dtype)
            ctx.close(ctx.call(T.dt642epoch, d64, pure=True), ep, 'dt642epoch', rtol=0, atol=tol)
            ctx.close(T.dt642epoch(r), ep, 'epoch-dt64-epoch', rtol=0, atol=2 * tol)
            near(T.epoch2dt64(T.dt642epoch(d64)), 'dt64-epoch-dt64', 1500)
            near(ctx.call(T.date2dt64, list(d), pure=True), 'date2dt64', 0)
            nearu(ctx.call(T.dt642date, d64, pure=True), 'dt642date')
            nearu(ctx.call(T.epoch2date, ep, pure=True), 'epoch2date')
            nearu(ctx.call(T.epoch2date, list(map(float, ep))), 'epoch2date-list')
            nearu(ctx.call(T.epoch2date, xr.DataArray(ep, dims=['time'])), 'epoch2date-dataarray')
            h = float(rng.choice([-12, -7, -3.5, 1, 5.5, 14]))
            nearu([x - D.timedelta(hours=h) for x in ctx.call(T.epoch2date, ep, offset_hr=h)], 'epoch2date-offset')
            e = ctx.call(T.date2epoch, list(d), pure=True)
            ctx.close(e, ep, 'date2epoch', rtol=0, atol=tol)
            # strings
            f = '%Y-%m-%d %H:%M:%S.%f'
            s = ctx.call(T.date2str, list(d), pure=True)
            ctx.check([D.datetime.strptime(q, f) for q in s] == d, 'date2str', '%s' % s[:2])
            h = float(rng.choice([0, 0, -3.5, 9]))
            s = ctx.call(T.epoch2date, ep, to_str=True, **({'offset_hr': h} if h else {}))
            nearu([D.datetime.strptime(q, f) - D.timedelta(hours=h) for q in s], 'epoch2date-str')
            ctx.check(T.date2str(list(d), '%d/%m/%Y') == [x.strftime('%d/%m/%Y') for x in d], 'date2str-format', 'format string')
            # matlab: days since year 0 (datenum(1970,1,1) == 719529)
            m = ctx.call(T.date2matlab, list(d), pure=True)
            ctx.close(m, 719529 + us / 86400e6, 'date2matlab', rtol=0, atol=3e-10)
            nearu(ctx.call(T.matlab2date, m), 'matlab2date', 101)
            nearu(T.matlab2date(719529 + us / 86400e6), 'matlab2date-datenum', 101)
            # scalars and shapes
            i = int(rng.integers(n))
            r1 = T.epoch2dt64(float(ep[i]))
            ctx.check(np.shape(r1) == () and abs(int((r1 - d64[i]).astype('int64'))) <= 1000, 'epoch2dt64-scalar', '%r' % r1)
            ctx.check(abs(float(T.dt642epoch(d64[i])) - ep[i]) <= tol, 'dt642epoch-scalar', 'scalar')
            for a in (float(ep[i]), np.array(ep[i]), xr.DataArray(ep[i])):
                q = T.epoch2date(a)
                ctx.check(len(q) == 1 and abs(us_of(q[0]) - int(us[i])) <= 1, 'epoch2date-scalar', '%r' % q)
            q = T.date2epoch(d[i])
            ctx.check(len(q) == 1 and abs(q[0] - ep[i]) <= tol, 'date2epoch-scalar', '%r' % q)
            ctx.check(T.date2str(d[i]) == [d[i].strftime(f)], 'date2str-scalar', 'scalar')
            e2 = np.stack([ep, ep[::-1]])
            r2 = T.epoch2dt64(e2)
            ctx.check(r2.shape == (2, n) and (r2[0] == r).all() and (r2[1] == r[::-1]).all(), 'epoch2dt64-2d', 'shape or order lost')
            ctx.check(T.dt642epoch(r2).shape == (2, n), 'dt642epoch-2d', 'shape lost')
            # order
            o = np.argsort(ep, kind='stable')
            ctx.check((np.diff(T.epoch2dt64(ep[o]).astype('int64')) >= 0).all(), 'order', 'order not preserved')
    # (helpers of the readers, judged directly while they go by these names; C01-C06 judge what the readers make of them)
    for rng in ctx.cases('gaps', ctx.n(150, 2500) if hasattr(T, '_fill_time_gaps') else 0):
        n = int(rng.integers(2, 60)) if rng.random() < .7 else int(rng.integers(150, 2500))
        fs = float(rng.choice([1, 2, 8, 32, 1 / 60., .5]))
        t0 = float(us_of(instants(rng, 1)[0]) / 1e6)
        full = t0 + np.arange(n) / fs
        g = rng.random(n) < float(rng.choice([.2, .5, .9]))
        if n > 100 and rng.random() < .7:     # one long outage
            a = int(rng.integers(n - 110))
            g[a:a + int(rng.integers(100, n - a))] = False
        k = rng.random()
        if k < .3:
            g[:int(rng.integers(1, n))] = False
        elif k < .6:
            g[int(rng.integers(1, n)):] = False
        if not g.any():
            g[int(rng.integers(n))] = True
        jit = np.where(g, full + rng.normal(0, .01 / fs, n), np.nan)
        with ctx.observe('gaps', dict(n=n, fs=fs, t0=t0, valid=g.astype(int)), nontrivial=not g.all()):
            r = ctx.call(T._fill_time_gaps, jit.copy(), fs)
            ctx.check(not np.isnan(r).any(), 'gaps-left', 'NaN left in the time vector')
            ctx.eq(r[g], jit[g], 'gaps-valid-moved', 'valid stamps')
            w = np.flatnonzero(g)
            want = np.interp(np.arange(n), w, jit[w])
            want[:w[0]] = jit[w[0]] - (w[0] - np.arange(w[0])) / fs
            want[w[-1] + 1:] = jit[w[-1]] + np.arange(1, n - w[-1]) / fs
            ctx.close(r, want, 'gaps-filled', 'filled stamps', rtol=0, atol=2e-6)
            p = np.where(g, full, np.nan)
            ctx.close(T._fill_time_gaps(p.copy(), fs), full, 'gaps-grid', 'regular grid', rtol=0, atol=2e-6)
    for rng in ctx.cases('year', ctx.n(20, 60) if hasattr(T, '_fullyear') else 0):
        y = int(rng.integers(0, 100))
        with ctx.observe('year', dict(y=y)):
            ctx.check(T._fullyear(y) == (2000 + y if y < 90 else 1900 + y), 'fullyear', '%d -> %s' % (y, T._fullyear(y)))
            z = int(rng.integers(1970, 2200))
            ctx.check(T._fullyear(z) == z, 'fullyear4', '%d -> %s' % (z, T._fullyear(z)))
