"""C22: auto- and cross-covariance."""
import numpy as np
import xarray as xr
from dolfyn import VelBinner
from dolfyn.adv.api import ADVBinner
from .. import synth, binmodel as bm

RULE = ('Random signals of 1-3 dimensions, any bin length and per-call bin length, any number of lags, judged bin by bin and lag by lag against the sum of lagged products; zero lag against the variance; '
        'offset invariance; integral scales against the first 1/e crossing. Non-trivial: at least two bins.')
FILES = ['dolfyn/velocity.py', 'dolfyn/adv/turbulence.py']


def run(ctx):
    for rng in ctx.cases('cov', ctx.n(130, 2500)):
        own = int(rng.integers(4, 60))
        nb = own if rng.random() < .6 else int(rng.integers(4, 60))
        k = int(rng.integers(2, 6))
        nt = nb * k + int(rng.integers(0, nb))
        nd = int(rng.integers(1, 4))
        lead = tuple(int(v) for v in rng.integers(1, 4, nd - 1))
        dt = str(rng.choice(['f4', 'f8']))
        off = float(rng.choice([0, 0, 3, -20]))
        mk1 = lambda: np.array([synth.colored(rng, nt, -rng.uniform(0, 2)) for _ in range(int(np.prod(lead)))]).reshape(lead + (nt,))
        a, b = (mk1() + off).astype(dt), (mk1() - off).astype(dt)
        fs = float(rng.choice([1, 4, 16]))
        t = synth.times(nt, fs)
        nm = ['range', 'dir', 'time'][-nd:]
        co = {n: np.arange(s) * 1. for n, s in zip(nm, lead)}
        da = lambda x: xr.DataArray(x, dims=nm, coords={**co, 'time': t})
        b_ = VelBinner(own, float(fs)) if rng.random() < .5 else ADVBinner(float(own), fs)
        kw = dict(n_bin=nb) if nb != own else {}
        npt = int(rng.integers(1, min(nb, 9) + 1)) if rng.random() < .6 else 1
        normed = bool(rng.integers(2))
        tol = 1e-4 * nb if dt == 'f4' else 1e-6 * nb
        if dt == 'f4' and off:
            tol *= 5
        with ctx.observe('cov', dict(own=own, nb=nb, k=k, nt=nt, shape=a.shape, dtype=dt, npt=npt, normed=normed, off=off, a=a, b=b)):
            r = ctx.call(b_.calc_acov, da(a), pure=True, **kw)
            q = nb // 4
            ctx.check(r.dims == tuple(nm) + ('lag',) and r.shape == lead + (k, q), 'acov-shape', 'acov shape %s, expected %s' % (r.shape, lead + (k, q)))
            ctx.eq(r['lag'], np.arange(q), 'acov-lags', 'lag coordinate')
            x = a.astype(float)
            dm = bm.bdemean(x, nb)
            want = np.zeros(lead + (k, q))
            for i in range(k):
                n = np.arange(i * nb, (i + 1) * nb)
                for L in range(q):
                    fw = (x[..., (n + L)] * dm[..., i, :]).sum(-1) if i < k - 1 else None
                    bw = (x[..., (n - L)] * dm[..., i, :]).sum(-1) if i > 0 else None
                    want[..., i, L] = fw if bw is None else bw if fw is None else (fw + bw) / 2
            ctx.close(r, want, 'acov-definition', 'auto-covariance', rtol=2e-5, atol=tol)
            ctx.close(r.values[..., 0] / nb, bm.bvar(a, nb), 'acov-variance', 'zero-lag auto-covariance / n_bin', rtol=1e-3, atol=tol / nb)
            o = ctx.call(b_.calc_acov, da((a + np.asarray(2, dt)).astype(dt)), **kw)
            ctx.close(o, r, 'acov-offset', 'auto-covariance after an offset', rtol=1e-4, atol=3 * tol)
            tw = bm.bmean(t, nb)
            ctx.check(len(r['time']) == k and np.abs((r['time'].values.astype('M8[ns]') - tw).astype('int64')).max() < 5000, 'acov-time', 'bin times')
            for c in co:
                ctx.eq(r[c], co[c], 'acov-coord', c)
            # cross-covariance
            r = ctx.call(b_.calc_xcov, da(a), da(b), npt=npt, normed=normed, pure=True, **kw)
            lags = r['dt'].values
            ctx.check(r.shape == lead + (k, npt) and len(lags) == npt, 'xcov-shape', 'xcov shape %s' % (r.shape,))
            ctx.check(0 in lags and (np.diff(lags) == 1).all(), 'xcov-lags', 'lags %s' % lags)
            dmb = bm.bdemean(b.astype(float), nb)
            got, want, nck = r.values.astype(float), np.full(lead + (k, npt), np.nan), 0
            for i in range(k):
                n = np.arange(i * nb, (i + 1) * nb)
                for j, L in enumerate(lags):
                    m = n + int(L)
                    if m.min() < 0 or m.max() >= k * nb:
                        got[..., i, j] = np.nan     # needs samples outside the record
                        continue
                    nck += 1
                    want[..., i, j] = (x[..., m] * dmb[..., i, :]).sum(-1)
            if normed:
                want /= (np.sqrt(bm.bvar(a, nb) * bm.bvar(b, nb)) * nb)[..., None]
            ctx.count('lags-compared', nck)
            ctx.close(got, want, 'xcov-definition', 'cross-covariance', rtol=1e-3 if normed else 2e-5, atol=tol / (nb / 5 if normed else 1))
            z = list(lags).index(0)
            s = ctx.call(b_.calc_xcov, da(a), da(a), npt=npt, normed=True, **kw)
            ctx.close(s.values[..., z], np.ones(lead + (k,)), 'xcov-self', 'normalised zero-lag covariance of a signal with itself', rtol=5e-3)
            s = ctx.call(b_.calc_xcov, da(b), da(a), **kw)
            o = ctx.call(b_.calc_xcov, da(a), da(b), **kw)
            ctx.close(s, o, 'xcov-symmetric', 'zero-lag covariance of swapped inputs', rtol=1e-4, atol=3 * tol)
            ctx.close(s.values[..., 0], (bm.bdemean(a, nb) * bm.bdemean(b, nb)).sum(-1), 'xcov-covariance', 'default cross-covariance', rtol=1e-4, atol=3 * tol)
            ctx.check(len(r['time']) == k and np.abs((r['time'].values.astype('M8[ns]') - tw).astype('int64')).max() < 5000, 'xcov-time', 'bin times')
    for rng in ctx.cases('Lint', ctx.n(30, 400)):
        k, q, fs = int(rng.integers(2, 6)), int(rng.integers(5, 40)), float(rng.choice([1, 4, 16]))
        tau = rng.uniform(.5, q * 1.2, (3, k, 1))
        ac = np.exp(-np.arange(q) / tau) * (1 + .0 * rng.normal(size=(3, k, q))) * 10 ** rng.uniform(-3, 2, (3, k, 1))
        if rng.random() < .3:
            ac = ac + .3 * ac[..., :1] * rng.normal(size=ac.shape) * (np.arange(q) > 0)
        U = rng.uniform(.1, 3, k)
        t = synth.times(k, .1)
        with ctx.observe('Lint', dict(k=k, q=q, fs=fs, ac=ac)):
            A = xr.DataArray(ac, dims=['dir', 'time', 'lag'], coords=dict(dir=['X', 'Y', 'Z'], time=t, lag=np.arange(q)))
            Um = xr.DataArray(U, dims=['time'], coords=dict(time=t))
            r = ctx.call(ADVBinner(4 * q, fs).calc_L_int, A, Um, pure=True) if rng.random() < .6 else ctx.call(ADVBinner(4 * q, fs * 2).calc_L_int, A, Um, fs=fs, pure=True)
            want = np.zeros((3, k))
            for i in np.ndindex(3, k):
                below = np.nonzero(ac[i] <= ac[i][0] / np.e)[0]
                want[i] = U[i[1]] / fs * (below[0] if len(below) else 0)
            ctx.close(r, want, 'integral-scale', 'integral length scale', rtol=1e-5)
