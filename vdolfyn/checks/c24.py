"""C24: dissipation estimators on exact inertial-range input."""
import numpy as np
import xarray as xr
from scipy import integrate
from dolfyn.adp.api import ADPBinner
from dolfyn.adv.api import ADVBinner, calc_turbulence
from .. import synth, binmodel as bm

RULE = ('Spectra that are exactly alpha eps^(2/3) k^(-5/3) (+ noise) in Hz and rad/s for prescribed rates, speeds and windows; velocity fields with an exact r^(2/3) structure function; frozen-turbulence series; random series judged '
        'against a direct evaluation of each documented formula; scaling and bin isolation. Non-trivial: at least two bins.')
FILES = ['dolfyn/adv/turbulence.py', 'dolfyn/adp/turbulence.py']


def freq_da(nfft, fs, units):
    f = bm.freqs(nfft, fs, units).astype('f4')
    return xr.DataArray(f, dims=['freq'], attrs=dict(units='Hz' if units == 'Hz' else 'rad s-1'))


def psd_da(x, f, dims, co):
    d = xr.DataArray(x, dims=dims + ['freq'], coords={**co, 'freq': f.values})
    d['freq'].attrs['units'] = f.attrs['units']
    return d


def inertial(f, U, eps, units, alpha=.5):
    """S(f) of the inertial range of a spectrum alpha eps^(2/3) k^(-5/3) advected at U."""
    w = np.asarray(f, float) * (2 * np.pi if units == 'Hz' else 1)
    k = w / U[..., None]
    return alpha * eps[..., None] ** (2 / 3.) * k ** (-5 / 3.) / U[..., None] * (2 * np.pi if units == 'Hz' else 1)


def window(rng, f):
    i, j = np.sort(rng.choice(len(f), 2, replace=False)) if len(f) > 3 else (0, len(f) - 1)
    j = max(j, i + 1)
    lo = 0. if i == 0 and rng.random() < .3 else f[i] - .3 * (f[1] - f[0])
    return [float(lo), float(f[j] + .3 * (f[1] - f[0]))], np.array([q for q in range(len(f)) if lo < f[q] < f[j] + .3 * (f[1] - f[0])])


def te01_int(b, th):
    g = lambda x: np.cbrt(x * x - 2 / b * np.cos(th) * x + b ** -2.) * np.exp(-x * x / 2)
    xs = 1 / b * np.cos(th)
    pts = [xs] if abs(xs) < 20 else None
    return integrate.quad(g, -20, 20, points=pts, limit=400)[0] / np.sqrt(2 * np.pi) * b ** (2 / 3.)


def embed(rng, nc, nb, dz, A, sig):
    """nc series of nb samples, zero mean, whose mean squared differences are exactly
    A r^(2/3) + 2 sig^2."""
    z = np.arange(nc) * dz
    d = A * np.abs(z[:, None] - z[None]) ** (2 / 3.)
    c = A * 5 * (nc * dz) ** (2 / 3.)       # any large enough constant keeps the Gram matrix positive
    G = c - d / 2
    w, V = np.linalg.eigh(G)
    L = V * np.sqrt(np.clip(w, 0, None))
    q = rng.normal(size=(nb, 2 * nc))
    q -= q.mean(0)
    Q = np.linalg.qr(q)[0] * np.sqrt(nb)
    return L @ Q[:, :nc].T + sig * Q[:, nc:].T


def run(ctx):
    for rng in ctx.cases('lt83-exact', ctx.n(120, 2500)):
        nb, k = int(rng.integers(16, 400)), int(rng.integers(1, 6))
        fs = float(rng.choice([1, 2, 4, 8, 16, 32, 64]))
        units = str(rng.choice(['Hz', 'rad/s']))
        f = freq_da(nb, fs, units)
        form = str(rng.choice(['adv3', 'adv1', 'adp']))
        lead = (3, k) if form == 'adv3' else (k,)
        eps = 10 ** rng.uniform(-8, -2, lead)
        U = rng.uniform(.1, 3, k)
        t = synth.times(k, fs / nb)
        fr, idx = window(rng, f.values.astype(float))
        S = inertial(f.values, np.broadcast_to(U, lead), eps, units)
        out = np.ones(len(f), bool)
        out[idx] = False
        S[..., out] *= 10 ** rng.uniform(-1, 1, S[..., out].shape)   # outside the window: irrelevant
        noise = None
        if rng.random() < .5:
            sfs = fs * (2 * np.pi if units != 'Hz' else 1)
            if form == 'adp':
                nz = rng.uniform(0, .3, k)
                noise = xr.DataArray(nz, dims=['time'], coords=dict(time=t))
            elif form == 'adv3':
                nz = rng.uniform(0, .3, (3, k))
                noise = xr.DataArray(nz, dims=['S', 'time'], coords=dict(S=['Sxx', 'Syy', 'Szz'], time=t))
                if rng.random() < .3:
                    nz = np.repeat(nz[:, :1], k, 1)
                    noise = nz[:, :1, None]
            if noise is not None:
                S = S + nz[..., None] ** 2 / (sfs / 2)
        co = dict(time=t)
        dims = ['time']
        if form == 'adv3':
            co['S'] = ['Sxx', 'Syy', 'Szz']
            dims = ['S', 'time']
        psd = psd_da(S, f, dims, co)
        Um = xr.DataArray(U, dims=['time'], coords=dict(time=t))
        B = ADPBinner(nb, fs) if form == 'adp' else ADVBinner(nb, fs)
        fn = B.calc_dissipation_LT83 if form == 'adp' else B.calc_epsilon_LT83
        with ctx.observe('lt83-exact', dict(form=form, fs=fs, nb=nb, units=units, eps=eps, U=U, fr=fr, noise=None if noise is None else np.asarray(noise)), nontrivial=k > 1):
            r = ctx.call(fn, psd, Um, freq_range=fr, noise=noise, pure=True)
            # loss of significance where the noise dwarfs the signal
            tol = 1e-4 if noise is None else 1e-4 + 3e-6 * np.max(S[..., idx] / inertial(f.values[idx], np.broadcast_to(U, lead), eps, units), -1)
            ctx.close(r, eps, 'lt83-rate', 'dissipation rate', rtol=tol, atol=1e-30)
            ctx.check(r.dims == tuple(dims), 'lt83-dims', '%s' % (r.dims,))
            if noise is None:
                c = float(10 ** rng.uniform(-1, 1))
                p2 = psd.copy(data=psd.values * c)
                ctx.close(ctx.call(fn, p2, Um, freq_range=fr), r.values.astype(float) * c ** 1.5, 'lt83-scaling', 'rate after scaling the spectrum', rtol=1e-4)
                if k > 1:
                    i = int(rng.integers(k))
                    p3 = psd.copy(deep=True)
                    m = np.arange(k) != i
                    p3.values[..., m, :] *= 7.
                    ctx.close(ctx.call(fn, p3, Um, freq_range=fr).values[..., i], r.values[..., i], 'lt83-isolation', 'bin %d after changing only other bins' % i, rtol=1e-6)
    for rng in ctx.cases('lt83-series', ctx.n(30, 400)):
        nb, k = int(rng.integers(64, 300)), int(rng.integers(1, 5))
        fs = float(rng.choice([4, 16, 32]))
        units = str(rng.choice(['Hz', 'rad/s']))
        nt = nb * k + int(rng.integers(nb))
        nfft = int(rng.integers(nb // 4, nb + 1))
        x = synth.colored(rng, nt, fs=fs, std=.1, lead=(3,)) + np.array([[1.2], [.3], [0]])
        v = xr.DataArray(x, dims=['dir', 'time'], coords=dict(dir=['E', 'N', 'U'], time=synth.times(nt, fs)))
        U = rng.uniform(.5, 2, k)
        f = bm.freqs(nfft, fs, units)
        fr, idx = window(rng, f)
        with ctx.observe('lt83-series', dict(fs=fs, nb=nb, nfft=nfft, units=units, fr=fr, x=x), nontrivial=k > 1):
            B = ADVBinner(nb, fs, n_fft=nfft)
            p = ctx.call(B.calc_psd, v, freq_units=units)
            Um = xr.DataArray(U, dims=['time'], coords=dict(time=p.time))
            r = ctx.call(B.calc_epsilon_LT83, p, Um, freq_range=fr, pure=True)
            sf = 2 * np.pi if units == 'Hz' else 1.
            S = np.zeros((3, k, len(f)))
            for c in range(3):
                for i in range(k):
                    b = x[c, i * nb:(i + 1) * nb]
                    S[c, i] = p.values[c, i]
            want = ((S[..., idx] * f[idx] ** (5 / 3.) / .5).mean(-1)) ** 1.5 / (U / sf)
            ctx.close(r, want, 'lt83-formula', 'dissipation rate', rtol=1e-4)
    for rng in ctx.cases('lt83-floor', ctx.n(30, 300)):
        # Noise above part of the spectrum: what is left there counts as next to nothing
        # (no more than the smallest magnitude), never as energy and never as NaN
        nb, k = int(rng.integers(32, 200)), int(rng.integers(1, 5))
        fs = float(rng.choice([2, 8, 32]))
        units = str(rng.choice(['Hz', 'rad/s']))
        f = freq_da(nb, fs, units)
        ff = f.values.astype(float)
        adp = bool(rng.integers(2))
        lead = (k,) if adp else (3, k)
        U = rng.uniform(.1, 3, k)
        S = inertial(ff, np.broadcast_to(U, lead), 10 ** rng.uniform(-6, -2, lead), units) * rng.uniform(.3, 3, lead + (len(ff),))
        lev = np.quantile(S, rng.uniform(.2, .8), -1)
        nz = np.sqrt(lev * fs * (2 * np.pi if units != 'Hz' else 1) / 2)
        t = synth.times(k, fs / nb)
        co, dims = dict(time=t), ['time']
        if not adp:
            co['S'], dims = ['Sxx', 'Syy', 'Szz'], ['S', 'time']
        psd = psd_da(S, f, dims, co)
        noise = xr.DataArray(nz, dims=dims, coords={c: co[c] for c in dims})
        Um = xr.DataArray(U, dims=['time'], coords=dict(time=t))
        fr, idx = window(rng, ff)
        with ctx.observe('lt83-floor', dict(adp=adp, fs=fs, nb=nb, units=units, fr=fr, S=S), nontrivial=k > 1):
            r = ctx.call(ADPBinner(nb, fs).calc_dissipation_LT83 if adp else ADVBinner(nb, fs).calc_epsilon_LT83, psd, Um, freq_range=fr, noise=noise, pure=True)
            left = S - lev[..., None]
            sf = 2 * np.pi if units == 'Hz' else 1.
            rate = lambda s: ((s[..., idx] * ff[idx] ** (5 / 3.) / .5).mean(-1)) ** 1.5 / (U / sf)
            lo, hi = rate(np.clip(left, 0, None)), rate(np.where(left > 0, left, np.abs(left).min()))
            ctx.check(((r.values >= lo * .999 - 1e-30) & (r.values <= hi * 1.001 + 1e-30)).all(), 'lt83-floor',
                      lambda: 'rates %s outside [%s, %s]' % (r.values.ravel()[:4], lo.ravel()[:4], hi.ravel()[:4]))
    for rng in ctx.cases('sf-adv', ctx.n(60, 1000)):
        nb, k = int(rng.integers(40, 300)), int(rng.integers(1, 5))
        fs = float(rng.choice([4, 8, 16, 32, 64]))
        nt = nb * k + int(rng.integers(nb))
        x = synth.colored(rng, nt, -rng.uniform(1, 2), fs=fs) * rng.uniform(.01, 1) + rng.normal()
        if rng.random() < .3:
            x[rng.random(nt) < .05] = np.nan
        U = rng.uniform(.1, 2, k)
        f1 = float(rng.uniform(fs / 10, fs))
        f0 = float(f1 * rng.uniform(.2, .7))
        f0 = max(f0, fs / (nb - 2))
        t = synth.times(nt, fs)
        L = np.arange(int(fs / f1), int(fs / f0))
        if len(L) == 0:
            continue
        v = xr.DataArray(x, dims=['time'], coords=dict(time=t))
        with ctx.observe('sf-adv', dict(fs=fs, nb=nb, fr=[f0, f1], U=U, x=x), nontrivial=k > 1):
            Um = xr.DataArray(U, dims=['time'], coords=dict(time=bm.bmean(t, nb)))
            own = rng.random() < .5
            B = ADVBinner(nb, fs if own else fs * 2)
            r = ctx.call(B.calc_epsilon_SF, v, Um, freq_range=[f0, f1], pure=True, **({} if own else dict(fs=fs)))
            want = np.zeros(k)
            for i in range(k):
                b = x[i * nb:(i + 1) * nb]
                cv = [np.nanmean((b[l:] - b[:-l]) ** 2) / (U[i] / fs * l) ** (2 / 3.) for l in L]
                want[i] = (np.nanmedian(cv) / 2.1) ** 1.5
            ctx.close(r, want, 'sf-adv-formula', 'dissipation rate', rtol=1e-5)
            s = ctx.call(B.calc_epsilon_SF, v * 2, Um, freq_range=[f0, f1], fs=fs)
            ctx.close(s, want * 8, 'sf-adv-scaling', 'rate of the doubled velocity', rtol=1e-5)
    for rng in ctx.cases('frozen', ctx.n(24, 300)):
        # frozen turbulence with a known inertial range: all ADV estimators near the rate
        nb, fs, k = 4096, 32., 3
        eps = float(10 ** rng.uniform(-6, -3))
        U = float(rng.uniform(.5, 2))
        nt = nb * k
        f = np.fft.rfftfreq(nt, 1 / fs)
        S = np.zeros(len(f))
        S[1:] = inertial(f[1:], np.array(U), np.array(eps), 'Hz')
        z = rng.normal(size=(len(f), 2)).view(complex)[:, 0] / np.sqrt(2)
        x = np.fft.irfft(z * np.sqrt(S * nt * fs / 2), nt)
        t = synth.times(nt, fs)
        v = xr.DataArray(x, dims=['time'], coords=dict(time=t))
        units = str(rng.choice(['Hz', 'rad/s']))
        fr = np.array([1., 6.])
        with ctx.observe('frozen', dict(eps=eps, U=U, units=units, x=x)):
            B = ADVBinner(nb, fs, n_fft=512)
            p = ctx.call(B.calc_psd, v, freq_units=units)
            Um = xr.DataArray(np.full(k, U), dims=['time'], coords=dict(time=p.time))
            frs = list(fr * (1 if units == 'Hz' else 2 * np.pi))
            for q, e in (('LT83', ctx.call(B.calc_epsilon_LT83, p, Um, freq_range=frs)),
                         ('LT83-adp', ctx.call(ADPBinner(nb, fs).calc_dissipation_LT83, p, Um, freq_range=frs)),
                         ('SF', ctx.call(B.calc_epsilon_SF, v, Um, freq_range=[1., 6.]))):
                ctx.check(len(e) == k and np.all(np.abs(np.log(e.values / eps)) < .7), 'frozen-' + q, '%s rate %s, prescribed %g' % (q, e.values, eps))
            m, b0 = ctx.call(B.check_turbulence_cascade_slope, p.mean('time'), freq_range=frs)
            ctx.check(abs(float(m) + 5 / 3.) < .25, 'frozen-slope', 'cascade slope %g' % float(m))
    for rng in ctx.cases('te01', ctx.n(24, 300)):
        nb, k = int(rng.integers(32, 128)), int(rng.integers(1, 4))
        fs = float(rng.choice([8, 16, 32]))
        nt = nb * k
        units = str(rng.choice(['Hz', 'rad/s']))
        h = rng.uniform(0, 2 * np.pi)
        x = synth.colored(rng, nt, -1, lead=(3,)) * rng.uniform(.02, .5, (3, 1)) + np.array([[np.cos(h)], [np.sin(h)], [0]]) * rng.uniform(.3, 2)
        ds = synth.make(rng, 'vector', nt=nt, coord_sys=str(rng.choice(['inst', 'earth'])), vel=x, fs=fs, dtype=np.float64)
        with ctx.observe('te01', dict(fs=fs, nb=nb, units=units, x=x), nontrivial=k > 1):
            B = ADVBinner(nb, fs)
            av = ctx.call(calc_turbulence, ds, nb, fs, freq_units=units)
            f = av['psd'].freq.values.astype(float)
            fr, idx = window(rng, f)
            exact = rng.random() < .5
            U = np.abs(bm.bmean(x[0], nb) + 1j * bm.bmean(x[1], nb))
            I = np.sqrt((bm.bdetrend(x, nb) ** 2).mean(-1).sum(0)) / U
            up = bm.bdemean(x[0], nb) + 1j * bm.bdemean(x[1], nb)
            up = np.where(up.imag <= 0, -up, up)
            th = np.angle(bm.bmean(x[0], nb) + 1j * bm.bmean(x[1], nb)) - np.angle(up.mean(-1))
            J = np.array([te01_int(a, b) for a, b in zip(I, th)])
            if exact:
                eps = 10 ** rng.uniform(-7, -3, k)
                S = inertial(f, U, eps, units, 1.)
                al = 1.5 * J[:, None]
                q = rng.uniform(.3, .7)
                av['psd'].values[:] = np.array([S * 21 / 55. * al * q, S * 21 / 55. * al * (1 - q), S * 12 / 55. * al])
            r = ctx.call(B.calc_epsilon_TE01, ds, av, freq_range=fr, pure=True)
            if exact:
                ctx.close(r, eps, 'te01-rate', 'dissipation rate', rtol=3e-3)
            else:
                p = av['psd'].values.astype(float)[..., idx]
                c = f[idx] ** (5 / 3.)
                Uc = U / (2 * np.pi) if units == 'Hz' else U
                want = .5 * ((((p[0] + p[1]) * c).mean(-1) / (21 / 55. * 1.5 * J)) ** 1.5 + ((p[2] * c).mean(-1) / (12 / 55. * 1.5 * J)) ** 1.5) / Uc
                ctx.close(r, want, 'te01-formula', 'dissipation rate', rtol=3e-3)
    for rng in ctx.cases('sf-adp', ctx.n(50, 700)):
        dz = float(rng.choice([.25, .5, 1., .2, .1, .4, .8]))
        nr = int(rng.integers(3, 8))
        extra = int(rng.integers(2, 8))
        r1 = dz * nr
        r0 = dz * int(rng.integers(1, nr - 1))
        nc, k = nr + 1 + extra, int(rng.integers(1, 4))
        nb = 2 * nc + 1 + int(rng.integers(0, 20))
        eps = 10 ** rng.uniform(-8, -3, k)
        sig = rng.uniform(0, .02, k)
        b5 = rng.random() < .3
        x = np.zeros((nc, nb * k + int(rng.integers(nb))))
        for i in range(k):
            x[:, i * nb:(i + 1) * nb] = embed(rng, nc, nb, dz, 2.1 * eps[i] ** (2 / 3.), sig[i])
        x = x + rng.normal(0, 1, (nc, 1))
        fs = 2.
        t = synth.times(x.shape[1], fs)
        rn, tn = ('range_b5', 'time_b5') if b5 else ('range', 'time')
        z = np.round(.3 + dz * np.arange(nc), 3)
        v = xr.DataArray(x, dims=[rn, tn], coords={rn: z, tn: t})
        with ctx.observe('sf-adp', dict(dz=dz, r=[r0, r1], nc=nc, nb=nb, eps=eps, sig=sig, x=x), nontrivial=k > 1):
            e, n, D = ctx.call(ADPBinner(nb, fs).calc_dissipation_SF, v, r_range=[r0, r1], pure=True)
            ctx.check(e.dims == (rn, tn) and n.dims == (rn, tn), 'sf-adp-dims', '%s' % (e.dims,))
            ctx.eq(e[rn], z, 'sf-adp-range', 'range coordinate')
            want = (t.astype('M8[ns]').astype('int64')[:nb * k].reshape(k, nb) - t[0].astype('M8[ns]').astype('int64')).mean(-1)
            for q in (e, n, D):
                got = q[tn].values.astype('M8[ns]').astype('int64') - t[0].astype('M8[ns]').astype('int64')
                ctx.check(len(got) == k and np.abs(got - want).max() < 1e5, 'sf-adp-time', 'bin times off by %s ns' % (got - want)[:3] if len(got) == k else '%d bins' % len(got))
            nD = D.shape[1]
            ctx.check(nD in (nr, nr + 1), 'sf-adp-separations', '%d separations for r up to %g by %g' % (nD, r1, dz))
            ctx.close(D['range_SF'], dz * np.arange(1, nD + 1), 'sf-adp-separations', 'separation coordinate', rtol=1e-6)
            for j in range(1, nD + 1):
                for i in range(k):
                    want = np.full(nc, np.nan)
                    want[j:] = 2.1 * eps[i] ** (2 / 3.) * (j * dz) ** (2 / 3.) + 2 * sig[i] ** 2
                    ctx.close(D.values[:, j - 1, i], want, 'sf-adp-D', 'structure function at r=%g' % (j * dz), rtol=1e-4)
            use = np.arange(nD, nc)
            for i in range(k):
                tol = 2e-3 + 1e-3 * sig[i] ** 2 / (eps[i] ** (2 / 3.) * dz ** (2 / 3.))
                ctx.close(e.values[use, i], np.full(len(use), eps[i]), 'sf-adp-rate', 'dissipation rate', rtol=tol)
                if sig[i] ** 2 > .01 * eps[i] ** (2 / 3.) * r1 ** (2 / 3.):
                    ctx.close(n.values[use, i], np.full(len(use), sig[i]), 'sf-adp-noise', 'noise offset', rtol=1e-2)
            ctx.check(np.isnan(e.values[:nr]).all(), 'sf-adp-short', 'rate reported for cells without the full set of separations')
    for rng in ctx.cases('sf-adp-series', ctx.n(40, 500)):
        # Ordinary series, with missing samples: the structure function by direct
        # evaluation and, from it, the least-squares line over the requested separations
        # (whether or not its lower end is included)
        dz = float(rng.choice([.25, .5, 1., .2, .1, .4, .8]))
        nr = int(rng.integers(4, 9))
        r1, r0 = dz * nr, dz * int(rng.integers(1, nr - 2))
        nc, nb, k = nr + 1 + int(rng.integers(2, 8)), int(rng.integers(8, 40)), int(rng.integers(1, 4))
        x = np.cumsum(rng.normal(0, .02, (nc, nb * k + int(rng.integers(nb)))), 0) + rng.normal(0, rng.choice([.001, .05]), (nc, 1)) + rng.normal(0, .01, (1, 1))
        if rng.random() < .3:
            x[rng.random(x.shape) < .05] = np.nan
        if rng.random() < .4:       # beyond the surface, which moves
            for i in range(k + 1):
                x[nc - int(rng.integers(0, nc - nr)):, i * nb:(i + 1) * nb] = np.nan
        t = synth.times(x.shape[1], 2.)
        v = xr.DataArray(x, dims=['range', 'time'], coords=dict(range=np.round(.3 + dz * np.arange(nc), 3), time=t))
        with ctx.observe('sf-adp-series', dict(dz=dz, r=[r0, r1], nc=nc, nb=nb, x=x), nontrivial=k > 1):
            e, n, D = ctx.call(ADPBinner(nb, 2.).calc_dissipation_SF, v, r_range=[r0, r1], pure=True)
            nD = D.shape[1]
            ctx.check(nD in (nr, nr + 1), 'sf-adp-separations', '%d separations for r up to %g by %g' % (nD, r1, dz))
            y = bm.bdemean(x, nb)
            W = np.full((nc, nD, k), np.nan)
            for j in range(1, nD + 1):
                W[j:, j - 1] = np.nanmean((y[:-j] - y[j:]) ** 2, -1)
            ctx.close(D, W, 'sf-adp-D', 'structure function', rtol=1e-4, atol=1e-12)
            r = dz * np.arange(1, nD + 1)
            done = 0
            for i in range(k):
                for c in range(nD, nc):
                    fits = [np.polyfit(r[m] ** (2 / 3.), W[c, m, i], 1) for m in [slice(s, nD) for s in (int(round(r0 / dz)) - 1, int(round(r0 / dz)))]]
                    with np.errstate(all='ignore'):
                        opts = [((a / 2.1) ** 1.5, np.sqrt(b / 2)) for a, b in fits]
                    got = float(e.values[c, i]), float(n.values[c, i])
                    sz = np.abs(W[c, :, i]).max()
                    # a slope or offset next to zero is not judged
                    if min(abs(a) for a, b in fits) < 1e-3 * sz or min(abs(b) for a, b in fits) < 1e-3 * sz:
                        continue
                    ctx.check(any(np.allclose(got, o, rtol=5e-3, atol=0, equal_nan=True) for o in opts), 'sf-adp-fit',
                              lambda: 'rate and noise %s of cell %d bin %d, fitted %s' % (got, c, i, opts))
                    done += 1
            ctx.count('fits', done)
    for rng in ctx.cases('slope', ctx.n(30, 400)):
        n, k = int(rng.integers(8, 200)), int(rng.integers(1, 5))
        units = str(rng.choice(['Hz', 'rad/s']))
        f = freq_da(2 * n, 8., units)
        nd = int(rng.integers(1, 4))
        lead = tuple(int(v) for v in rng.integers(1, 4, nd - 1))
        m, b = rng.uniform(-3, 0, lead), rng.uniform(-6, 0, lead)
        fr, idx = window(rng, f.values.astype(float))
        if len(idx) < 2:
            continue
        ff = f.values.astype(float)
        S = 10 ** b[..., None] * ff ** m[..., None]
        out = np.ones(len(ff), bool)
        out[idx] = False
        S[..., out] *= 5
        p = psd_da(S, f, ['range', 'time'][2 - (nd - 1):], {})
        B = ADVBinner(2 * n, 8.) if rng.random() < .5 and nd < 3 else ADPBinner(2 * n, 8.)
        with ctx.observe('slope', dict(m=m, b=b, fr=fr, units=units, shape=S.shape)):
            r = ctx.call(B.check_turbulence_cascade_slope, p, freq_range=fr, pure=True)
            ctx.close(r[0], m, 'slope', 'slope', rtol=1e-4, atol=1e-4)
            ctx.close(r[1], b, 'intercept', 'intercept', rtol=1e-4, atol=1e-4)
    for rng in ctx.cases('refuse', ctx.n(4, 20)):
        f = freq_da(32, 8., 'Hz')
        p = psd_da(np.ones((2, 16)), f, ['time'], dict(time=synth.times(2, 1)))
        with ctx.observe('refuse', dict(i=int(rng.integers(99)))):
            U = xr.DataArray(np.ones(3), dims=['time'], coords=dict(time=synth.times(3, 1)))
            ctx.expect_raises('unaveraged-speed-accepted', Exception, ADVBinner(32, 8.).calc_epsilon_LT83, p, U)
            ctx.expect_raises('bad-window-accepted', Exception, ADVBinner(32, 8.).calc_epsilon_LT83, p, U[:2], freq_range=[1, 2, 3])
            ctx.expect_raises('1d-psd-accepted', Exception, ADPBinner(32, 8.).calc_dissipation_LT83, p[0], U[:2])
            ctx.expect_raises('3d-sf-accepted', Exception, ADPBinner(2, 8.).calc_dissipation_SF, xr.concat([p, p], 'range'))
