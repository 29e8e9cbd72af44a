"""C20: power spectra."""
import warnings
import numpy as np
import xarray as xr
from dolfyn import VelBinner
from dolfyn.adp.api import ADPBinner
from dolfyn.adv.api import ADVBinner
from dolfyn.tools import psd as tp
from .. import synth, binmodel as bm

RULE = ('Random signals (white, red, sines, steps, spikes, ramps), FFT lengths, windows (names, none, custom), steps, sampling rates and binner overrides, judged against a direct O(n^2) evaluation of the documented estimator and, independently, '
        'by Parseval, peak position, amplitude scaling, offset/trend/sign invariance, Hz-rad equivalence, and bin isolation. Non-trivial: more than one FFT segment or bin.')
FILES = ['dolfyn/tools/psd.py', 'dolfyn/binned.py', 'dolfyn/velocity.py']


def win(rng, nfft, custom=True):
    k = int(rng.integers(7 if custom else 6))
    return ['hann', 'hamm', None, 1, 'hann', 1., rng.uniform(.5, 1, nfft)][k]


def run(ctx):
    for rng in ctx.cases('psd', ctx.n(160, 3000)):
        n = int(rng.integers(8, 300))
        nfft = int(rng.integers(4, n + 1)) if rng.random() < .9 else n + int(rng.integers(0, 9))
        x = synth.signal(rng, n)
        w = win(rng, nfft, nfft <= n)
        fs = float(10 ** rng.uniform(-1, 2))
        step = int(rng.integers(1, nfft + 4)) if rng.random() < .4 and nfft < n else None
        with ctx.observe('psd', dict(n=n, nfft=nfft, window=w, fs=fs, step=step, x=x), nontrivial=nfft < n):
            r = np.asarray(ctx.call(tp.psd, x, nfft, fs, window=w, step=step, pure=True))
            want = np.abs(bm.cpsd(x, x, nfft, fs, w, step))
            tol = 1e-8 * want.max() + 1e-24 * np.abs(x).max() ** 2 * n / fs
            ctx.close(r, want, 'psd-definition', 'psd', rtol=1e-7, atol=tol)
            ctx.check((r >= 0).all(), 'psd-negative', 'negative spectral density')
            f = ctx.call(tp.psd_freq, min(nfft, n), fs)
            ctx.close(f, bm.freqs(min(nfft, n), fs), 'psd-freq', 'frequency vector', rtol=1e-12)
            ctx.check(len(f) == len(r), 'psd-freq-length', 'len(freq)=%d, len(psd)=%d' % (len(f), len(r)))
            g = 10 ** rng.uniform(-3, 3) * rng.choice([-1, 1])
            y = g * x + rng.normal() * np.abs(x).max() + rng.normal() * np.arange(n) * np.abs(x).max() / n
            r2 = np.asarray(ctx.call(tp.psd, y, nfft, fs, window=w, step=step))
            sc = (np.abs(y).max() / abs(g)) ** 2 * n / fs
            ctx.close(r2 / g ** 2, want, 'psd-scaling', 'spectrum of gain*x + offset + trend', rtol=1e-6, atol=tol + 1e-20 * sc + 1e-9 * want.max())
            if step is None:
                st, ne, nf = ctx.call(tp.stepsize, n, nfft)
                ctx.check(nf == min(nfft, n) and ne >= 1, 'stepsize', 'stepsize(%d,%d)=%s' % (n, nfft, (st, ne, nf)))
                if n > nfft:
                    ctx.check(0 < st <= max(1, (nfft + 1) // 2) and (ne - 1) * st + nf <= n and n - ((ne - 1) * st + nf) < ne - 1 or ne == 1,
                              'stepsize-coverage', 'stepsize(%d,%d)=%s' % (n, nfft, (st, ne, nf)))
    for rng in ctx.cases('parseval', ctx.n(60, 900)):
        n = int(rng.integers(4, 150)) * 2 + 1
        x = synth.signal(rng, n, str(rng.choice(['white', 'red', 'sine', 'spiky'])))
        fs = float(10 ** rng.uniform(-1, 2))
        with ctx.observe('parseval', dict(n=n, fs=fs, x=x)):
            r = np.asarray(ctx.call(tp.psd, x, n, fs, window=None))
            d = bm.line_resid(x)
            ctx.close(r.sum() * fs / n, np.mean(d ** 2), 'parseval', 'integral of the spectrum vs variance', rtol=1e-9)
    for rng in ctx.cases('welch-variance', ctx.n(12, 120)):
        nfft = int(rng.choice([32, 64, 50]))
        x = rng.normal(0, 1, 20000)
        fs = float(10 ** rng.uniform(-1, 2))
        w = win(rng, nfft)
        with ctx.observe('welch-variance', dict(nfft=nfft, fs=fs, window=w)):
            r = np.asarray(ctx.call(tp.psd, x, nfft, fs, window=w))
            ctx.close(r[1:-1].mean() * fs / 2, 1., 'white-level', 'white-noise spectral level times fs/2', rtol=.06)
    for rng in ctx.cases('peak', ctx.n(40, 600)):
        nfft = int(rng.integers(32, 200))
        n = nfft * int(rng.integers(2, 6)) + int(rng.integers(0, 20))
        fs = float(10 ** rng.uniform(-1, 2))
        k = int(rng.integers(4, nfft // 2 - 4))
        A = 10 ** rng.uniform(-2, 2)
        x = A * np.sin(2 * np.pi * k / nfft * np.arange(n) + rng.uniform(0, 6.28)) + A * .01 * rng.normal(size=n)
        with ctx.observe('peak', dict(nfft=nfft, n=n, fs=fs, k=k, A=A)):
            r = np.asarray(ctx.call(tp.psd, x, nfft, fs))
            f = np.asarray(ctx.call(tp.psd_freq, nfft, fs))
            i = int(r.argmax())
            ctx.close(f[i], k * fs / nfft, 'peak-frequency', 'frequency of the spectral peak', rtol=1e-9)
            s = slice(max(0, i - 3), i + 4)
            ctx.close(r[s].sum() * fs / nfft, A * A / 2, 'peak-power', 'power of a sinusoid', rtol=.08)
    for rng in ctx.cases('binned', ctx.n(110, 1800)):
        own = int(rng.integers(8, 90))
        nb = own if rng.random() < .6 else int(rng.integers(8, 90))
        nfft = int(rng.integers(4, nb + 1))
        k = int(rng.integers(1, 5))
        nt = nb * k + int(rng.integers(0, nb))
        fs = float(rng.choice([1, 2, 4, 16, 32]))
        three = rng.random() < .5
        x = np.stack([synth.signal(rng, nt) for _ in range(3)]).astype(str(rng.choice(['f4', 'f8'])))
        units = str(rng.choice(['Hz', 'rad/s', 'rad']))
        cls = [VelBinner, ADVBinner, ADPBinner][int(rng.integers(3))]
        tn = 'time' if three or rng.random() < .7 else 'time_b5'
        t = synth.times(nt, fs)
        da = xr.DataArray(x, dims=['dir', tn], coords={'dir': ['X', 'Y', 'Z'], tn: t}) if three else \
            xr.DataArray(x[0], dims=[tn], coords={tn: t})
        bkw, kw = {}, {}
        if nb != own:
            kw['n_bin'] = nb
            kw['n_fft'] = nfft
        elif rng.random() < .5:
            kw['n_fft'] = nfft
        else:
            bkw['n_fft'] = nfft
        pad = min(nb - nfft, nfft)
        if rng.random() < .3:
            pad = kw['n_pad'] = int(rng.choice([0, nfft // 2]))
        step = None
        if rng.random() < .25 and nb + pad > nfft:
            step = kw['step'] = int(rng.integers(1, nfft + 1))
        fsu = fs
        if rng.random() < .2:
            fsu = kw['fs'] = fs * 2
        w = 'hann'
        if rng.random() < .6:
            w = kw['window'] = win(rng, nfft)
        noise = None
        sd = np.array([np.nanstd(y) for y in x])
        if rng.random() < .5:
            noise = (sd * rng.uniform(0, .4, 3)).astype(float)
            if rng.random() < .2:
                noise = noise * 4
            kw['noise'] = noise if three else float(noise[0])
            if three and rng.random() < .4:
                kw['noise'] = list(noise) if rng.random() < .5 else xr.DataArray(noise, dims=['dir'])
        with ctx.observe('binned', dict(own=own, nb=nb, nfft=nfft, nt=nt, fs=fs, units=units, three=three, kw={k: str(v)[:60] for k, v in kw.items()}, x=x),
                         nontrivial=k > 1):
            b = cls(own, fs, **bkw)
            r = ctx.call(b.calc_psd, da, pure=True, freq_units=units, **kw)
            fsr = fsu * 2 * np.pi if 'rad' in units else fsu
            fr = bm.freqs(nfft, fsu, units)
            ctx.check(r.dims == (('S',) if three else ()) + (tn, 'freq'), 'binned-dims', 'dims %s' % (r.dims,))
            ctx.close(r['freq'], fr, 'binned-freq', 'frequency coordinate', rtol=1e-6)
            ctx.check(('rad' in r['freq'].attrs['units']) == ('rad' in units) and ('Hz' in r['freq'].attrs['units']) == (units == 'Hz'),
                      'binned-units', 'frequency units %r' % r['freq'].attrs.get('units'))
            ctx.check(('rad' in r.attrs['units']) == ('rad' in units), 'binned-units', 'spectral units %r' % r.attrs.get('units'))
            ctx.check(r.attrs['n_fft'] == nfft, 'binned-nfft', 'n_fft attribute %s, used %s' % (r.attrs['n_fft'], nfft))
            tw = bm.bmean(t, nb)
            ctx.check(len(r[tn]) == k and np.abs((r[tn].values.astype('M8[ns]') - tw).astype('int64')).max() < 5000,
                      'binned-time', lambda: 'times %s, expected %s' % (r[tn].values[:2], tw[:2]))
            comps = range(3) if three else [0]
            for c in comps:
                seg = bm.bins(x[c], nb, pad)
                want = np.array([np.abs(bm.cpsd(s, s, nfft, fsr, w, step)) for s in seg])
                got = (r.values[c] if three else r.values).astype(float)
                ctx.check(got.shape == want.shape, 'binned-shape', 'shape %s, expected %s' % (got.shape, want.shape))
                lev = want.max()
                fl = 1e-5 if x.dtype == np.float32 else 2e-7
                # rounding of the samples (single precision in, or out): white noise of eps * max|x|
                nf = (np.finfo(x.dtype).eps * np.abs(x[c]).max()) ** 2 * 8 / fsr
                scl = fl * lev + 8 * np.sqrt(want * nf) + 10 * nf
                if noise is not None:
                    want = want - float(noise[c]) ** 2 / (fsr / 2)
                    pos = want > 3 * scl
                    ctx.check((got >= 0).all(), 'noise-negative', 'negative spectral density after noise removal')
                    ctx.close(np.where(pos, got, 0), np.where(pos, want, 0), 'noise-removal', 'spectrum less noise', rtol=1e-5, atol=scl)
                    neg = want < -3 * scl
                    ctx.check((got[neg] > 0).all() or np.abs(want).min() < 10 * scl.max(), 'noise-zero', 'bins below the noise level are not positive')
                    ctx.check((got[neg] <= np.abs(want).min() / 50 + scl[neg]).all(), 'noise-floor',
                              'bins below the noise level are not reduced to (nearly) zero')
                else:
                    ctx.close(got, want, 'binned-definition', 'binned spectrum, component %d' % c, rtol=1e-5, atol=scl)
                ctx.check((got >= 0).all(), 'binned-negative', 'negative spectral density')
            if 'fs' not in kw and 'noise' not in kw:
                o = ctx.call(b.calc_psd, da, freq_units='Hz' if 'rad' in units else 'rad/s', **kw)
                f1, f2 = r['freq'].values.astype(float), o['freq'].values.astype(float)
                ctx.close(r.values * f1[0], o.values * f2[0], 'hz-rad', 'spectral density times bandwidth, Hz vs rad/s', rtol=1e-4,
                          atol=1e-5 * float(np.abs(o.values).max()) * f2[0])
            if pad == 0 and k > 1 and noise is None:
                i = int(rng.integers(k))
                y = da.copy(deep=True)
                m = np.ones(nt, bool)
                m[i * nb:(i + 1) * nb] = False
                y.values[..., m] = rng.normal(0, 5, y.values[..., m].shape)
                o = ctx.call(b.calc_psd, y, freq_units=units, **kw)
                ctx.close(o.values[..., i, :], r.values[..., i, :], 'isolation', 'bin %d after changing only other bins' % i, rtol=1e-6)
    for rng in ctx.cases('settings', ctx.n(40, 400)):
        # what a binner settles on: FFT no longer than the bin, defaults, and the frequency vector it hands out
        nb = int(rng.integers(8, 60))
        kw = {}
        if rng.random() < .7:
            kw['n_fft'] = int(rng.integers(4, 2 * nb))
        if rng.random() < .6:
            kw['n_fft_coh'] = int(rng.integers(4, 2 * nb))
        fs = float(rng.choice([1, 4, .5, 32]))
        units = str(rng.choice(['Hz', 'rad/s', 'rad']))
        nf = min(kw.get('n_fft', nb), nb)
        nc = min(kw.get('n_fft_coh', nf), nb)
        with ctx.observe('settings', dict(nb=nb, kw=kw, fs=fs, units=units), nontrivial=bool(kw)):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                b = [VelBinner, ADVBinner, ADPBinner][int(rng.integers(3))](nb, fs, **kw)
            ctx.check((b.n_bin, b.n_fft, b.n_fft_coh, b.fs) == (nb, nf, nc, fs), 'settings',
                      lambda: 'n_bin=%r, %r gives n_fft=%r n_fft_coh=%r' % (nb, kw, b.n_fft, b.n_fft_coh))
            said = any('n_fft' in str(x.message) for x in ws)
            ctx.check(said == (kw.get('n_fft', 0) > nb or kw.get('n_fft_coh', 0) > nb), 'settings-warning', lambda: 'warnings %s for %r (n_bin=%d)' % ([str(x.message) for x in ws], kw, nb))
            for coh in (False, True):
                f = ctx.call(b.calc_freq, units=units, coh=coh)
                ctx.close(f, bm.freqs(nc if coh else nf, fs, units), 'calc_freq', 'calc_freq(coh=%s)' % coh, rtol=1e-9)
            ov = int(rng.integers(4, 80))
            ctx.close(ctx.call(b.calc_freq, fs=fs * 3, units=units, n_fft=ov, coh=bool(rng.integers(2))), bm.freqs(ov, fs * 3, units), 'calc_freq-override',
                      'calc_freq with fs and n_fft', rtol=1e-9)
            x = rng.normal(size=nb * 3)
            da = xr.DataArray(x, dims=['time'], coords=dict(time=synth.times(nb * 3, fs)))
            over = int(rng.integers(nb + 1, 3 * nb))
            r = ctx.call(b.calc_psd, da, freq_units='Hz', n_fft=over)
            w = ctx.call(VelBinner(nb, fs).calc_psd, da, freq_units='Hz')
            ctx.close(r.values, w.values, 'nfft-over', 'spectrum with n_fft=%d > n_bin=%d' % (over, nb), rtol=1e-6)
            ctx.close(r['freq'], w['freq'], 'nfft-over', 'frequencies with n_fft=%d > n_bin=%d' % (over, nb), rtol=1e-6)
    for rng in ctx.cases('nonint', ctx.n(25, 300)):
        ib = int(rng.integers(8, 60))
        nb = ib + float(rng.choice([.1, .25, .5, .9]))
        nfft = int(rng.integers(4, ib + 1))
        x = synth.signal(rng, int(rng.integers(ib + 1, 900)))
        da = xr.DataArray(x, dims=['time'], coords=dict(time=synth.times(len(x), 2.)))
        with ctx.observe('nonint', dict(nb=nb, nfft=nfft, x=x), nontrivial=len(x) > 2 * nb):
            b = VelBinner(nb, 2., n_fft=nfft)
            rows = b.reshape(np.arange(len(x)))
            r = ctx.call(b.calc_psd, da, freq_units='Hz', n_pad=0, pure=True)
            want = np.array([np.abs(bm.cpsd(y, y, nfft, 2., 'hann')) for y in x[rows]])
            ctx.check(r.shape == want.shape, 'nonint-shape', lambda: 'shape %s, expected %s' % (r.shape, want.shape))
            ctx.close(r.values, want, 'nonint-psd', 'spectrum for a non-integer bin length', rtol=1e-5, atol=1e-6 * want.max())
            p = ctx.call(b.calc_psd, da, freq_units='Hz', pure=True)
            ctx.check(p.shape == want.shape and np.isfinite(p.values).all(), 'nonint-pad', lambda: 'padded spectrum: shape %s' % (p.shape,))
    for rng in ctx.cases('refuse', ctx.n(6, 40)):
        x = rng.normal(size=(3, 40))
        da = xr.DataArray(x, dims=['dir', 'time'], coords=dict(dir=['X', 'Y', 'Z'], time=synth.times(40, 2)))
        with ctx.observe('refuse', dict(x=x)):
            b = VelBinner(20, 2)
            ctx.expect_raises('bad-units-accepted', Exception, b.calc_psd, da, freq_units='cycles')
            ctx.expect_raises('4-comp-accepted', Exception, b.calc_psd, xr.concat([da, da], 'dir'))
            ctx.expect_raises('noise-shape-accepted', Exception, b.calc_psd, da, noise=np.array([1., 2.]))
            ctx.expect_raises('noise-shape-accepted', Exception, b.calc_psd, da[0], noise=np.array([1., 2.]))
            ctx.expect_raises('complex-accepted', Exception, tp.psd, x[0] + 1j, 20, 2)
            ctx.expect_raises('bad-window-accepted', Exception, tp.psd, x[0], 20, 2, window='box')
            ctx.expect_raises('bad-window-accepted', Exception, tp.psd, x[0], 20, 2, window=np.ones(19))
