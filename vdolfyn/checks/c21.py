"""C21: cross-spectra, coherence and phase."""
import numpy as np
import xarray as xr
from dolfyn import VelBinner
from dolfyn.adv.api import ADVBinner
from dolfyn.tools import psd as tp
from .. import synth, binmodel as bm

RULE = ('Random signal pairs (independent, mixed, linearly related, delayed; equal and different lengths), FFT lengths, windows, noise levels, binner overrides, judged against a direct evaluation of the documented estimators and '
        'by symmetry, gain invariance, unit coherence, delay-phase and bin isolation. Non-trivial: more than one segment.')
FILES = ['dolfyn/tools/psd.py', 'dolfyn/binned.py', 'dolfyn/velocity.py']


def win(rng, nfft):
    return ['hann', 'hamm', None, 1, 'hann', rng.uniform(.5, 1, nfft)][int(rng.integers(6))]


def pair(rng, n, m=None):
    z = synth.colored(rng, n, -rng.uniform(0, 1.2))
    a = z + rng.uniform(.1, 1) * rng.normal(size=n)
    if m is None or m == n:
        b = rng.normal() * z + rng.uniform(.1, 1) * rng.normal(size=n)
    else:
        b = np.interp(np.linspace(0, n - 1, m), np.arange(n), z) + rng.uniform(.1, 1) * rng.normal(size=m)
    return a * 10 ** rng.uniform(-2, 2), b * 10 ** rng.uniform(-2, 2)


def run(ctx):
    for rng in ctx.cases('pair', ctx.n(140, 2500)):
        n = int(rng.integers(24, 300))
        m = n if rng.random() < .6 else int(rng.integers(24, 300))
        nfft = int(rng.integers(4, min(n, m) + 1))
        a, b = pair(rng, n, m)
        w = win(rng, nfft)
        fs = float(10 ** rng.uniform(-1, 2))
        step = int(rng.integers(1, nfft + 4)) if rng.random() < .3 and n == m and nfft < n else None
        g = float(10 ** rng.uniform(-2, 2) * rng.choice([-1, 1]))
        noise = [0, 0]
        if rng.random() < .4:
            noise = [float(a.std() * rng.uniform(0, .05)), float(b.std() * rng.uniform(0, .05))]
        debias = bool(rng.integers(2))
        with ctx.observe('pair', dict(n=n, m=m, nfft=nfft, window=w, fs=fs, step=step, noise=noise, debias=debias, a=a, b=b),
                         nontrivial=nfft < min(n, m)):
            cross = (lambda x, y: ctx.call(tp.cpsd, x, y, nfft, fs, window=w, step=step, pure=True)) if n == m else \
                (lambda x, y: ctx.call(tp.cpsd_quasisync, x, y, nfft, fs, window=w, pure=True))
            want = bm.cpsd(a, b, nfft, fs, w, step) if n == m else bm.xspec(a, b, nfft, fs, w)
            s = np.abs(want).max()
            lev = np.sqrt(np.abs(bm.cpsd(a, a, nfft, fs, w)).max() * np.abs(bm.cpsd(b, b, nfft, fs, w)).max())
            r = cross(a, b)
            ctx.close(r, want, 'cpsd-definition', 'cross spectrum', rtol=1e-8, atol=1e-10 * lev)
            ctx.close(cross(b, a), np.conj(want), 'cpsd-conjugate', 'cross spectrum of swapped inputs', rtol=1e-8, atol=1e-10 * lev)
            ctx.close(cross(a * g, b + 3 * b.std()), g * want, 'cpsd-gain', 'cross spectrum after gain and offset', rtol=1e-6, atol=1e-9 * lev * abs(g))
            if n == m:
                ctx.close(ctx.call(tp.cpsd_quasisync, a, b, nfft, fs, window=w), bm.cpsd(a, b, nfft, fs, w), 'quasisync-equal',
                          'cpsd_quasisync of equal lengths', rtol=1e-8, atol=1e-10 * lev)
                p = ctx.call(tp.psd, a, nfft, fs, window=w, step=step)
                ctx.close(ctx.call(tp.cpsd, a, a.copy(), nfft, fs, window=w, step=step), p, 'cpsd-self', 'cross spectrum of a signal with itself',
                          rtol=1e-8, atol=1e-10 * p.max())
                ctx.close(ctx.call(tp.cpsd, a, a, nfft, fs, window=w, step=step), p, 'cpsd-self', 'cross spectrum of a signal with itself', rtol=1e-8, atol=1e-10 * p.max())
                ph = ctx.call(tp.phase_angle, a, b, nfft, window=w, step=step, pure=True)
                ctx.close(ph, bm.phase(a, b, nfft, w, step), 'phase-definition', 'phase angle', rtol=0, atol=1e-5)
                ctx.check((np.abs(ph) <= 1 + 1e-9).all(), 'phase-magnitude', 'phase angle magnitude above 1')
                ctx.close(ctx.call(tp.phase_angle, b, a, nfft, window=w, step=step), np.conj(ph), 'phase-swap', 'phase of swapped inputs', rtol=0, atol=1e-5)
                ctx.close(ctx.call(tp.phase_angle, a, a * abs(g), nfft, window=w, step=step), np.ones(len(ph)), 'phase-self',
                          'phase of a signal with itself', rtol=0, atol=1e-6)
            if int(2. * min(n, m) / nfft) > 2 and min(n, m) > nfft:
                c = ctx.call(tp.coherence, a, b, nfft, window=w, debias=debias, noise=noise, pure=True)
                ctx.close(c, bm.coherence(a, b, nfft, w, debias, noise), 'coherence-definition', 'coherence', rtol=1e-6, atol=1e-6)
                one = [float(np.sqrt(noise[0] * noise[1]))]
                for form in (one, one[0], np.array(one), np.array(one * 2), tuple(one * 2)):
                    ctx.close(ctx.call(tp.coherence, a, b, nfft, window=w, debias=debias, noise=form), bm.coherence(a, b, nfft, w, debias, one * 2),
                              'coherence-noise-form', 'coherence with noise=%r' % (form,), rtol=1e-6, atol=1e-6)
                ctx.close(ctx.call(tp.coherence, b, a, nfft, window=w, debias=debias, noise=noise[::-1]), c, 'coherence-symmetric', 'coherence of swapped inputs', rtol=1e-6, atol=1e-6)
                if n == m:
                    q = ctx.call(tp.coherence, a, b, nfft, window=w, debias=False)
                    ctx.check((q >= 0).all() and (q <= 1 + 1e-9).all(), 'coherence-range', 'coherence outside [0,1]: %s..%s' % (q.min(), q.max()))
                    ctx.close(ctx.call(tp.coherence, a * g + a.std(), b, nfft, window=w, debias=False), q, 'coherence-gain', 'coherence after a gain', rtol=1e-5, atol=1e-7)
                    one = ctx.call(tp.coherence, a, g * a + a.std(), nfft, window=w, debias=debias)
                    ctx.close(one, np.ones(len(one)), 'coherence-linear', 'coherence of linearly related signals', rtol=1e-6)
            elif min(n, m) > nfft:
                ctx.expect_raises('few-ensembles-accepted', Exception, tp.coherence, a, b, nfft, window=w)
    for rng in ctx.cases('delay', ctx.n(30, 400)):
        nfft = int(rng.choice([64, 128, 100]))
        d = int(rng.integers(1, nfft // 20 + 1))
        n = nfft * 30
        z = rng.normal(size=n + d)
        a, b = z[d:], z[:n]       # b(t) = a(t - d)
        with ctx.observe('delay', dict(nfft=nfft, d=d)):
            f = bm.freqs(nfft, 1.)
            want = np.exp(-2j * np.pi * f * d)
            p = ctx.call(tp.phase_angle, a, b, nfft)
            e = np.abs(np.angle(p * np.conj(want)))[2:-2]
            ctx.check(e.max() < .45 and e.mean() < .1, 'delay-phase', 'phase error of a %d-sample delay: max %.3f mean %.3f' % (d, e.max(), e.mean()))
            c = ctx.call(tp.cpsd, b, a, nfft, 1.)
            e = np.abs(np.angle(c * np.conj(want)))[2:-2]
            ctx.check(e.max() < .45 and e.mean() < .1, 'delay-csd', 'cross-spectral phase error of a delay: max %.3f mean %.3f' % (e.max(), e.mean()))
            q = ctx.call(tp.coherence, a, b, nfft)[2:-2]
            ctx.check(q.min() > .5, 'delay-coherence', 'coherence of a delayed copy is %.3f' % q.min())
            q = ctx.call(tp.coherence, a, rng.normal(size=n), nfft)
            ctx.check(abs(q.mean()) < .08, 'independent-coherence', 'mean coherence of independent noise %.3f' % q.mean())
    for rng in ctx.cases('binned', ctx.n(80, 1300)):
        own = int(rng.integers(12, 80))
        nb = own if rng.random() < .6 else int(rng.integers(12, 80))
        nfft = int(rng.integers(6, nb + 1))
        k = int(rng.integers(1, 5))
        nt = nb * k + int(rng.integers(0, nb))
        fs = float(rng.choice([1, 2, 16]))
        nd = int(rng.integers(1, 3))
        dt = str(rng.choice(['f4', 'f8']))
        lead = () if nd == 1 else (2,)
        ab = [pair(rng, nt) for _ in range(2 if nd == 2 else 1)]
        a = np.array([p[0] for p in ab]).astype(dt).reshape(lead + (nt,))
        b = np.array([p[1] for p in ab]).astype(dt).reshape(lead + (nt,))
        ratio = 1
        t2 = synth.times(nt, fs)
        t1 = t2
        if rng.random() < .3:
            # quasi-synchronous: the first record is sampled faster (integer ratio)
            ratio = int(rng.integers(2, 4))
            up = np.linspace(0, nt - 1, nt * ratio)
            a = np.apply_along_axis(lambda y: np.interp(up, np.arange(nt), y), -1, a).astype(dt) + .1 * a.std() * rng.normal(size=lead + (nt * ratio,)).astype(dt)
            t1 = synth.times(nt * ratio, fs * ratio)
        dims = ['dir', 'time'][-nd:]
        mk = lambda x, t: xr.DataArray(x, dims=dims, coords={**({'dir': ['E', 'N']} if nd == 2 else {}), 'time': t})
        A, B = mk(a, t1), mk(b, t2)
        w = win(rng, nfft)
        kw, bkw = {}, {}
        if nb != own:
            kw['n_bin'] = nb
            kw['n_fft_coh'] = nfft
        elif rng.random() < .5:
            kw['n_fft_coh'] = nfft
        else:
            bkw[str(rng.choice(['n_fft_coh', 'n_fft']))] = nfft     # n_fft_coh defaults to n_fft
        debias = bool(rng.integers(2))
        noise = (0, 0) if rng.random() < .6 else (float(a.std() * .03), float(b.std() * .02))
        with ctx.observe('binned', dict(own=own, nb=nb, nfft=nfft, k=k, fs=fs, ratio=ratio, dtype=dt, window=w, a=a, b=b), nontrivial=k > 1):
            bn = VelBinner(own, fs, **bkw)
            nb1 = nb * ratio
            sa, sb = bm.bins(a, nb1, nfft).astype(float), bm.bins(b, nb, nfft).astype(float)
            tol = 3e-3 if dt == 'f4' else 2e-6
            each = lambda fn: np.array([fn(x, y) for x, y in zip(sa.reshape(-1, sa.shape[-1]), sb.reshape(-1, sb.shape[-1]))]).reshape(sb.shape[:-1] + (-1,))
            r = ctx.call(bn.calc_coh, A, B, window=w, debias=debias, noise=noise, pure=True, **kw)
            ctx.close(r, each(lambda x, y: bm.coherence(x, y, nfft, w, debias, noise)), 'binned-coherence', 'binned coherence', rtol=tol, atol=tol)
            fr = bm.freqs(nfft, fs)
            tw = bm.bmean(t2, nb)
            todo = [('coh', r)]
            p = ctx.call(bn.calc_phase_angle, A, B, window=w, pure=True, **kw)
            ctx.close(p, each(lambda x, y: bm.phase(x, y, nfft, w)), 'binned-phase', 'binned phase', rtol=0, atol=30 * tol if dt == 'f4' else 1e-4)
            todo.append(('phase', p))
            for nm, r in todo:
                ctx.close(r['f'], fr, 'binned-freq', nm + ' frequency coordinate', rtol=1e-9)
                ctx.check(len(r['time']) == k and np.abs((r['time'].values.astype('M8[ns]') - tw).astype('int64')).max() < 5000,
                          'binned-time', nm + ' times')
            if nd == 1:
                c = np.asarray(ctx.call(bn.calc_csd_base, a, b, window=w, fs=fs, n_fft=nfft, n_bin=kw.get('n_bin'), pure=True))
                want = each(lambda x, y: bm.xspec(x, y, nfft, fs, w))
                lev = np.sqrt(np.array([[bm.cpsd(x, x, nfft, fs, w).real.max() for x in s] for s in (sa, sb)]).max(1).prod())
                ctx.close(c, want, 'binned-csd-base', 'binned cross spectrum', rtol=tol, atol=1e-5 * lev)
            if ratio == 1 and k > 2 and nd == 1:
                # bins further away than the overlap do not matter
                A2 = A.copy(deep=True)
                A2.values[..., 2 * nb:] = rng.normal(size=A2.values[..., 2 * nb:].shape)
                o = ctx.call(bn.calc_coh, A2, B, window=w, debias=debias, noise=noise, **kw)
                ctx.eq(o.values[0], r.values[0] if nm == 'coh' else todo[0][1].values[0], 'isolation', 'first bin after changing distant bins')
    for rng in ctx.cases('unequal', ctx.n(40, 500)):
        # record lengths in no simple ratio, and bins of a non-integer length
        nb = int(rng.integers(12, 60))
        nfft = int(rng.integers(6, nb // 2 + 1))
        k = int(rng.integers(1, 5))
        n2 = nb * k + int(rng.integers(0, nb))
        n1 = n2 + int(rng.integers(1, n2 + 20))
        nonint = rng.random() < .4
        nbf = nb + .5 if nonint else nb
        if nonint:
            n1 = n2 = n2 + nb + 1
            k = int(n2 // nbf)
        a, b = pair(rng, n1, n2)
        t1, t2 = synth.times(n1, 2. * n1 / n2), synth.times(n2, 2.)
        A, B = (xr.DataArray(y, dims=['time'], coords=dict(time=t)) for y, t in ((a, t1), (b, t2)))
        with ctx.observe('unequal', dict(nb=nbf, nfft=nfft, n1=n1, n2=n2, a=a, b=b), nontrivial=k > 1):
            bn = VelBinner(nbf, 2., n_fft_coh=nfft)
            if nonint:
                i = bn.reshape(np.arange(n2))
                ia = ib = i
            else:
                nb1 = int(n1 * nb / n2)       # the same time span in each record's own samples
                ia, ib = (np.arange(n // q * q).reshape(-1, q) for n, q in ((n1, nb1), (n2, nb)))
            kk = min(len(ia), len(ib))

            def padded(x, rows):
                p0, p1 = nfft // 2, (nfft + 1) // 2
                o = np.zeros((len(rows), rows.shape[1] + nfft))
                o[:, p0:p0 + rows.shape[1]] = x[rows]
                o[1:, :p0] = x[rows][:-1, rows.shape[1] - p0:]
                o[:-1, o.shape[1] - p1:] = x[rows][1:, :p1]
                return o[:kk]
            sa, sb = padded(a, ia), padded(b, ib)
            c = ctx.call(bn.calc_coh, A, B, debias=False, pure=True)
            ctx.close(c.values, np.array([bm.coherence(x, y, nfft, 'hann', False, [0, 0]) for x, y in zip(sa, sb)]), 'unequal-coherence', 'coherence',
                      rtol=1e-4, atol=1e-5)
            want = np.array([bm.xspec(x, y, nfft, 2., 'hann') if len(x) != len(y) else bm.cpsd(x, y, nfft, 2., 'hann') for x, y in zip(sa, sb)])
            p = ctx.call(bn.calc_phase_angle, A, B, pure=True)
            ctx.close(p.values, np.array([bm.phase(x, y, nfft) for x, y in zip(sa, sb)]), 'unequal-phase', 'phase', rtol=0, atol=1e-4)
            ctx.check(p.dims[-2:] == ('time', 'f') and len(p['time']) == k, 'unequal-bins', '%s phases' % (p.shape,))
            r = np.asarray(ctx.call(bn.calc_csd_base, a, b, n_fft=nfft, pure=True))
            ctx.close(r, want, 'unequal-csd', 'cross spectrum', rtol=1e-6, atol=1e-8 * np.abs(want).max())
            ctx.check(c.shape[0] == len(c['time']) == k, 'unequal-bins', 'bins %s for %d, %d samples' % (c.shape, n1, n2))
    for rng in ctx.cases('csd', ctx.n(50, 800)):
        own = int(rng.integers(12, 80))
        nb = own if rng.random() < .6 else int(rng.integers(12, 80))
        nfft = int(rng.integers(6, nb + 1))
        k = int(rng.integers(1, 5))
        nt = nb * k + int(rng.integers(0, nb))
        fs = float(rng.choice([1, 2, 16]))
        a, b = pair(rng, nt)
        x = np.array([a, b, .5 * a + b + rng.normal(size=nt)]).astype(str(rng.choice(['f4', 'f8'])))
        units = str(rng.choice(['Hz', 'rad/s', 'rad']))
        w = win(rng, nfft)
        kw, bkw = {}, {}
        if nb != own:
            kw['n_bin'] = nb
            kw['n_fft_coh'] = nfft
        elif rng.random() < .5:
            kw['n_fft_coh'] = nfft
        else:
            bkw[str(rng.choice(['n_fft_coh', 'n_fft']))] = nfft
        fsu = fs
        if rng.random() < .2:
            fsu = kw['fs'] = fs * 2
        t = synth.times(nt, fs)
        da = xr.DataArray(x, dims=['dir', 'time'], coords=dict(dir=['X', 'Y', 'Z'], time=t))
        with ctx.observe('csd', dict(own=own, nb=nb, nfft=nfft, k=k, fs=fs, units=units, window=w, x=x), nontrivial=k > 1):
            r = ctx.call(ADVBinner(own, fs, **bkw).calc_csd, da, freq_units=units, window=w, pure=True, **kw)
            fsr = fsu * 2 * np.pi if 'rad' in units else fsu
            s = bm.bins(x, nb, nfft).astype(float)
            ctx.check(r.dims == ('C', 'time', 'coh_freq') and list(r['C'].values) == ['Cxy', 'Cxz', 'Cyz'], 'csd-dims', '%s %s' % (r.dims, r['C'].values))
            for c, (i, j) in enumerate([(0, 1), (0, 2), (1, 2)]):
                want = np.array([bm.cpsd(p, q, nfft, fsr, w) for p, q in zip(s[i], s[j])])
                lev = np.sqrt(np.prod([max(bm.cpsd(p, p, nfft, fsr, w).real.max() for p in s[q]) for q in (i, j)]))
                ctx.close(r.values[c], want, 'csd-definition', 'cross spectrum %s' % r['C'].values[c], rtol=1e-4, atol=1e-5 * lev)
            ctx.close(r['coh_freq'], bm.freqs(nfft, fsu, units), 'csd-freq', 'frequency coordinate', rtol=1e-6)
            ctx.check(('rad' in r['coh_freq'].attrs['units']) == ('rad' in units) and ('rad' in r.attrs['units']) == ('rad' in units), 'csd-units', 'units')
            tw = bm.bmean(t, nb)
            ctx.check(np.abs((r['time'].values.astype('M8[ns]') - tw).astype('int64')).max() < 5000, 'csd-time', 'bin times')
            ctx.check(r.attrs['n_fft_coh'] == nfft, 'csd-nfft', 'n_fft_coh attribute')
