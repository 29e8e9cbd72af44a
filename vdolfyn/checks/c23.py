"""C23: TKE, Reynolds stresses, turbulence intensity."""
import numpy as np
import xarray as xr
from dolfyn import VelBinner
from dolfyn.adp.api import ADPBinner
from dolfyn.adv.api import ADVBinner, calc_turbulence
from .. import synth, binmodel as bm

RULE = ('Random 3-component, single-beam and profile velocity with NaNs, noise given in every documented form, detrended or demeaned, judged bin by bin against the (co)variances; turbulence intensity incl. threshold; '
        'the ADV shortcut against its parts and the references. Non-trivial: at least two bins.')
FILES = ['dolfyn/velocity.py', 'dolfyn/adv/turbulence.py']


def vel(rng, shape, nb, nan):
    lead, nt = shape[:-1], shape[-1]
    x = np.array([synth.colored(rng, nt, -rng.uniform(0, 2)) for _ in range(int(np.prod(lead)))]).reshape(shape)
    x = x * rng.uniform(.05, 2) + rng.normal(0, 1.5, lead + (1,)) + rng.normal(0, 1, lead + (1,)) * np.arange(nt) / nt
    if len(lead):
        mix = np.eye(lead[0]) + .4 * rng.normal(size=(lead[0], lead[0]))
        x = np.tensordot(mix, x, 1)
    if nan:
        m = rng.random(shape) < .12
        b = m[..., :nt // nb * nb].reshape(lead + (-1, nb))
        b[b.mean(-1) > .5] = False
        m[..., :b.shape[-2] * nb] = b.reshape(lead + (-1,))
        x[m] = np.nan
    return x


def fluct(x, nb, det):
    return bm.bdetrend(x, nb) if det else bm.bdemean(x, nb)


def run(ctx):
    def times_ok(r, t, nb, k, what, dim='time'):
        tw = bm.bmean(t, nb)
        ctx.check(len(r[dim]) == k and np.abs((r[dim].values.astype('M8[ns]') - tw).astype('int64')).max() < 5000, what + '-time', 'bin times of ' + what)

    for rng in ctx.cases('tke', ctx.n(110, 2000)):
        nb = int(rng.integers(6, 60))
        k = int(rng.integers(1, 6))
        nt = nb * k + int(rng.integers(0, nb))
        form = str(rng.choice(['adv', 'adv', 'beam', 'profile']))
        shape = {'adv': (3, nt), 'beam': (nt,), 'profile': (int(rng.integers(1, 5)), nt)}[form]
        dt = str(rng.choice(['f4', 'f8']))
        x = vel(rng, shape, nb, rng.random() < .4).astype(dt)
        fs = float(rng.choice([1, 4, 16]))
        t = synth.times(nt, fs)
        tn = 'time_b5' if form != 'adv' and rng.random() < .3 else 'time'
        if form == 'adv':
            da = xr.DataArray(x, dims=['dir', 'time'], coords=dict(dir=['E', 'N', 'U'], time=t))
        elif form == 'beam':
            da = xr.DataArray(x, dims=[tn], coords={tn: t})
        else:
            da = xr.DataArray(x, dims=['range', tn], coords={'range': np.arange(shape[0]) * .5, tn: t})
        det = bool(rng.integers(2))
        noise, nz = None, 0.
        sd = np.nanstd(x)
        if rng.random() < .6:
            if form == 'adv':
                nv = sd * rng.uniform(0, .8, 3)
                nz = nv[:, None]
                noise = [nv, list(nv), xr.DataArray(nv, dims=['dir'])][int(rng.integers(3))]
                if rng.random() < .3:
                    nz = sd * rng.uniform(0, .5, (3, k))
                    noise = xr.DataArray(nz, dims=['S', 'time'])
            else:
                nz = noise = float(sd * rng.uniform(0, .8))
                if form == 'beam' and rng.random() < .4:
                    nz = sd * rng.uniform(0, .8, k)
                    noise = xr.DataArray(nz, dims=[tn])
        cls = ADVBinner if form == 'adv' else ADPBinner if rng.random() < .5 else VelBinner
        with ctx.observe('tke', dict(form=form, nb=nb, k=k, nt=nt, detrend=det, noise=noise if not isinstance(noise, xr.DataArray) else nz, x=x), nontrivial=k > 1):
            kw = {} if det and rng.random() < .5 else dict(detrend=det)
            if noise is not None:
                kw['noise'] = noise
            r = ctx.call(cls(nb, fs).calc_tke, da, pure=True, **kw)
            want = np.nanmean(fluct(x, nb, det) ** 2, -1) - np.asarray(nz, float) ** 2
            sc = np.nanmax(np.abs(x)) ** 2 * (3e-6 if dt == 'f4' else 2e-7)
            if dt == 'f4':
                sc += 3e-6 * np.nanmax(np.abs(x)) * sd
            ctx.close(r, want, 'tke', 'velocity variance', rtol=2e-5, atol=sc)
            if form == 'adv':
                ctx.check(r.dims == ('tke', 'time') and list(r['tke'].values) == ['upup_', 'vpvp_', 'wpwp_'], 'tke-dims', '%s' % (r.dims,))
            else:
                ctx.check(r.dims == da.dims, 'tke-dims', '%s' % (r.dims,))
            times_ok(r, t, nb, k, 'tke', r.dims[-1])
            if form == 'adv':
                s = ctx.call(ADVBinner(nb, fs).calc_stress, da, pure=True, **({} if det and 'detrend' not in kw else dict(detrend=det)))
                f = fluct(x, nb, det)
                ctx.check(s.dims == ('tau', 'time') and list(s['tau'].values) == ['upvp_', 'upwp_', 'vpwp_'], 'stress-dims', '%s %s' % (s.dims, s['tau'].values))
                for nm, (i, j) in dict(upvp_=(0, 1), upwp_=(0, 2), vpwp_=(1, 2)).items():
                    ctx.close(s.sel(tau=nm), np.nanmean(f[i] * f[j], -1), 'stress', nm, rtol=2e-5, atol=sc)
                times_ok(s, t, nb, k, 'stress')
                if k > 1:
                    i = int(rng.integers(k))
                    y = da.copy(deep=True)
                    m = np.ones(nt, bool)
                    m[i * nb:(i + 1) * nb] = False
                    y.values[:, m] = rng.normal(0, 9, (3, m.sum()))
                    for q, o in ((r, ctx.call(ADVBinner(nb, fs).calc_tke, y, **kw)), (s, ctx.call(ADVBinner(nb, fs).calc_stress, y, detrend=det))):
                        ctx.close(o.values[:, i], q.values[:, i], 'isolation', 'bin %d after changing only other bins' % i, rtol=1e-5, atol=sc)
    for rng in ctx.cases('ti', ctx.n(70, 1000)):
        nb = int(rng.integers(6, 60))
        k = int(rng.integers(1, 6))
        nt = nb * k + int(rng.integers(0, nb))
        lead = () if rng.random() < .5 else (int(rng.integers(1, 4)),)
        x = np.abs(vel(rng, lead + (nt,), nb, rng.random() < .4)) + .05
        fs = 4.
        t = synth.times(nt, fs)
        dims = (['range'] if lead else []) + ['time']
        da = xr.DataArray(x, dims=dims, coords={**({'range': np.arange(lead[0]) * 1.} if lead else {}), 'time': t})
        det = bool(rng.integers(2))
        f = fluct(x, nb, det)
        var = np.nanmean(f ** 2, -1)
        mean = bm.bmean(x, nb)
        noise = float(np.sqrt(var.min()) * rng.uniform(0, .9)) if rng.random() < .5 else 0
        thresh = float(np.quantile(mean, rng.random()) * 1.001) if rng.random() < .5 else 0
        with ctx.observe('ti', dict(nb=nb, k=k, shape=x.shape, detrend=det, noise=noise, thresh=thresh, x=x), nontrivial=k > 1):
            if rng.random() < .5:
                # a noise level of each bin (and depth), or one in an array
                q = np.sqrt(var * rng.uniform(0, .9, var.shape)) if rng.random() < .7 else np.sqrt(var.min(-1) * rng.uniform(0, .9))[..., None]
                if q.shape[-1] == 1 and not lead and rng.random() < .5:
                    q = q[0]
                noise = xr.DataArray(q) if rng.random() < .6 or not np.ndim(q) else q
            r = ctx.call(VelBinner(nb, fs).calc_ti, da, noise=noise, thresh=thresh, detrend=det, pure=True)
            noise = np.asarray(noise)
            want = np.sqrt(var - noise ** 2) / mean
            if noise.any():
                # loss of significance next to the noise level
                m = var - noise ** 2 < 1e-4 * var
                want[m] = np.where(m, r.values, 0)[m]
            want[mean < thresh] = np.nan
            ctx.close(r, want, 'ti', 'turbulence intensity', rtol=1e-3)
            ctx.check(r.dims == tuple(dims), 'ti-dims', '%s' % (r.dims,))
            times_ok(r, t, nb, k, 'ti')
    for rng in ctx.cases('ti-threshold', ctx.n(8, 60)):
        nb = int(rng.integers(4, 30))
        u0 = float(rng.integers(1, 100)) / 32
        x = np.repeat(u0 + np.array([0., 1 / 32., -1 / 32.]), nb)
        da = xr.DataArray(x, dims=['time'], coords=dict(time=synth.times(len(x), 2.)))
        with ctx.observe('ti-threshold', dict(nb=nb, u0=u0)):
            r = ctx.call(VelBinner(nb, 2.).calc_ti, da, thresh=u0)
            ctx.close(r, np.where(x[::nb] < u0, np.nan, 0.), 'ti-threshold', 'intensity of a steady speed of exactly, above and below the threshold', atol=1e-6)
    for rng in ctx.cases('shortcut', ctx.n(24, 300)):
        nb = int(rng.integers(8, 50))
        k = int(rng.integers(1, 5))
        nt = nb * k + int(rng.integers(0, nb))
        kind = str(rng.choice(['vector', 'vector_imu']))
        ds = synth.make(rng, kind, nt=nt, coord_sys=str(rng.choice(['inst', 'earth'])), vel=vel(rng, (3, nt), nb, False))
        ds.attrs['config_vector'] = 'x'
        nfft = int(rng.integers(4, nb + 1))
        units = str(rng.choice(['rad/s', 'Hz']))
        w = str(rng.choice(['hann', 'hamm']))
        noise = np.zeros(3)
        if rng.random() < .5:
            noise = ds.vel.values.std(1) * rng.uniform(0, .3, 3)
            ds['doppler_noise'] = ('S', noise)
        with ctx.observe('shortcut', dict(kind=kind, nb=nb, nfft=nfft, units=units, window=w, vel=ds.vel.values)):
            if 'doppler_noise' in ds:
                ds = ds.assign_coords(S=['Sxx', 'Syy', 'Szz'])
            b = ADVBinner(nb, ds.fs, n_fft=nfft)
            kw = dict(freq_units=units, window=w)
            o = ctx.call(b, ds, pure=True, **kw) if False else ctx.call(calc_turbulence, ds, nb, ds.fs, pure=True, n_fft=nfft, **kw)
            o2 = ctx.call(b.__call__, ds, pure=True, **kw)
            ctx.check(o.identical(o2), 'shortcut-vs-binner', 'calc_turbulence differs from the binner call')
            coh = int(rng.integers(4, nb + 1))
            o3 = ctx.call(ADVBinner(nb, ds.fs, n_fft=nfft, n_fft_coh=coh).__call__, ds, **kw)
            ctx.check((o3.attrs['n_bin'], o3.attrs['n_fft'], o3.attrs['n_fft_coh']) == (nb, nfft, coh), 'shortcut-attrs', 'n_bin/n_fft/n_fft_coh attributes')
            x = ds.vel.values
            sc = np.abs(x).max() ** 2 * 6e-6
            f = bm.bdetrend(x, nb)
            ctx.close(o['tke_vec'], (f ** 2).mean(-1) - noise[:, None] ** 2, 'shortcut-tke', 'tke_vec', rtol=1e-5, atol=sc)
            for j, (p, q) in enumerate([(0, 1), (0, 2), (1, 2)]):
                ctx.close(o['stress_vec'][j], (f[p] * f[q]).mean(-1), 'shortcut-stress', 'stress_vec', rtol=1e-5, atol=sc)
            ctx.eq(o['psd'], b.calc_psd(ds['vel'], noise=list(noise), **kw), 'shortcut-psd', 'psd')
            av = b.do_avg(ds)
            for v in av.data_vars:
                ctx.eq(o[v], av[v], 'shortcut-avg', 'average of ' + v)
            for a in ('fs', 'inst_make', 'inst_model', 'coord_sys'):
                ctx.check(o.attrs.get(a) == ds.attrs[a], 'shortcut-attrs', 'attribute %s: %r' % (a, o.attrs.get(a)))
            ctx.check((o.attrs['n_bin'], o.attrs['n_fft'], o.attrs['n_fft_coh']) == (nb, nfft, nfft), 'shortcut-attrs', 'n_bin/n_fft/n_fft_coh attributes')
    for rng in ctx.cases('refuse', ctx.n(6, 30)):
        x = xr.DataArray(rng.normal(size=(3, 40)), dims=['dir', 'time'], coords=dict(dir=['E', 'N', 'U'], time=synth.times(40, 1)))
        with ctx.observe('refuse', dict(x=x.values)):
            ctx.expect_raises('noise-shape-accepted', Exception, VelBinner(10, 1).calc_tke, x, noise=np.array([1., 2.]))
            ctx.expect_raises('3d-accepted', Exception, VelBinner(10, 1).calc_tke, xr.concat([x, x], 'range'))
