"""C25: ADCP shear, beam-variance stresses, Doppler noise, friction velocity."""
import numpy as np
import xarray as xr
from dolfyn.adp.api import ADPBinner
from dolfyn.adv.api import ADVBinner
from .. import synth, binmodel as bm

RULE = ('Random linear and curved profiles for every difference scheme; beam velocities built from prescribed instrument-frame fluctuations for Signature and Workhorse geometries, up and down, in beam or other frames, with noise, '
        'beam-angle overrides and tilt; white-noise spectra; linear stress profiles. Judged against the defining equations. Non-trivial: more than one time/bin.')
FILES = ['dolfyn/adp/turbulence.py']


def rfluct(rng, nr, nt, n):
    x = rng.normal(size=(n, nr, nt))
    mix = np.tril(rng.normal(size=(n, n))) + np.eye(n)
    return np.einsum('ij,jkl->ikl', mix, x) * rng.uniform(.02, .5) + rng.normal(0, 1, (n, nr, 1))


def stress_ds(rng, fam, nr, nt, theta, orient, ang, fifth):
    """Beam velocities of a prescribed instrument-frame field (ang: pitch/roll scale)."""
    X, Y, Z = rfluct(rng, nr, nt, 3)
    s, c = np.sin(np.deg2rad(theta)), np.cos(np.deg2rad(theta))
    if fam == 'signature':
        b = np.array([X * s + Z * c, -Y * s + Z * c, -X * s + Z * c, Y * s + Z * c])
    else:
        b = np.array([X * s + Z * c, -X * s + Z * c, -Y * s + Z * c, Y * s + Z * c])
    ds = synth.make(rng, fam, nt=nt, nr=nr, coord_sys='beam', orientation=orient, vel=b, dtype=np.float64, extra=False)
    ds.attrs['beam_angle'] = theta
    ds['beam2inst_orientmat'] = (('x1', 'x2'), synth.sig_beam(theta) if fam == 'signature' else synth.rdi_beam(theta))
    for k in ('pitch', 'roll'):
        ds[k] = ('time', rng.normal(0, 1, nt) * ang * .2 + rng.normal() * ang)
    if fifth:
        ds = ds.assign_coords(range_b5=ds['range'].values.copy(), time_b5=ds['time'].values.copy())
        ds['vel_b5'] = (('range_b5', 'time_b5'), Z.copy())
    return ds, X, Y, Z


ORDER = {('signature', 'up'): [0, 2, 3, 1], ('signature', 'down'): [2, 0, 3, 1],
         ('rdi', 'down'): [0, 1, 2, 3], ('rdi', 'up'): [0, 1, 3, 2]}


def run(ctx):
    for rng in ctx.cases('shear', ctx.n(120, 2000)):
        nr, nt = int(rng.integers(3, 12)), int(rng.integers(1, 8))
        dz = float(rng.choice([.25, .5, 1, 4]))
        z = rng.uniform(.1, 2) + dz * np.arange(nr)
        lin = rng.random() < .5
        nd = int(rng.choice([3, 4]))
        sl = rng.normal(0, 1, (nd, 1, nt))
        x = sl * z[None, :, None] + rng.normal(0, 1, (nd, 1, nt))
        if not lin:
            x = x + rng.normal(0, 1, x.shape)
            if rng.random() < .4:
                x[rng.random(x.shape) < .1] = np.nan
        style = str(rng.choice(['first', 'centered', 'centered_extended']))
        orient = str(rng.choice(['up', 'down']))
        by_arg = bool(rng.integers(2))
        t = synth.times(nt, 1.)
        v = xr.DataArray(x, dims=['dir', 'range', 'time'], coords=dict(dir=['E', 'N', 'U'] if nd == 3 else ['E', 'N', 'U1', 'U2'], range=z, time=t))
        with ctx.observe('shear', dict(style=style, orient=orient, nr=nr, nt=nt, linear=lin, x=x), nontrivial=nt > 1):
            B = ADPBinner(4, 1., diff_style=style, orientation=orient if not by_arg else ('down' if orient == 'up' else 'up'))
            sg = -1 if orient == 'down' else 1
            D = np.full((nd, nr, nt), np.nan)
            fst = (x[:, 1:] - x[:, :-1]) / (z[1:] - z[:-1])[None, :, None]
            if style == 'first':
                D, rr = fst, z[1:]
            else:
                D[:, 1:-1] = (x[:, 2:] - x[:, :-2]) / (z[2:] - z[:-2])[None, :, None]
                D[:, 0], D[:, -1] = fst[:, 0], fst[:, -1]
                rr = z
                if style == 'centered':
                    D, rr = D[:, 1:-1], z[1:-1]
            r = [ctx.call(B.calc_dudz, v, pure=True, **({'orientation': orient} if by_arg else {})),
                 ctx.call(B.calc_dvdz, v, pure=True), ctx.call(B.calc_dwdz, v, pure=True)]
            want = [sg * D[0], D[1], D[2]]
            for n, a, w in zip(('dudz', 'dvdz', 'dwdz'), r, want):
                ctx.close(a, w, n, '%s (%s)' % (n, style), rtol=1e-6, atol=1e-7)
                ctx.eq(a['range'], rr, n + '-range', 'range of ' + n)
                ctx.eq(a['time'], t, n + '-time', 'time of ' + n)
                ctx.check(a.dims == ('range', 'time'), n + '-dims', '%s' % (a.dims,))
            if lin:
                ctx.close(r[1], np.broadcast_to(sl[1], r[1].shape), 'linear-slope', 'dvdz of a linear profile', rtol=1e-5, atol=1e-6)
            s2 = ctx.call(B.calc_shear2, v, pure=True)
            ctx.close(s2, D[0] ** 2 + D[1] ** 2, 'shear2', 'squared shear', rtol=1e-5, atol=1e-9)
    for rng in ctx.cases('stress4', ctx.n(80, 1500)):
        fam = str(rng.choice(['signature', 'rdi']))
        nb, k, nr = int(rng.integers(4, 30)), int(rng.integers(1, 5)), int(rng.integers(1, 6))
        nt = nb * k + int(rng.integers(nb))
        theta = float(rng.choice([15, 20, 25, 30]))
        orient = str(rng.choice(['up', 'down']))
        ds, X, Y, Z = stress_ds(rng, fam, nr, nt, theta, orient, 2., False)
        kw = {}
        use = theta
        m = rng.random()
        if m < .25:
            use = kw['beam_angle'] = float(rng.uniform(15, 35))
        elif m < .4:
            ds.attrs['beam_angle'] = 11.
            kw['beam_angle'] = theta
        if rng.random() < .3:
            ds.attrs['orientation'] = str(rng.choice(['AHRS', 'up', 'down']))
            kw['orientation'] = orient
        frame = str(rng.choice(['beam', 'beam', 'inst']))
        nanm = rng.random() < .3
        noise = nz = 0.
        if rng.random() < .6:
            nz = noise = float(rng.uniform(0, .2))
            if rng.random() < .5:
                nz = rng.uniform(0, .2, k)
                noise = xr.DataArray(nz, dims=['time'])
            kw['noise'] = noise
        beam = ds.vel.values.copy()
        if nanm and frame == 'beam':
            beam[rng.random(beam.shape) < .05] = np.nan
            ds['vel'].values[:] = beam
        if frame == 'inst':
            ds.velds.rotate2('inst')
        with ctx.observe('stress4', dict(fam=fam, nb=nb, k=k, nr=nr, theta=theta, orient=orient, frame=frame, kw=sorted(kw), use=use, vel=beam), nontrivial=k > 1):
            r = ctx.call(ADPBinner(nb, 4.).calc_stress_4beam, ds, pure=frame == 'beam', **kw)
            o = ORDER[fam, orient]
            b = np.array([bm.bvar(beam[i], nb) for i in o]) - np.asarray(nz) ** 2
            s, c = np.sin(np.deg2rad(use)), np.cos(np.deg2rad(use))
            want = np.array([np.nan * b[0], (b[0] - b[1]) / (4 * s * c), (b[2] - b[3]) / (4 * s * c)])
            ctx.check(r.dims == ('tau', 'range', 'time') and list(r['tau'].values) == ['upvp_', 'upwp_', 'vpwp_'], 'stress4-dims', '%s' % (r.dims,))
            tol = 3e-6 * np.nanmax(np.abs(b))
            ctx.close(r, want, 'stress4', 'beam-variance stress', rtol=1e-5, atol=tol)
            if orient == 'up' and use == theta and not nanm:
                # the physical statement: the in-sample covariance of the instrument-frame field
                cov = lambda p, q: (bm.bdemean(p, nb) * bm.bdemean(q, nb)).mean(-1)
                ctx.close(r[1], cov(X, Z), 'stress4-covariance', "u'w'", rtol=1e-4, atol=3 * tol)
                ctx.close(r[2], cov(Y, Z), 'stress4-covariance', "v'w'", rtol=1e-4, atol=3 * tol)
            tw = bm.bmean(ds.time.values, nb)
            ctx.check(len(r['time']) == k and np.abs((r['time'].values.astype('M8[ns]') - tw).astype('int64')).max() < 5000, 'stress4-time', 'bin times')
            ctx.eq(r['range'], ds['range'], 'stress4-range', 'range')
    for rng in ctx.cases('stress5', ctx.n(80, 1500)):
        nb, k, nr = int(rng.integers(4, 30)), int(rng.integers(1, 5)), int(rng.integers(1, 6))
        nt = nb * k + int(rng.integers(nb))
        theta = float(rng.choice([20, 25, 30]))
        orient = str(rng.choice(['up', 'down']))
        level = rng.random() < .4
        ds, X, Y, Z = stress_ds(rng, 'signature', nr, nt, theta, orient, 0. if level else 3., True)
        kw = {}
        if rng.random() < .3:
            ds.attrs['beam_angle'] = 11.
            kw['beam_angle'] = theta
        if rng.random() < .3:
            ds.attrs['orientation'] = 'AHRS'
            kw['orientation'] = orient
        noise = nz = 0.
        if rng.random() < .6:
            nz = noise = float(rng.uniform(0, .2))
            if rng.random() < .5:
                nz = rng.uniform(0, .2, k)
                noise = xr.DataArray(nz, dims=['time'])
            kw['noise'] = noise
        beam = np.concatenate([ds.vel.values, ds.vel_b5.values[None]])
        pit, rol = ds['pitch'].values, ds['roll'].values
        if rng.random() < .2:
            ds.velds.rotate2('inst')
            frame = 'inst'
        else:
            frame = 'beam'
        only = rng.random() < .3
        with ctx.observe('stress5', dict(nb=nb, k=k, nr=nr, theta=theta, orient=orient, level=level, frame=frame, kw=sorted(kw), tke_only=only, vel=beam), nontrivial=k > 1):
            r = ctx.call(ADPBinner(nb, 4.).calc_stress_5beam, ds, tke_only=only, **kw)
            if only:
                tke, st = r, None
            else:
                tke, st = r
            b = np.array([bm.bvar(beam[i], nb) for i in ORDER['signature', orient] + [4]]) - np.asarray(nz) ** 2
            p2 = np.deg2rad(bm.bmean(rol, nb))
            p3 = -np.deg2rad(bm.bmean(pit, nb))
            S, C = np.sin(np.deg2rad(theta)), np.cos(np.deg2rad(theta))
            den = -4 * S ** 6 * C ** 2
            d1, d3, s1, s3 = b[1] - b[0], b[3] - b[2], b[1] + b[0], b[3] + b[2]
            uu = (-2 * S ** 4 * C ** 2 * (s1 - 2 * C ** 2 * b[4]) + 2 * S ** 5 * C * p3 * d1) / den
            vv = (-2 * S ** 4 * C ** 2 * (s3 - 2 * C ** 2 * b[4]) - 2 * S ** 4 * C ** 2 * p3 * d1 + 2 * S ** 3 * C ** 3 * p3 * d1 - 2 * S ** 5 * C * p2 * d3) / den
            ww = (-2 * S ** 5 * C * p3 * d1 + 2 * S ** 5 * C * p2 * d3 - 4 * S ** 6 * C ** 2 * b[4]) / den
            tol = 1e-5 * np.max(np.abs(b)) / S ** 2
            ctx.check(tke.dims == ('tke', 'range', 'time') and list(tke['tke'].values) == ['upup_', 'vpvp_', 'wpwp_'], 'stress5-dims', '%s' % (tke.dims,))
            for n, g, w in zip(('upup_', 'vpvp_', 'wpwp_'), tke.values, (uu, vv, ww)):
                ctx.close(g, w, 'tke5', n, rtol=1e-5, atol=tol)
            cov = lambda p, q: (bm.bdetrend(p, nb) * bm.bdetrend(q, nb)).mean(-1)
            if level:
                for n, g, w in zip(('upup_', 'vpvp_', 'wpwp_'), tke.values, (X, Y, Z)):
                    n2 = np.asarray(nz) ** 2
                    sub = n2 if n == 'wpwp_' else n2 * (1 - C ** 2) / S ** 2
                    ctx.close(g, bm.bvar(w, nb) - sub, 'tke5-variance', n, rtol=1e-4, atol=3 * tol)
            if st is not None:
                uv = cov(X, Y)
                uw = (S ** 5 * C * d1 + 2 * S ** 4 * C ** 2 * p3 * s1 - 4 * S ** 4 * C ** 2 * p3 * b[4] - 4 * S ** 6 * C ** 2 * p2 * uv) / den
                vw = (S ** 5 * C * d3 - 2 * S ** 4 * C ** 2 * p2 * s3 + 4 * S ** 4 * C ** 2 * p2 * b[4] + 4 * S ** 6 * C ** 2 * p3 * uv) / den
                ctx.check(st.dims == ('tau', 'range', 'time') and list(st['tau'].values) == ['upvp_', 'upwp_', 'vpwp_'], 'stress5-dims', '%s' % (st.dims,))
                for n, g, w in zip(('upvp_', 'upwp_', 'vpwp_'), st.values, (uv, uw, vw)):
                    ctx.close(g, w, 'stress5', n, rtol=1e-5, atol=3 * tol)
                if level and orient == 'up':
                    cv = lambda p, q: (bm.bdemean(p, nb) * bm.bdemean(q, nb)).mean(-1)
                    ctx.close(st[1], cv(X, Z), 'stress5-covariance', "u'w'", rtol=1e-4, atol=3 * tol)
                    ctx.close(st[2], cv(Y, Z), 'stress5-covariance', "v'w'", rtol=1e-4, atol=3 * tol)
    for rng in ctx.cases('noise', ctx.n(60, 800)):
        k = int(rng.integers(1, 5))
        fs = float(rng.choice([1, 2, 4, 8, 16, 32]))
        nfft = int(rng.integers(32, 400))
        units = str(rng.choice(['Hz', 'rad/s']))
        adv = bool(rng.integers(2))
        f = bm.freqs(nfft, fs, units).astype('f4')
        lead = (3, k) if adv else (k,)
        white = rng.random() < .4
        sg = rng.uniform(.01, .5, lead)
        nyq = fs / 2 * (1 if units == 'Hz' else 2 * np.pi)
        S = np.repeat((sg ** 2 / nyq)[..., None], len(f), -1)
        if not white:
            S = S * rng.uniform(.2, 3, S.shape)
        pct = float(rng.uniform(.4, .9)) if rng.random() < .6 else .8
        if np.min(np.abs(f / nyq - pct)) < 1e-4:
            continue
        dims = (['S'] if adv else []) + ['time' if adv or rng.random() < .6 else 'time_b5', 'freq']
        co = {'freq': f, dims[-2]: synth.times(k, .01)}
        if adv:
            co['S'] = ['Sxx', 'Syy', 'Szz']
        p = xr.DataArray(S, dims=dims, coords=co)
        p['freq'].attrs['units'] = 'Hz' if units == 'Hz' else 'rad s-1'
        with ctx.observe('noise', dict(fs=fs, nfft=nfft, units=units, pct=pct, adv=adv, white=white, S=S)):
            B = (ADVBinner if adv else ADPBinner)(nfft, fs)
            r = ctx.call(B.calc_doppler_noise, p, pure=True, **({} if pct == .8 else dict(pct_fN=pct)))
            ff = f.astype(float)
            lo = ff > pct * nyq
            est = [np.sqrt((S[..., m] * ff[m]).mean(-1)) for m in (lo, lo & (ff < nyq * (1 - 1e-6)))]
            ctx.check(r.shape == lead, 'noise-shape', '%s' % (r.shape,))
            ok = [np.allclose(r.values, e, rtol=1e-4, atol=0) for e in est]
            ctx.check(any(ok), 'noise-level', lambda: 'Doppler noise %s, expected %s' % (r.values.ravel()[:3], est[0].ravel()[:3]))
            if white:
                ctx.close(r, sg * np.sqrt((1 + pct) / 2), 'noise-white', 'noise of white noise', rtol=.06)
            ctx.check(r.dims == tuple(dims[:-1]), 'noise-dims', '%s' % (r.dims,))
    for rng in ctx.cases('ustar', ctx.n(50, 600)):
        nr, k = int(rng.integers(6, 15)), int(rng.integers(1, 6))
        dz = float(rng.choice([.25, .5, 1]))
        z = rng.uniform(.1, 1) + dz * np.arange(nr)
        us = rng.uniform(.01, .3, k)
        H = float(np.round(z[-1] + rng.uniform(1, 10), 3))
        sgn = rng.choice([-1, 1], k)
        st = sgn * us ** 2 * (1 - z[:, None] / H)
        zi = slice(1, 5) if rng.random() < .5 else slice(int(rng.integers(0, 3)), int(rng.integers(4, nr + 1)))
        st2 = st.copy()
        m = np.ones(nr, bool)
        m[zi] = False
        st2[m] += rng.normal(0, 1, (m.sum(), k))
        t = synth.times(k, .01)
        av = xr.Dataset(coords=dict(range=z, time=t))
        mode = str(rng.choice(['H', 'depth', 'depth_t']))
        Hk = H
        if mode == 'depth':
            av['depth'] = H
        elif mode == 'depth_t':
            Ht = H + rng.uniform(0, 3, k)
            st2[zi] = (sgn * us ** 2 * (1 - z[:, None] / Ht))[zi]
            av['depth'] = ('time', Ht)
        if rng.random() < .4:       # single cells without a stress
            i = np.arange(nr)[zi]
            st2[rng.choice(i, int(rng.integers(1, len(i))), replace=False), int(rng.integers(k))] = np.nan
        up = xr.DataArray(st2, dims=['range', 'time'], coords=dict(range=z, time=t))
        with ctx.observe('ustar', dict(us=us, H=H, mode=mode, zi=[zi.start, zi.stop], z=z), nontrivial=k > 1):
            kw = dict(H=Hk) if mode == 'H' else {}
            if mode == 'H' and rng.random() < .5:
                av['depth'] = 3.
            if zi != slice(1, 5):
                kw['z_inds'] = zi
            if mode == 'depth_t' and k == 1:
                continue
            r = ctx.call(ADPBinner(4, 1.).calc_ustar_fit, av, up, pure=True, **kw)
            ctx.close(r, us, 'ustar', 'friction velocity', rtol=1e-5)
            ctx.eq(r['time'], t, 'ustar-time', 'time')
    for rng in ctx.cases('refuse', ctx.n(5, 30)):
        ds, *_ = stress_ds(rng, 'signature', 2, 20, 25., 'up', 1., False)
        with ctx.observe('refuse', dict(v=ds.vel.values)):
            ctx.expect_raises('stress5-without-beam5', Exception, ADPBinner(5, 1.).calc_stress_5beam, ds)
            d = ds.copy(deep=True)
            d.attrs['orientation'] = 'AHRS'
            ctx.expect_raises('unknown-orientation-accepted', Exception, ADPBinner(5, 1.).calc_stress_4beam, d)
            d = ds.copy(deep=True)
            del d.attrs['beam_angle']
            ctx.expect_raises('no-beam-angle-accepted', Exception, ADPBinner(5, 1.).calc_stress_4beam, d)
