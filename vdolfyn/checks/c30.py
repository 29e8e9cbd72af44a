"""C30: derived velocity quantities (the velds accessor)."""
import numpy as np
import xarray as xr
from dolfyn import VelBinner
from .. import synth

RULE = ('Random datasets of every family in every coordinate system, NaNs, special directions (exact axes, zero flow), raw and averaged, with turbulence variables of 1 and 2 dimensions; every accessor property at every sample '
        'against its defining formula, the dataset digest unchanged, and again after rotating or overwriting the data. Non-trivial: more than one sample.')
FILES = ['dolfyn/velocity.py']


def compass(u, v, earth):
    a = np.degrees(np.arctan2(u, v) if earth else -np.arctan2(v, u))
    return a % 360


def circ(a, b):
    return np.abs((np.asarray(a, float) - b + 180) % 360 - 180)


def run(ctx):
    def check_all(ds, tag):
        V = ds.velds
        x = ds['vel'].values.astype(float)
        dims = ds['vel'].dims[1:]
        tol = 1e-6 * (np.nanmax(np.abs(x)) if np.isfinite(x).any() else 1)
        for i, n in enumerate('uvw'):
            r = getattr(V, n)
            ctx.eq(r, ds['vel'].values[i], n, '%s (%s)' % (n, tag))
            ctx.check(r.dims == dims and 'dir' not in r.coords, n + '-coords', '%s' % (r.dims,))
        U = V.U
        ctx.close(U, x[0] + 1j * x[1], 'U', 'U (%s)' % tag, rtol=1e-6, atol=tol)
        ctx.check(U.dims == dims and U.dtype.kind == 'c', 'U-dims', '%s %s' % (U.dims, U.dtype))
        ctx.close(V.U_mag, np.hypot(x[0], x[1]), 'U_mag', 'speed (%s)' % tag, rtol=1e-6, atol=tol)
        d = V.U_dir
        earth = ds.attrs['coord_sys'] == 'earth'
        sp = np.hypot(x[0], x[1])
        g = sp > 1e-5 * max(1e-30, np.nanmax(sp) if np.isfinite(sp).any() else 1)
        ctx.check((np.isnan(d.values) == np.isnan(sp)).all(), 'U_dir-nan', 'NaNs of the direction')
        bad = circ(d.values[g], compass(x[0], x[1], earth)[g])
        ctx.check(bad.size == 0 or bad.max() < 1e-2, 'U_dir', lambda: 'direction (%s, %s) off by %g degrees' % (tag, ds.attrs['coord_sys'], bad.max()))
        dd = d.values[~np.isnan(d.values)]
        ctx.check(dd.size == 0 or (dd.min() >= 0 and dd.max() <= 360), 'U_dir-range', 'direction outside 0..360')
        ctx.check(d.dims == dims and d.attrs['units'] == 'degrees_CW_from_' + str(ds['dir'].values[1 if earth else 0]), 'U_dir-units', d.attrs.get('units', ''))
        for c in dims:
            if c in ds.coords:
                for r in (V.u, U, V.U_mag, d):
                    ctx.eq(r[c], ds[c], 'coords', c)
        if 'tke_vec' in ds:
            t = ds['tke_vec'].values.astype(float)
            ctx.close(V.tke, t.sum(0) / 2, 'tke', 'tke', rtol=1e-5)
            for i, n in enumerate(('upup_', 'vpvp_', 'wpwp_')):
                ctx.eq(getattr(V, n), ds['tke_vec'].values[i], n, n)
            s = ds['stress_vec'].values.astype(float)
            for i, n in enumerate(('upvp_', 'upwp_', 'vpwp_')):
                ctx.eq(getattr(V, n), ds['stress_vec'].values[i], n, n)
            ctx.close(V.E_coh, np.sqrt((s ** 2).sum(0)), 'E_coh', 'E_coh', rtol=1e-4)
            ctx.check(V.E_coh.dims == dims, 'E_coh-dims', '%s' % (V.E_coh.dims,))
            with np.errstate(all='ignore'):
                m = sp > 1e-3 * np.nanmax(sp)
                ctx.close(V.I_tke.values[m], (np.sqrt(t.sum(0)) / sp)[m], 'I_tke', 'I_tke', rtol=1e-4)
                ctx.close(V.I.values[m], (ds['U_std'].values / sp)[m], 'I', 'I', rtol=1e-4)

    for rng in ctx.cases('derived', ctx.n(110, 2000)):
        kind = str(rng.choice(synth.KINDS))
        nt, nr = int(rng.integers(1, 40)), int(rng.integers(1, 6))
        cs = str(rng.choice(['beam', 'inst', 'earth', 'principal']))
        ds = synth.make(rng, kind, nt=nt, nr=nr, coord_sys=cs, nan_frac=float(rng.choice([0, 0, .2])), amp=10 ** rng.uniform(-2, 1))
        if rng.random() < .5:
            w = ds['vel'].values
            m = rng.random(w.shape[1:]) < .4
            th = np.deg2rad(rng.choice([0, 45, 90, 135, 180, 225, 270, 315], m.sum()))
            if rng.random() < .5:
                th = th + np.deg2rad(rng.choice([0, 1e-4, -1e-4, 5e-3, -5e-3, .3, -.3], m.sum()))
            w[0][m], w[1][m] = np.round(np.cos(th), 12), np.round(np.sin(th), 12)
        if rng.random() < .5:
            dims = ds['vel'].dims[1:]
            shp = tuple(ds.sizes[d] for d in dims)
            ds['tke_vec'] = xr.DataArray(rng.uniform(0, 2, (3,) + shp).astype('f4'), dims=('tke',) + dims, coords=dict(tke=['upup_', 'vpvp_', 'wpwp_']), attrs=dict(units='m2 s-2'))
            ds['stress_vec'] = xr.DataArray(rng.normal(0, 1, (3,) + shp).astype('f4'), dims=('tau',) + dims, coords=dict(tau=['upvp_', 'upwp_', 'vpwp_']), attrs=dict(units='m2 s-2'))
            ds['U_std'] = (dims, rng.uniform(.01, 2, shp).astype('f4'))
        with ctx.observe('derived', dict(kind=kind, coord_sys=cs, nt=nt, nr=nr, vel=ds['vel'].values), nontrivial=nt > 1):
            from ..core import digest
            d0 = digest(ds)
            check_all(ds, 'first')
            repr(ds.velds)
            ctx.check(ds.attrs['coord_sys'] + '-frame' in repr(ds.velds), 'repr', 'the summary does not name the frame')
            ctx.check(list(ds.velds.variables) == sorted(ds.variables) and 'vel' in ds.velds and 'nothing' not in ds.velds, 'container', 'variables/contains')
            ctx.check(ds.velds['vel'].identical(ds['vel']) and ds.velds.attrs is ds.attrs, 'container', 'getitem/attrs')
            ctx.check(digest(ds) == d0, 'mutates', 'reading derived quantities changed the dataset')
            ds['vel'].values[:] = ds['vel'].values * -.5 + .01
            check_all(ds, 'after overwriting')
            if cs != 'beam' or True:
                to = str(rng.choice([c for c in ('inst', 'earth', 'principal') if c != cs]))
                ds.velds.rotate2(to)
                ctx.check(ds.attrs['coord_sys'] == to, 'rotated', 'accessor rotate2')
                check_all(ds, 'after rotating to ' + to)
    for rng in ctx.cases('averaged', ctx.n(30, 400)):
        kind = str(rng.choice(synth.KINDS))
        nb, k = int(rng.integers(3, 20)), int(rng.integers(1, 5))
        ds = synth.make(rng, kind, nt=nb * k, nr=3, coord_sys=str(rng.choice(['inst', 'earth', 'principal'])))
        with ctx.observe('averaged', dict(kind=kind, nb=nb, k=k, vel=ds['vel'].values)):
            av = VelBinner(nb, ds.fs).do_avg(ds)
            av['dir'].attrs = ds['dir'].attrs
            check_all(av, 'averaged')
            x = ds['vel'].values.astype(float)
            sp = np.hypot(x[0], x[1])
            sd = sp.reshape(sp.shape[:-1] + (k, nb)).std(-1)
            ctx.close(av['U_std'], sd, 'U_std', 'standard deviation of speed', rtol=1e-4, atol=1e-5)
            with np.errstate(all='ignore'):
                U = av['vel'].values.astype(float)
                ctx.close(av.velds.I, sd / np.hypot(U[0], U[1]), 'I', 'turbulence intensity', rtol=2e-3)
