"""C35: what a reader returns goes through every later step, in any order."""
import os
import warnings
import numpy as np
import dolfyn
from dolfyn import VelBinner
from dolfyn.adp import clean as pclean
from dolfyn.adv import clean as vclean
from dolfyn.adv.api import ADVBinner
from dolfyn.adv.motion import correct_motion
from dolfyn.rotate.api import rotate2, set_declination
from .. import enc_nortek as EN
from ..core import _copy, digest, describe_change
from .c08 import recording
from .c10 import same_dataset
from .c11 import compare

RULE = ('Recordings of the five families written by the independent encoders (all configurations, single pings and single cells included) are read and stored (netCDF, .mat, or one after the other), loaded, rotated to every frame and back, given a declination, '
        'averaged, sliced, cleaned, motion corrected and analysed; every step on the dataset as read is compared with the same step on the stored copy or the slice, round trips with the start, and averages with direct means over the samples read. Non-trivial: more than one ping.')
FILES = ['dolfyn/io/api.py', 'dolfyn/io/base.py', 'dolfyn/rotate/api.py', 'dolfyn/velocity.py']
EXT = dict(rdi='.000', vector='.VEC', awac='.wpr', signature='.ad2cp', vectrino='.vno')


def scale(v):
    v = np.abs(np.asarray(v, float))
    return float(np.nanmax(v)) if np.isfinite(v).any() else 1.


def whole(v):
    """samples with all their components"""
    return np.isfinite(np.asarray(v)).all(0)


def frames(ds, fam):
    if fam == 'vectrino':
        return []
    if ds.attrs['coord_sys'] == 'ship':
        return ['earth', 'principal']
    return ['beam', 'inst', 'earth', 'principal']


def like(ctx, a, b, names, mech, rtol=2e-5):
    for k in names:
        x, y = np.asarray(a[k].values, float), np.asarray(b[k].values, float)
        ctx.check(x.shape == y.shape, mech, lambda: '%s: %s, expected %s' % (k, x.shape, y.shape))
        ctx.check((np.isnan(x) == np.isnan(y)).all(), mech + ':nan', '%s: NaN at other samples' % k)
        ctx.close(x, y, mech, k, rtol=0, atol=rtol * max(scale(y), 1e-6))


def stored(ctx, ds, how):
    """-> the dataset that comes back"""
    f = ctx.tmp('')
    if how == 'nc':
        ctx.call(dolfyn.save, ds, f + '.nc', pure=True)
        return ctx.call(dolfyn.load, f + '.nc')
    ctx.call(dolfyn.save_mat, ds, f + '.mat', pure=True)
    return ctx.call(dolfyn.load_mat, f + '.mat')


def run(ctx):
    for rng in ctx.cases('chain', ctx.n(100, 1000)):
        P = EN.pick(rng)
        fam = P('rdi', 'vector', 'awac', 'signature', 'vectrino')
        if fam == 'vectrino':
            b = b''.join(EN.rand_vectrino(rng)[2])
        else:
            b = recording(rng, fam)[1]
        f = ctx.tmp(EXT[fam])
        with open(f, 'wb') as h:
            h.write(b)
        ph, dec = float(rng.uniform(0, 360)), float(np.round(rng.uniform(-40, 40), 1))
        seed = int(rng.integers(2 ** 31))
        with ctx.observe('chain', dict(family=fam, size=len(b), head=b[:40].hex(), ph=ph, dec=dec)) as o:
            ds = ctx.call(dolfyn.read, f, userdata=False)
            rv = list(ds.attrs['rotate_vars'])
            t = ds['vel'].dims[-1] if 'vel' in ds else ds[rv[0]].dims[-1]
            n = ds.sizes[t]
            ctx.check(all(k in ds for k in rv), 'rotate_vars', lambda: 'rotate_vars %s not in the dataset' % [k for k in rv if k not in ds])
            ctx.count('frame:%s:%s' % (fam, ds.attrs['coord_sys']))
            d0 = digest(ds)
            # ---- storage
            g = {}
            for how in ('nc', 'mat'):
                g[how] = stored(ctx, ds, how)
                if how == 'nc':
                    same_dataset(ctx, g[how], ds, 'nc')
                else:
                    compare(ctx, g[how], ds, True)
            both = stored(ctx, g['nc'], 'mat')
            for k in ds.data_vars:
                if ds[k].dtype.kind in 'fiu':
                    a, b = both[k].values, g['mat'][k].values
                    ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=0, equal_nan=True), 'nc-mat', lambda: '%s differs after netCDF and .mat' % k)
            ctx.count('stored-and-loaded', 3)
            # ---- the summary and the views
            ctx.call(repr, ds.velds)
            if 'vel' in ds:
                ctx.close(np.abs(ds.velds.U), np.hypot(ds['vel'][0], ds['vel'][1]), 'U', 'horizontal speed', rtol=1e-5, atol=1e-6)
                ctx.eq(ds.velds.w, ds['vel'][2], 'w')
            # ---- rotation: there and back, of the stored copy, of a slice
            cs = ds.attrs['coord_sys']
            cond = np.linalg.cond(ds['beam2inst_orientmat'].values) if 'beam2inst_orientmat' in ds else 1.
            turned = {}
            ds.attrs['principal_heading'] = ph
            for fr in frames(ds, fam):
                if not np.isfinite(cond) or cond > 1e4:
                    ctx.count('singular-transform')
                    break
                x = turned[fr] = ctx.call(rotate2, ds, fr, inplace=False)
                if cs != 'ship':
                    y = ctx.call(rotate2, x, cs, inplace=False)
                    for k in rv:
                        w = whole(ds[k]) & whole(x[k])
                        m = np.broadcast_to(w, ds[k].shape)
                        ctx.close(y[k].values[m], ds[k].values[m], 'there-and-back:%s:%s>%s' % (fam, cs, fr), k, rtol=0, atol=1e-4 * cond * max(scale(ds[k]), 1e-6))
                    ctx.count('there-and-back')
                how = P('nc', 'mat')
                gg = g[how]
                gg.attrs['principal_heading'] = ph
                z = ctx.call(rotate2, gg, fr, inplace=False)
                like(ctx, z, x, rv, 'stored-then-rotated:' + how, 2e-5 * max(1, cond))
                om = [k for k in ('orientmat', 'heading') if k in ds]
                if fam != 'vector' and n > 2 and all(t in ds[k].dims for k in rv + om):
                    a, e = sorted(rng.choice(n + 1, 2, replace=False))
                    s = ctx.call(rotate2, ds.isel({t: slice(a, e)}).copy(deep=True), fr, inplace=False)
                    like(ctx, s, x.isel({t: slice(a, e)}), [k for k in rv if t in ds[k].dims], 'slice-then-rotated', 1e-6 * max(1, cond))
                    ctx.count('sliced')
            # ---- declination commutes with storage
            if fam != 'vectrino' and cs in ('earth', 'inst') and turned:
                x = ctx.call(set_declination, ds, dec, inplace=False)
                z = stored(ctx, x, P('nc', 'mat'))
                ctx.check(z.attrs['declination'] == dec and int(z.attrs['declination_in_orientmat']) == int(x.attrs['declination_in_orientmat']), 'declination:stored', 'declination lost in storage')
                like(ctx, ctx.call(set_declination, z, 0., inplace=False), ctx.call(set_declination, x, 0., inplace=False), rv, 'declination:reset-after-storage')
                y = ctx.call(set_declination, z, ds.attrs.get('declination', 0.), inplace=False)
                for k in rv:
                    m = np.broadcast_to(whole(ds[k]), ds[k].shape)
                    ctx.close(y[k].values[m], ds[k].values[m], 'declination:undone', k, rtol=0, atol=1e-4 * max(scale(ds[k]), 1e-6))
            # ---- averages
            if 'vel' in ds and n >= 4 and np.isfinite(ds.attrs['fs']) and t == 'time':
                nb = int(rng.integers(2, n // 2 + 1))
                k = n // nb
                bn = VelBinner(nb, ds.attrs['fs'])
                avg = ctx.call(bn.do_avg, ds)
                for v in ds.data_vars:
                    if ds[v].dims[-1:] == ('time',) and ds[v].dtype.kind == 'f':
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            w = np.nanmean(ds[v].values[..., :k * nb].astype(float).reshape(ds[v].shape[:-1] + (k, nb)), -1)
                        ctx.check(v in avg, 'avg:missing', '%s is not averaged' % v)
                        ctx.close(avg[v].values, w, 'avg:%s' % fam, v, rtol=1e-4, atol=1e-5 * max(scale(w), 1e-6))
                same_dataset(ctx, stored(ctx, avg, 'nc'), avg, 'avg-nc')
                a2 = ctx.call(bn.do_avg, g['nc'])
                like(ctx, a2, avg, ['vel'], 'stored-then-averaged')
                ctx.count('averaged')
            # ---- analysis and cleaning of the family
            for d in ([ds, g['nc']] if n >= 32 and fam == 'vector' else []):
                r = ADVBinner(n // 2, ds.attrs['fs'])
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    q = dict(psd=r.calc_psd(d['vel']), stress=r.calc_stress(d['vel']), tke=r.calc_tke(d['vel']), gn=vclean.GN2002(d['vel'], npt=n),
                             lim=vclean.range_limit(d['vel'], [-1, 1]))
                if d is ds:
                    first = q
                else:
                    for v in q:
                        a, b = np.asarray(q[v], float), np.asarray(first[v], float)
                        ctx.close(a, b, 'stored-then:' + v, v, rtol=1e-4, atol=1e-6 * max(scale(b), 1e-6))
                    ctx.count('analysed')
            if fam == 'vector' and ds.attrs.get('has_imu') and n >= 64 and cs == 'inst' and ds.attrs['fs'] >= 4 and not ds.attrs.get('duty_cycle_n_burst') and np.isfinite(ds['orientmat'].values).all():
                q = []
                for d in (ds, g['nc'], g['mat']):
                    d = _copy(d)
                    d.attrs['inst2head_vec'] = [.1, .2, -.3]
                    d = dolfyn.set_inst2head_rotmat(d, np.eye(3), inplace=False)
                    q.append(ctx.call(correct_motion, d, accel_filtfreq=.1))
                for d in q[1:]:
                    like(ctx, d, q[0], ['vel', 'velacc', 'velrot'], 'stored-then-corrected', 1e-4)
                ctx.count('motion-corrected')
            if fam in ('awac', 'rdi', 'signature') and 'vel' in ds and 'pressure' in ds and t == 'time':
                q = []
                for d in (ds, g['nc'], g['mat']):
                    d = _copy(d)
                    ctx.call(pclean.find_surface_from_P, d, salinity=33)
                    e = ctx.call(pclean.nan_beyond_surface, d, beam_angle=25)
                    q.append((d, e))
                for d, e in q[1:]:
                    like(ctx, d, q[0][0], ['depth', 'water_density'], 'stored-then-depth')
                    like(ctx, e, q[0][1], ['vel'], 'stored-then-blanked')
                ctx.count('surface-cleaned')
            del ds.attrs['principal_heading']
            ctx.check(digest(ds) == d0, 'changes-input', 'the dataset read was changed by one of the steps')
