"""C26: motion correction of ADVs."""
import numpy as np
import warnings
import scipy.signal as ss
from scipy.spatial.transform import Rotation
import xarray as xr
import dolfyn
from dolfyn.adv import api as avm
from dolfyn.adv.motion import CalcMotion
from .. import synth, rotmodel
from ..core import _copy

RULE = ('Vector+IMU records in all coordinate systems with random orientation, motion, lever arm, filter frequencies, sampling rates, heading/probe options and duty cycles: the reported '
        'velrot, velacc, acclow, vel_raw and vel are compared with an independent evaluation in float64; simulated platforms (rest, steady spin, oscillation) in a known current; '
        'bursts against each burst on its own; repeated correction. Non-trivial: moving, rotating platform.')
FILES = ['dolfyn/adv/motion.py']
IMU = np.array([0.00635, 0.00635, 0.14986])       # body -> IMU (0.25, 0.25, 5.9 in)


def record(rng, nt, fs, cs='inst'):
    ds = synth.make(rng, 'vector_imu', nt=nt, coord_sys=cs, fs=fs)
    ds['orientmat'].values = synth.rand_omat(rng, nt).astype('float64')
    for k in ('accel', 'angrt'):
        ds[k].values = (synth.colored(rng, nt, slope=-1., lead=(3,)) * rng.uniform(.1, 3) + rng.normal(0, 2, (3, 1))).astype('float32')
    ds.attrs['inst2head_vec'] = [float(x) for x in rng.normal(0, .7, 3)]
    return ds


def earth(O, v):
    return np.einsum('ij...,i...->j...', O, v)


def inst(O, v):
    return np.einsum('ij...,j...->i...', O, v)


def band(a, fs, fa, fv):
    """(velacc, acclow) of an acceleration record (3, n)"""
    if fa == 0:
        low = np.repeat(a.mean(-1, keepdims=True), a.shape[-1], -1)
    else:
        low = ss.filtfilt(*ss.butter(1, fa / (fs / 2)), a, axis=-1)
    hp = a - low
    v = np.zeros_like(hp)
    v[:, 1:] = np.cumsum((hp[:, 1:] + hp[:, :-1]) / 2 / fs, -1)
    if fv > 0:
        v = v - ss.filtfilt(*ss.butter(2, fv / (fs / 2)), v, axis=-1)
    return v, low


def tol(x):
    return 3e-5 * (1 + np.abs(x).max())


def run(ctx):
    for rng in ctx.cases('exact', ctx.n(60, 900)):
        fs = float(rng.choice([1, 4, 8, 16, 32, 64, 12.8, 2.5]))
        nt = int(rng.integers(60, 900))
        cs = str(rng.choice(['inst', 'inst', 'earth', 'principal', 'beam']))
        ds = record(rng, nt, fs, cs)
        has_rm = rng.random() < .5
        sep = rng.random() < .3
        R = np.eye(3)
        if has_rm:
            R = Rotation.random(random_state=int(rng.integers(2**31))).as_matrix()
        if has_rm or sep:
            ds['inst2head_rotmat'] = (('x1', 'x2'), R)
            ds.attrs['inst2head_rotmat_was_set'] = 1
        kw = {}
        fa = .03
        if rng.random() < .7:
            fa = kw['accel_filtfreq'] = float(rng.choice([0, .01, .05, .1, .2, 10 ** rng.uniform(-4, -2)])) * min(fs, 4)
            if rng.random() < .3:
                ds.attrs['motion accel_filtfreq Hz'] = float(rng.choice([.02, .07, .5]))
        elif rng.random() < .4:
            fa = ds.attrs['motion accel_filtfreq Hz'] = .07
        fv = fa / 3
        was = ds.attrs.get('motion accel_filtfreq Hz')
        if rng.random() < .4:
            fv = kw['vel_filtfreq'] = float(rng.choice([0, .02, .1])) * min(fs, 4)
            if rng.random() < .3:
                ds.attrs['motion vel_filtfreq Hz'] = .09
        elif rng.random() < .3:
            fv = ds.attrs['motion vel_filtfreq Hz'] = float(rng.choice([0, .015, .09])) * min(fs, 4)
        to_e = bool(rng.integers(2))
        if rng.random() < .8 or not to_e:
            kw['to_earth'] = to_e
        if rng.random() < .3:
            ds.attrs['inst2head_vec'] = np.array(ds.attrs['inst2head_vec'])
        if sep:
            kw['separate_probes'] = True
        # independent evaluation, starting from the instrument-frame record
        di = _copy(ds)
        if cs != 'inst':
            di = dolfyn.rotate2(di, 'inst', inplace=False)
        O = di['orientmat'].values.astype(float)
        a, w, v = (di[k].values.astype(float) for k in ('accel', 'angrt', 'vel'))
        vacc, low = band(earth(O, a), fs, fa, fv)
        arm = np.asarray(ds.attrs['inst2head_vec'], float)
        if sep:
            T = ds['beam2inst_orientmat'].values.astype(float)
            th = np.deg2rad([0., 120., 240.])
            probes = np.array([.076 * np.cos(th), .076 * np.sin(th), np.full(3, -.076 * np.tan(np.deg2rad(30)))])
            along = []
            for k in range(3):
                vb = np.cross(w.T, arm + R.T @ probes[:, k] - IMU).T        # body frame velocity of probe k
                along.append(np.linalg.inv(T)[k] @ (R @ vb))
            vrot = R.T @ T @ np.array(along)
        else:
            vrot = np.cross(w.T, arm - IMU).T
        with ctx.observe('exact', dict(cs=cs, fs=fs, nt=nt, kw=kw, rm=has_rm, vel=v)):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                out = ctx.call(avm.correct_motion, ds, pure=True, **kw)
            said = any('verriding' in str(x.message) for x in ws)
            ctx.check(said == (was is not None and kw.get('accel_filtfreq', was) != was), 'motion:override-warning',
                      lambda: 'recorded accel_filtfreq %r, asked for %r: warnings %s' % (was, kw.get('accel_filtfreq'), [str(x.message) for x in ws]))
            ctx.check(out.attrs.get('motion accel_filtfreq Hz') == fa, 'motion:recorded-filtfreq', lambda: 'recorded %r, used %r' % (out.attrs.get('motion accel_filtfreq Hz'), fa))
            f = (lambda x: earth(O, x)) if to_e else (lambda x: x)
            g = (lambda x: x) if to_e else (lambda x: inst(O, x))
            exp = dict(velrot=f(vrot), velacc=g(vacc), acclow=g(low), vel_raw=f(v), accel=f(a), angrt=f(w),
                       mag=f(di['mag'].values.astype(float)))
            exp['vel'] = exp['vel_raw'] + exp['velrot'] + exp['velacc']
            for k in ('velrot', 'velacc', 'acclow', 'vel_raw', 'accel', 'angrt', 'mag', 'vel'):
                ctx.close(out[k], exp[k], ('separate-probes:' if sep else 'motion:') + k, '%s of a record in %s (to_earth=%s)' % (k, cs, to_e), rtol=0,
                          atol=tol(exp[k]))
            ctx.close(out['vel'].values, out['vel_raw'].values + (out['velrot'].values + out['velacc'].values), 'motion:sum', rtol=0, atol=1e-6 * (1 + np.abs(out['vel'].values).max()))
            ctx.check(out.attrs['coord_sys'] == ('earth' if to_e else 'inst'), 'motion:coord_sys', 'coord_sys is %r' % out.attrs['coord_sys'])
            ctx.eq(out['time'].values, ds['time'].values, 'motion:time')
            ctx.check(set(out.attrs['rotate_vars']) >= {'vel', 'accel', 'angrt', 'mag', 'velrot', 'velacc', 'acclow', 'vel_raw'}, 'motion:rotate_vars', 'rotate_vars %s' % out.attrs['rotate_vars'])
            for k in ds.data_vars:
                if k not in exp and k not in ('orientmat',):
                    ctx.eq(out[k].values, ds[k].values, 'motion:other-variable', k)
            # all results rotate together: the two output frames describe the same vectors
            other = ctx.call(dolfyn.rotate2, out, 'inst' if to_e else 'earth', inplace=False)
            kw2 = dict(kw, to_earth=not to_e)
            out2 = ctx.call(avm.correct_motion, ds, **kw2)
            for k in exp:
                ctx.close(other[k], out2[k].values, 'motion:frames-disagree', k, rtol=0, atol=4 * tol(exp[k]))
            # never twice
            ctx.expect_raises('corrected-twice', Exception, avm.correct_motion, out, **kw)
            ctx.expect_raises('corrected-twice', Exception, avm.correct_motion, other, **kw)
            o3 = _copy(out)
            o3 = o3.drop_vars('velrot')
            ctx.expect_raises('corrected-twice', Exception, avm.correct_motion, o3, **kw)

    for rng in ctx.cases('physics', ctx.n(30, 500)):
        fs = float(rng.choice([8, 16]))
        nt = int(fs * rng.integers(400, 500))
        t = np.arange(nt) / fs
        ds = record(rng, nt, fs)
        mode = str(rng.choice(['rest', 'spin', 'sway', 'both']))
        R0 = Rotation.random(random_state=int(rng.integers(2**31)))
        w = np.zeros((3, nt))
        rot = Rotation.concatenate([R0] * nt)              # inst -> earth
        if mode in ('spin', 'both'):
            wb = rng.normal(0, .5, 3)
            w = np.repeat(wb[:, None], nt, 1)              # constant rate about a body axis
            rot = R0 * Rotation.from_rotvec(wb * t[:, None])
        M = rot.as_matrix()                                # earth = M @ inst
        O = np.moveaxis(M, 0, -1).transpose(1, 0, 2)       # O[i] = instrument axis i in earth
        acc_e = np.zeros((3, nt)) + np.array([0, 0, 9.81])[:, None]
        vel_p = np.zeros((3, nt))                          # velocity of the IMU
        f0 = rng.uniform(.25, .8)
        if mode in ('sway', 'both'):
            A, ph = rng.normal(0, .4, (3, 1)), rng.uniform(0, 6.28, (3, 1))
            vel_p = A * np.sin(2 * np.pi * f0 * t + ph)
            acc_e = acc_e + A * 2 * np.pi * f0 * np.cos(2 * np.pi * f0 * t + ph)
        arm = np.asarray(ds.attrs['inst2head_vec']) - IMU
        U = rng.normal(0, 1, (3, 1)) + .1 * rng.normal(0, 1, (3, nt))
        head = vel_p + np.einsum('ij...,i...->j...', O, np.cross(w.T, arm).T)
        ds['orientmat'].values = O
        ds['accel'].values = inst(O, acc_e)
        ds['angrt'].values = w
        ds['vel'].values = inst(O, U - head)
        if rng.random() < .5:
            ds = dolfyn.rotate2(ds, 'earth', inplace=False)
        with ctx.observe('physics', dict(mode=mode, fs=fs, nt=nt, U=U[:, 0], arm=arm), nontrivial=mode != 'rest'):
            out = ctx.call(avm.correct_motion, ds)
            if mode == 'rest':
                ctx.close(out['vel'], out['vel_raw'].values, 'body-at-rest-altered', rtol=0, atol=1e-5)
                ctx.close(out['vel'], U, 'body-at-rest-altered', rtol=0, atol=1e-4)
            elif mode == 'spin':
                ctx.close(out['vel'], U, 'steady-spin', 'current seen from a spinning platform', rtol=0, atol=2e-4 * (1 + np.abs(head).max()))
            else:
                s = slice(int(140 * fs), -int(140 * fs))
                ctx.close(out['vel'][:, s], U[:, s], 'oscillating-platform', 'current seen from an oscillating platform', rtol=0,
                          atol=.15 * (np.abs(A).max() + .05))
                raw = np.abs(earth(O, inst(O, U - head))[:, s] - U[:, s]).max()
                ctx.count('motion-removed', int(raw > .1))

    for rng in ctx.cases('lever', ctx.n(30, 400)):
        nt = 40
        ds = record(rng, nt, 8.)
        M = int(rng.integers(1, 5))
        vec = rng.normal(0, 1, (3, M)) if rng.random() < .7 else rng.normal(0, 1, 3)
        O, w = ds['orientmat'].values, ds['angrt'].values.astype(float)
        te = bool(rng.integers(2))
        with ctx.observe('lever', dict(vec=vec, to_earth=te)):
            c = ctx.call(CalcMotion, ds, to_earth=te)
            got = ctx.call(c.calc_velrot, vec, pure=True)
            exp = np.stack([np.cross(w.T, p - IMU).T for p in (vec.T if vec.ndim == 2 else [vec])], 1)
            if te:
                exp = np.einsum('ijt,imt->jmt', O, exp)
            ctx.close(got, exp if vec.ndim == 2 else exp[:, 0], 'lever-arm', rtol=0, atol=1e-5 * (1 + np.abs(exp).max()))

    for rng in ctx.cases('calculator', ctx.n(14, 250)):
        # the calculator itself: from instrument- or earth-frame records, cut-offs passed or carried by the dataset
        fs = float(rng.choice([4, 8, 16]))
        ds = record(rng, int(rng.integers(120, 900)), fs)
        fa, fv = float(rng.choice([.03, .05, .2, .5])), [None, 0., .01, .1][int(rng.integers(4))]
        with ctx.observe('calculator', dict(fs=fs, n=ds.sizes['time'], fa=fa, fv=fv)):
            a = ctx.call(CalcMotion, ds, accel_filtfreq=fa, vel_filtfreq=fv)
            va, lo = ctx.call(a.calc_velacc), np.array(a.acclow)
            e = ctx.call(dolfyn.rotate2, ds, 'earth', inplace=False)
            b = ctx.call(CalcMotion, e, accel_filtfreq=fa, vel_filtfreq=fv)
            vb = ctx.call(b.calc_velacc)
            sc = 1e-5 * (np.abs(va).max() + np.abs(a.accel).max())
            ctx.close(vb, va, 'calculator:earth-frame', 'velacc of the same record in the earth frame', rtol=0, atol=sc)
            ctx.close(b.acclow, lo, 'calculator:earth-frame-low', 'acclow of the same record in the earth frame', rtol=0, atol=sc)
            ctx.close(a.accel, np.einsum('jit,jt->it', ds['orientmat'].values, ds['accel'].values), 'calculator:accel', 'acceleration in the earth frame', rtol=0, atol=sc)
            d = ds.copy(deep=True)
            d.attrs['motion accel_filtfreq Hz'] = fa
            if fv is not None:
                d.attrs['motion vel_filtfreq Hz'] = fv
            c = ctx.call(CalcMotion, d)
            ctx.close(ctx.call(c.calc_velacc), va, 'calculator:carried', 'cut-offs the dataset carries', rtol=0, atol=sc * 1e-3)
            if fa == .03:
                c = ctx.call(CalcMotion, ds, vel_filtfreq=fv)
                ctx.close(ctx.call(c.calc_velacc), va, 'calculator:default', 'default cut-off', rtol=0, atol=sc * 1e-3)
            x = ds.copy(deep=True)
            x.attrs['coord_sys'] = str(rng.choice(['beam', 'principal']))
            ctx.expect_raises('calculator:frame', Exception, CalcMotion, x)

    for rng in ctx.cases('bursts', ctx.n(16, 200)):
        fs = float(rng.choice([4, 8, 16]))
        nb, k = int(rng.integers(80, 200)), int(rng.integers(2, 5))
        ds = record(rng, nb * k, fs)
        interval = int(rng.integers(60, 1200))
        bad = str(rng.choice(['no', 'no', 'interval', 'ragged']))
        start = np.arange(k) * float(interval)
        if bad == 'interval':
            start *= 1 + float(rng.choice([-.5, .3, 1]))
        elif bad == 'ragged':
            start[-1] += float(rng.choice([30, 8, 4]))
        t = (start[:, None] + np.arange(nb) / fs).ravel()
        ds['time'] = synth.times(1, 1.)[0] + np.round(t * 1e9).astype('int64').astype('timedelta64[ns]')
        ds.attrs['duty_cycle_n_burst'] = nb
        ds.attrs['duty_cycle_interval'] = interval
        kw = dict(accel_filtfreq=float(rng.choice([0, .05, .2])), to_earth=bool(rng.integers(2)))
        with ctx.observe('bursts', dict(nb=nb, k=k, fs=fs, interval=interval, bad=bad, kw=kw)):
            if bad == 'interval' or (bad == 'ragged' and k > 2):
                ctx.expect_raises('bad-duty-cycle-accepted:' + bad, Exception, avm.correct_motion, ds, **kw)
                continue
            if bad == 'ragged':     # two bursts off the interval
                ctx.expect_raises('bad-duty-cycle-accepted:' + bad, Exception, avm.correct_motion, ds, **kw)
                continue
            out = ctx.call(avm.correct_motion, ds, pure=True, **kw)
            for i in range(k):
                s = slice(i * nb, (i + 1) * nb)
                one = _copy(ds.isel(time=s))
                del one.attrs['duty_cycle_n_burst'], one.attrs['duty_cycle_interval']
                o1 = ctx.call(avm.correct_motion, one, **kw)
                for v in ('vel', 'velacc', 'velrot', 'acclow', 'accel', 'vel_raw'):
                    ctx.close(out[v][:, s], o1[v].values, 'burst-not-independent', '%s of burst %d' % (v, i), rtol=0, atol=tol(o1[v].values))

    for rng in ctx.cases('refuse', ctx.n(12, 60)):
        ds = record(rng, 80, 8.)
        what = str(rng.choice(['accel-nan', 'angrt-nan', 'flag', 'velrot', 'rotmat-unset']))
        if what.endswith('nan'):
            ds[what[:5]].values[int(rng.integers(3)), int(rng.integers(80))] = np.nan
        elif what == 'flag':
            ds.attrs['motion corrected'] = 1
        elif what == 'velrot':
            ds['velrot'] = ds['vel'] * 0
        else:
            ds['inst2head_rotmat'] = (('x1', 'x2'), np.eye(3))
            ds.attrs['inst2head_rotmat_was_set'] = 0
        with ctx.observe('refuse', dict(what=what, a=ds['accel'].values)):
            b = _copy(ds)
            ctx.expect_raises('not-refused:' + what, Exception, avm.correct_motion, ds)
            ctx.check(ds.identical(b), 'refusal-changed-dataset', 'a refused dataset was modified')
