"""Documented default arguments: a call that leaves an option out must give the result
of the call that spells the documented default.  Used by the checks of the properties
whose functions have defaults (each check judges its own functions)."""
import numpy as np
import xarray as xr
import dolfyn
from dolfyn import VelBinner
from dolfyn import time as dtime
from dolfyn.adp.api import ADPBinner
from dolfyn.adp import clean as pclean
from dolfyn.adv.api import ADVBinner, calc_turbulence
from dolfyn.adv import clean as vclean
from dolfyn.adv.motion import correct_motion, CalcMotion
from dolfyn.rotate import base as rbase
from dolfyn.rotate.api import rotate2, set_declination, set_inst2head_rotmat, calc_principal_heading
from dolfyn.tools import misc, psd as tp
from . import synth
from .core import same_value, _copy, digest

PROPS = ['C%d' % i for i in (12, 13, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29)]


def adv_data(rng, imu=False):
    n = 256
    fs = 32.
    ds = synth.make(rng, 'vector_imu' if imu else 'vector', nt=n * 2 + int(rng.integers(0, 50)), fs=fs,
                    coord_sys='inst' if imu else str(rng.choice(['inst', 'earth'])), amp=2.)
    # a mean flow, so that cascade-based estimates are finite
    ds['vel'].values[0] += 3
    ds['depth'] = ('time', rng.uniform(5, 9, ds.time.size))
    return ds, ADVBinner(n, fs), n, fs


def adp_data(rng):
    n = 128
    fs = 4.
    ds = synth.make(rng, 'signature', nt=n * 2 + int(rng.integers(0, 50)), nr=14, fs=fs, coord_sys=str(rng.choice(['beam', 'inst', 'earth'])), amp=3.)
    ds['vel'].values[0] += 2
    ds['corr'].values[:] = rng.integers(30, 70, ds['corr'].shape)
    ds['corr'].attrs['units'] = '%'
    ds.attrs['cell_size'] = .5
    ds.attrs['blank_dist'] = .1
    ds['depth'] = ('time', rng.uniform(5, 9, ds.time.size))
    return ds, ADPBinner(n, fs), n, fs


def gaps(rng, x, lens, frac=.05):
    """Set NaN runs of the given lengths in a (copied) DataArray along its last axis."""
    x = x.copy(deep=True)
    n = x.shape[-1]
    i = 3
    while i < n - 20:
        w = int(rng.choice(lens))
        x.values[..., i:i + w] = np.nan
        i += w + int(rng.integers(2, 9))
    return x


def cases(prop, rng):
    P = lambda *a: a[int(rng.integers(len(a)))]
    o = []

    def A(name, f, g):
        o.append((name, f, g))
    hz = dict(freq_units='Hz')
    rad = dict(freq_units='rad/s')
    hann = dict(window='hann')
    if prop in ('C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C26', 'C27', 'C31'):
        ds, b, n, fs = adv_data(rng, prop == 'C26')
        ds2, b2, n2, fs2 = adp_data(rng)
        c = lambda d=ds: _copy(d)
        v, v0, v1 = ds['vel'], ds['vel'][0], ds['vel'][1]
        x = v.values
    if prop == 'C20':
        A('psd', lambda: tp.psd(x[0], 64, fs), lambda: tp.psd(x[0], 64, fs, window='hann', step=None))
        A('psd_freq', lambda: tp.psd_freq(64, fs), lambda: tp.psd_freq(64, fs, full=False))
        A('calc_psd', lambda: b.calc_psd(v), lambda: b.calc_psd(v, freq_units='rad/s', fs=fs, window='hann', noise=[0, 0, 0], n_bin=n, n_fft=n, n_pad=None, step=None))
        A('calc_psd1', lambda: b.calc_psd(v0), lambda: b.calc_psd(v0, freq_units='rad/s', fs=fs, window='hann', noise=0, n_bin=n, n_fft=n))
        A('calc_psd_base', lambda: b.calc_psd_base(x), lambda: b.calc_psd_base(x, fs=fs, window='hann', noise=0, n_bin=n, n_fft=n))
        A('calc_freq', lambda: b.calc_freq(), lambda: b.calc_freq(fs=fs, units='rad/s', n_fft=n, coh=False))
        A('constructor', lambda: vars(VelBinner(n, fs)), lambda: vars(VelBinner(n_bin=n, fs=fs, n_fft=n, n_fft_coh=n, noise=[0, 0, 0])))
        k = dict(n_fft=int(rng.integers(16, 200)))
        A('constructor-n_fft_coh', lambda: vars(VelBinner(n, fs, **k)), lambda: vars(VelBinner(n, fs, n_fft_coh=k['n_fft'], noise=[0, 0, 0], **k)))
    if prop == 'C21':
        A('cpsd', lambda: tp.cpsd(x[0], x[1], 64, fs), lambda: tp.cpsd(x[0], x[1], 64, fs, window='hann', step=None))
        A('cpsd_quasisync', lambda: tp.cpsd_quasisync(x[0], x[1, :400], 64, fs), lambda: tp.cpsd_quasisync(x[0], x[1, :400], 64, fs, window='hann'))
        A('phase_angle', lambda: tp.phase_angle(x[0], x[1], 64), lambda: tp.phase_angle(x[0], x[1], 64, window='hann', step=None))
        A('coherence', lambda: tp.coherence(x[0], x[1], 64), lambda: tp.coherence(x[0], x[1], 64, window='hann', debias=True, noise=(0, 0)))
        k = dict(n_fft_coh=64)
        A('calc_coh', lambda: b.calc_coh(v0, v1, **k), lambda: b.calc_coh(v0, v1, window='hann', debias=True, noise=(0, 0), n_bin=n, **k))
        A('calc_phase_angle', lambda: b.calc_phase_angle(v0, v1, **k), lambda: b.calc_phase_angle(v0, v1, window='hann', n_bin=n, **k))
        A('calc_csd_base', lambda: b.calc_csd_base(x[0], x[1]), lambda: b.calc_csd_base(x[0], x[1], fs=fs, window='hann', n_fft=n, n_bin=n))
        A('calc_csd', lambda: b.calc_csd(v), lambda: b.calc_csd(v, freq_units='rad/s', fs=fs, window='hann', n_bin=n, n_fft_coh=n))
    if prop == 'C22':
        A('calc_acov', lambda: b.calc_acov(v), lambda: b.calc_acov(v, n_bin=n))
        A('calc_xcov', lambda: b.calc_xcov(v0, v1), lambda: b.calc_xcov(v0, v1, npt=1, n_bin=n, normed=False))
    if prop == 'C19':
        for m in ('detrend', 'demean', 'mean', 'var', 'std'):
            A(m, lambda m=m: getattr(b, m)(x), lambda m=m: getattr(b, m)(x, axis=-1, n_bin=n))
        A('reshape', lambda: b.reshape(x), lambda: b.reshape(x, n_pad=0, n_bin=n))
        A('do_avg', lambda: b.do_avg(ds), lambda: b.do_avg(ds, out_ds=None, names=list(ds.data_vars)))
        A('do_var', lambda: b.do_var(ds[['vel', 'temp']]), lambda: b.do_var(ds[['vel', 'temp']], out_ds=None, names=['vel', 'temp'], suffix='_var'))
        A('VelBinner', lambda: b.do_avg(ds), lambda: ADVBinner(n_bin=n, fs=fs, n_fft=n, n_fft_coh=n, noise=[0, 0, 0]).do_avg(ds))
    if prop == 'C23':
        A('calc_ti', lambda: b.calc_ti(ds.velds.U_mag), lambda: b.calc_ti(ds.velds.U_mag, noise=0, thresh=0, detrend=False))
        A('calc_tke', lambda: b.calc_tke(v), lambda: b.calc_tke(v, noise=[0, 0, 0], detrend=True))
        A('calc_stress', lambda: b.calc_stress(v), lambda: b.calc_stress(v, detrend=True))
        A('call', lambda: b(ds), lambda: b(ds, freq_units='rad/s', window='hann'))
        A('calc_turbulence', lambda: calc_turbulence(ds, n, fs), lambda: calc_turbulence(ds, n_bin=n, fs=fs, n_fft=n, freq_units='rad/s', window='hann'))
    if prop == 'C24':
        k = P(rad, rad, hz)
        um = b.do_avg(ds).velds.U_mag
        ps = b.calc_psd(v, **k)
        A('doppler_noise', lambda: b.calc_doppler_noise(ps), lambda: b.calc_doppler_noise(ps, pct_fN=.8))
        A('LT83', lambda: b.calc_epsilon_LT83(ps, um), lambda: b.calc_epsilon_LT83(ps, um, freq_range=[6.28, 12.57], noise=None))
        A('slope', lambda: b.check_turbulence_cascade_slope(ps[0]), lambda: b.check_turbulence_cascade_slope(ps[0], freq_range=[6.28, 12.57]))
        A('SF', lambda: b.calc_epsilon_SF(v0, um), lambda: b.calc_epsilon_SF(v0, um, fs=fs, freq_range=[2., 4.]))
        av = b(ds, **rad)
        A('TE01', lambda: b.calc_epsilon_TE01(ds, av), lambda: b.calc_epsilon_TE01(ds, av, freq_range=[6.28, 12.57]))
        ac = b.calc_acov(v)
        A('L_int', lambda: b.calc_L_int(ac, um), lambda: b.calc_L_int(ac, um, fs=fs))
        p1 = b2.calc_psd(ds2['vel'][0, 3], **k)
        u2 = np.abs(b2.do_avg(ds2)['vel'][0, 3]) + 1
        A('adp-doppler_noise', lambda: b2.calc_doppler_noise(p1), lambda: b2.calc_doppler_noise(p1, pct_fN=.8))
        A('adp-slope', lambda: b2.check_turbulence_cascade_slope(p1), lambda: b2.check_turbulence_cascade_slope(p1, freq_range=[.2, .4]))
        A('adp-LT83', lambda: b2.calc_dissipation_LT83(p1, u2), lambda: b2.calc_dissipation_LT83(p1, u2, freq_range=[.2, .4], noise=None))
        A('adp-SF', lambda: b2.calc_dissipation_SF(ds2['vel'][0]), lambda: b2.calc_dissipation_SF(ds2['vel'][0], r_range=[1, 5]))
    if prop == 'C25':
        ds2, b2, n2, fs2 = adp_data(rng)
        A('constructor', lambda: vars(ADPBinner(n2, fs2)), lambda: vars(ADPBinner(n_bin=n2, fs=fs2, n_fft=n2, n_fft_coh=n2, noise=None, orientation='up', diff_style='centered_extended')))
        for m in ('calc_dudz', 'calc_dvdz', 'calc_dwdz', 'calc_shear2'):
            A(m, lambda m=m: getattr(b2, m)(ds2['vel']),
              lambda m=m: getattr(ADPBinner(n2, fs2, orientation='up', diff_style='centered_extended'), m)(ds2['vel']))
        av = b2.do_avg(ds2)
        s = -np.abs(av['vel'][0]) - .1
        A('ustar', lambda: b2.calc_ustar_fit(av, s), lambda: b2.calc_ustar_fit(av, s, z_inds=slice(1, 5), H=None))
        A('ustar-H', lambda: b2.calc_ustar_fit(av, s, H=20.), lambda: b2.calc_ustar_fit(av, s, z_inds=slice(1, 5), H=20.))
        beam = synth.make(rng, 'signature', nt=300, nr=6, fs=4., coord_sys='beam')
        beam.attrs.update(cell_size=.5, blank_dist=.1, beam_angle=25)
        t = beam['vel'].time
        beam['vel_b5'] = xr.DataArray(beam['vel'][0].values * .3 + .1, dims=['range', 'time_b5'], coords=dict(range=beam['range'].values, time_b5=t.values))
        for m in ('calc_stress_4beam', 'calc_stress_5beam'):
            A(m, lambda m=m: getattr(b2, m)(beam), lambda m=m: getattr(b2, m)(beam, noise=0, orientation=beam.attrs.get('orientation', 'up'), beam_angle=25, **(dict(tke_only=False) if '5' in m else {})))
    if prop == 'C26':
        ds.attrs['inst2head_vec'] = [.1, .2, .3]
        A('correct_motion', lambda: correct_motion(c()), lambda: correct_motion(c(), accel_filtfreq=.03, vel_filtfreq=.01, to_earth=True, separate_probes=False))
        A('correct_motion-vel', lambda: correct_motion(c(), accel_filtfreq=.3), lambda: correct_motion(c(), accel_filtfreq=.3, vel_filtfreq=.1, to_earth=True, separate_probes=False))
    if prop == 'C27':
        sp = v.copy(deep=True)
        sp.values[:, rng.integers(5, sp.shape[1] - 5, 6)] += rng.choice([-1, 1]) * rng.uniform(8, 14)
        A('spike_thresh', lambda: vclean.spike_thresh(sp[0] * 2), lambda: vclean.spike_thresh(sp[0] * 2, thresh=10))
        A('range_limit', lambda: vclean.range_limit(sp), lambda: vclean.range_limit(sp, range=[-5, 5]))
        nl = 5000 + int(rng.integers(0, 1200))
        lg = xr.DataArray((rng.normal(0, 1, nl) * np.linspace(.3, 3, nl)).astype('f4'), dims=['time'], coords={'time': synth.times(nl, fs)})
        lg.values[rng.integers(5, nl - 5, 12)] *= 6
        if rng.random() < .5:
            A('GN2002', lambda: vclean.GN2002(lg.copy(deep=True)), lambda: vclean.GN2002(lg.copy(deep=True), npt=5000))
        m = np.zeros(v.shape[1], bool)
        i = 3
        while i < m.size - 30:
            w = int(rng.choice([1, 2, 5, 6, 7, 9]))
            m[i:i + w] = True
            i += w + int(rng.choice([2, 5, 11, 12, 13, 30]))
        full = dict(npt=12, method='cubic', maxgap=6)
        for q in (None, 'npt', 'method', 'maxgap'):
            kk = {a: z for a, z in dict(npt=5, method='linear', maxgap=3).items() if a == q}
            A('clean_fill-%s' % q, lambda kk=kk: vclean.clean_fill(v.copy(deep=True), m, **kk), lambda kk=kk: vclean.clean_fill(v.copy(deep=True), m, **dict(full, **kk)))
    if prop == 'C28':
        d, b2, n2, fs2 = adp_data(rng)
        c = lambda z=d: _copy(z)
        for cl in ('correlation_filter',):
            A(cl, lambda: pclean.correlation_filter(c()), lambda: pclean.correlation_filter(c(), thresh=50, inplace=False))
        A('val_exceeds_thresh', lambda: pclean.val_exceeds_thresh(d['vel'].copy(deep=True)), lambda: pclean.val_exceeds_thresh(d['vel'].copy(deep=True), thresh=5, val=np.nan))
        A('medfilt_orient', lambda: pclean.medfilt_orient(c()), lambda: pclean.medfilt_orient(c(), nfilt=7))
        A('nan_beyond_surface', lambda: pclean.nan_beyond_surface(c(), beam_angle=25), lambda: pclean.nan_beyond_surface(c(), val=np.nan, beam_angle=25, inplace=False))

        def fs_(**k):
            e = c().drop_vars('depth')
            r = pclean.find_surface(e, **k)
            return (e if r is None else r)['depth']
        prof = np.sort(rng.integers(60, 120, d['amp'].shape[1]))[::-1].astype('f4')
        d['amp'].values[:] = prof[None, :, None] + rng.integers(0, 3, d['amp'].shape)
        j = int(rng.integers(5, 11))
        d['amp'].values[:, j] += rng.integers(4, 40, (d['amp'].shape[0], d['amp'].shape[2]))
        A('find_surface', lambda: fs_(), lambda: fs_(thresh=10, nfilt=None))

        def fp(**k):
            e = c().drop_vars('depth')
            r = pclean.find_surface_from_P(e, **k)
            return (e if r is None else r)
        d['pressure'] = ('time', rng.uniform(5, 30, d.time.size), {'units': 'dbar'})
        d['temp'] = ('time', rng.uniform(2, 25, d.time.size))
        d.attrs['h_deploy'] = .6
        A('find_surface_from_P', lambda: fp(), lambda: fp(salinity=35))
        g = gaps(rng, d['vel'], [1, 2, 4])
        ff = dict(method='cubic', maxgap=None)
        for kk in ({}, dict(method='linear'), dict(maxgap=2)):
            A('fillgaps_time-%s' % sorted(kk), lambda kk=kk: pclean.fillgaps_time(g.copy(deep=True), **kk), lambda kk=kk: pclean.fillgaps_time(g.copy(deep=True), **dict(ff, **kk)))
        h = d['vel'].copy(deep=True)
        h.values[:, 4:4 + int(rng.integers(1, 5)), ::2] = np.nan
        for kk in ({}, dict(method='linear'), dict(maxgap=2)):
            A('fillgaps_depth-%s' % sorted(kk), lambda kk=kk: pclean.fillgaps_depth(h.copy(deep=True), **kk), lambda kk=kk: pclean.fillgaps_depth(h.copy(deep=True), **dict(ff, **kk)))
    if prop == 'C29':
        y = rng.normal(0, 1, (int(rng.integers(2, 5)), 40)).cumsum(-1)
        A('detrend', lambda: misc.detrend(y.copy()), lambda: misc.detrend(y.copy(), axis=-1, in_place=False))
        bl = rng.random(60) < .6
        A('group', lambda: misc.group(bl), lambda: misc.group(bl, min_length=0))
        A('slice1d', lambda: [tuple(map(str, s)) for s in misc.slice1d_along_axis((3, 4, 2))], lambda: [tuple(map(str, s)) for s in misc.slice1d_along_axis((3, 4, 2), axis=0)])
        z = rng.normal(0, 1, (40, 2))
        z[rng.random(z.shape) < .5] = np.nan
        z[:, 0][:3] = np.nan
        full = dict(maxgap=np.inf, dim=0, extrapFlg=False)
        t = np.cumsum(rng.uniform(.2, 3, 40))
        for kk in ({}, dict(maxgap=2), dict(extrapFlg=True)):
            w = (z[:, 0] if rng.random() < .5 else z)
            A('fillgaps-%s' % sorted(kk), lambda kk=kk, w=w: misc.fillgaps(w.copy(), **kk), lambda kk=kk, w=w: misc.fillgaps(w.copy(), **dict(full, **kk)))
            A('interpgaps-%s' % sorted(kk), lambda kk=kk: misc.interpgaps(z[:, 1].copy(), t, **kk), lambda kk=kk: misc.interpgaps(z[:, 1].copy(), t, **dict(full, **kk)))
        A('medfiltnan', lambda: misc.medfiltnan(z[:, 0].copy(), 5), lambda: misc.medfiltnan(z[:, 0].copy(), 5, thresh=0))
    if prop == 'C12':
        e = np.array(rng.uniform(1e8, 2e9, 5))
        A('epoch2date', lambda: dtime.epoch2date(e), lambda: dtime.epoch2date(e, offset_hr=0, to_str=False))
        dt = dtime.epoch2date(e)
        A('date2str', lambda: dtime.date2str(dt), lambda: dtime.date2str(dt, format_str='%Y-%m-%d %H:%M:%S.%f'))
        A('epoch2date-str', lambda: dtime.epoch2date(e, to_str=True), lambda: dtime.date2str(dt))
    if prop == 'C13':
        h, p, r = rng.uniform(0, 360, 4), rng.uniform(-60, 60, 4), rng.uniform(-170, 170, 4)
        A('euler2orient', lambda: dolfyn.euler2orient(h, p, r), lambda: dolfyn.euler2orient(h, p, r, units='degrees'))
    if prop in ('C14', 'C16', 'C17', 'C18'):
        k = str(rng.choice(['vector', 'vector_imu', 'signature', 'rdi']))
        d = synth.make(rng, k, nt=20, nr=4, coord_sys=str(rng.choice(['inst', 'beam', 'earth'])))
        c = lambda: _copy(d)

        def ip(f, *a, **k):
            e = c()
            r = f(e, *a, **k)
            return (r is None, e if r is None else r)
        m = lambda n: (lambda e, *a, **k: getattr(e.velds, n)(*a, **k))
        if prop == 'C14':
            for f in (rotate2, m('rotate2')):
                A('rotate2', lambda f=f: ip(f), lambda f=f: ip(f, 'earth', inplace=True))
        if prop == 'C16':
            q = float(rng.uniform(-90, 90))
            for f in (set_declination, m('set_declination')):
                A('set_declination', lambda f=f: ip(f, q), lambda f=f: ip(f, q, inplace=True))
        if prop == 'C17':
            d = synth.make(rng, 'vector', nt=20, coord_sys='inst')
            rm = dolfyn.euler2orient(*rng.uniform(-50, 50, 3))
            for f in (set_inst2head_rotmat, m('set_inst2head_rotmat')):
                A('set_inst2head_rotmat', lambda f=f: ip(f, rm), lambda f=f: ip(f, rm, inplace=True))
        if prop == 'C18':
            vv = rng.normal(0, 1, (3, 200)) * rng.uniform(.2, 3, (3, 1)) + rng.normal(0, 1, (3, 1))
            vv = xr.DataArray(vv, dims=['dir', 'time'], coords={'dir': ['E', 'N', 'U']})
            A('calc_principal_heading', lambda: calc_principal_heading(vv), lambda: calc_principal_heading(vv, tidal_mode=True))
            g = rng.uniform(0, 360, 9)
            A('convert_degrees', lambda: misc.convert_degrees(g), lambda: misc.convert_degrees(g, tidal_mode=True))
    return o


def _plain(r):
    return [r[k] for k in sorted(r)] + sorted(r) if isinstance(r, dict) else list(r) if isinstance(r, tuple) else r


def run(ctx, prop, n=None):
    """Judge the defaults of the functions of one property."""
    for rng in ctx.cases('defaults', n or ctx.n(6, 80)):
        todo = cases(prop, rng)
        with ctx.observe('defaults', dict(calls=[t[0] for t in todo], seed=int(rng.integers(1 << 30)))):
            for name, f, g in todo:
                out = []
                for h in (f, g):
                    try:
                        out.append(_plain(h()))
                    except Exception as e:
                        out.append('raises %s: %s' % (type(e).__name__, e))
                    ctx.events += 1
                a, b = out
                ctx.count('default:' + name)
                if isinstance(b, str) and b.startswith('raises'):
                    ctx.count('default-raises:' + name + b[:70])
                    ctx.check(isinstance(a, str) and a.startswith('raises'), 'default:' + name, '%s: the call spelling the documented defaults %s' % (name, b))
                    continue
                ctx.check(not isinstance(a, str) or not a.startswith('raises'), 'default:' + name, lambda: '%s without options %s; with the documented defaults spelled out it returns' % (name, a))
                ctx.check(digest(a) == digest(b) or same_value(a, b), 'default:' + name, '%s without options differs from the call spelling out the documented defaults' % name)
