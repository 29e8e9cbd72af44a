"""C31: analysis is pure and history independent."""
import copy
import numpy as np
import xarray as xr
import dolfyn
from dolfyn import VelBinner
from dolfyn.adp.api import ADPBinner
from dolfyn.adp import clean as pclean
from dolfyn.adv.api import ADVBinner, calc_turbulence
from dolfyn.adv import clean as vclean
from dolfyn.adv.motion import correct_motion
from dolfyn.rotate import base as rbase
from dolfyn.rotate.api import rotate2, set_declination, set_inst2head_rotmat, calc_principal_heading
from dolfyn.tools import misc, psd as tpsd
from .. import synth
from ..core import digest, describe_change, same_value, _copy, Violation

RULE = ('Random sequences of 8-25 calls (binning, spectra, covariances, turbulence, cleaning masks, motion correction, rotations and settings with inplace=False, accessor properties, with and without per-call overrides) on one dataset and one binner object; '
        'after every call the dataset and the binner are unchanged, every result equals that of the same call on a pristine copy with a new binner, and repeating the call gives the same. Non-trivial: at least 8 calls.')
FILES = ['dolfyn/velocity.py', 'dolfyn/binned.py', 'dolfyn/adv/turbulence.py', 'dolfyn/adp/turbulence.py', 'dolfyn/adv/clean.py']


def build_ops(rng, ds, nb, fs, adv):
    """Random list of (name, function of (dataset, binner))."""
    P = lambda *a: a[int(rng.integers(len(a)))]
    maybe = lambda **k: {a: b for a, b in k.items() if rng.random() < .5}
    one = (lambda d: d['vel'][i0]) if adv else (lambda d: d['vel'][i0, j0])
    i0, i1 = int(rng.integers(3)), int(rng.integers(3))
    j0 = int(rng.integers(ds['vel'].shape[1])) if not adv else 0
    two = (lambda d: d['vel'][i1]) if adv else (lambda d: d['vel'][i1, j0])
    frames = ['inst', 'earth', 'principal', 'beam']
    U = P('Hz', 'rad/s')
    W = P('hann', 'hamm', 1)
    nb2 = int(rng.integers(6, nb + 8))
    ov = lambda *n: maybe(**{k: {'n_bin': nb2, 'n_fft': nb2 - 2, 'n_fft_coh': nb2 - 3, 'fs': 3.}[k] for k in n})
    kpsd = dict(freq_units=U, window=W)
    o = []
    A = lambda n, f: o.append((n, f))
    k = ov('n_bin')
    for m in ('reshape', 'detrend', 'demean', 'mean', 'var', 'std'):
        A(m, lambda d, b, m=m, k=dict(k): getattr(b, m)(d['vel'].values, **k))
    A('mean-time', lambda d, b: b.mean(d['time'].values))
    A('do_avg', lambda d, b: b.do_avg(d))
    A('do_var', lambda d, b: b.do_var(d, names=['vel', 'temp']))
    A('do_avg+var', lambda d, b: b.do_var(d, out_ds=b.do_avg(d, names=['vel'])))
    k1 = ov('n_bin', 'n_fft')
    A('calc_psd', lambda d, b: b.calc_psd(one(d), **kpsd, **k1))
    A('calc_freq', lambda d, b: b.calc_freq(units=U, **{a: c for a, c in k1.items() if a == 'n_fft'}))
    A('calc_acov', lambda d, b: b.calc_acov(one(d), **k))
    A('calc_xcov', lambda d, b: b.calc_xcov(one(d), two(d), npt=3, **k))
    k2 = ov('n_bin', 'n_fft_coh')
    A('calc_coh', lambda d, b: b.calc_coh(one(d), two(d), **k2))
    A('calc_phase_angle', lambda d, b: b.calc_phase_angle(one(d), two(d), **k2))
    A('calc_ti', lambda d, b: b.calc_ti(d.velds.U_mag, thresh=.3, noise=.01))
    A('calc_tke', lambda d, b: b.calc_tke(one(d), noise=.01))
    for n in ('u', 'v', 'w', 'U', 'U_mag', 'U_dir'):
        A(n, lambda d, b, n=n: getattr(d.velds, n))
    fr = P(*frames)
    A('rotate2-' + fr, lambda d, b: rotate2(d, fr, inplace=False))
    A('velds.rotate2', lambda d, b: d.velds.rotate2(fr, inplace=False))
    dec = float(rng.uniform(-30, 30))
    A('set_declination', lambda d, b: set_declination(d, dec, inplace=False))
    A('calc_principal_heading', lambda d, b: calc_principal_heading(d['vel'] if adv else d['vel'].mean('range'), tidal_mode=dec > 0))
    A('calc_tilt', lambda d, b: rbase.calc_tilt(d['pitch'], d['roll']))
    A('orient2euler', lambda d, b: rbase.orient2euler(d))
    A('detrend-tool', lambda d, b: misc.detrend(d['vel'].values))
    A('medfiltnan', lambda d, b: misc.medfiltnan(d['heading'].values.astype(float), 5, thresh=.5))
    A('psd-tool', lambda d, b: tpsd.psd(one(d).values, 8, fs, window=W))
    A('coherence-tool', lambda d, b: tpsd.coherence(one(d).values, two(d).values, 8))
    if adv:
        A('calc_tke3', lambda d, b: b.calc_tke(d['vel'], noise=[.01, .02, .01]))
        A('psd3', lambda d, b: b.calc_psd(d['vel'], noise=[0, .1, .1], **kpsd, **k1))
        A('calc_stress', lambda d, b: b.calc_stress(d['vel'], detrend=dec > 0))
        A('calc_csd', lambda d, b: b.calc_csd(d['vel'], **kpsd, **k2))
        A('call', lambda d, b: b(d, **kpsd))
        A('calc_turbulence', lambda d, b: calc_turbulence(d, nb, fs, **kpsd))
        f = [fs * .1, fs * .45]
        r = 1 if U == 'Hz' else 2 * np.pi
        A('calc_epsilon_LT83', lambda d, b: b.calc_epsilon_LT83(b.calc_psd(d['vel'], **kpsd), b.do_avg(d).velds.U_mag, freq_range=[f[0] * r, f[1] * r]))
        A('calc_epsilon_SF', lambda d, b: b.calc_epsilon_SF(one(d), b.do_avg(d).velds.U_mag, freq_range=f))
        A('calc_epsilon_TE01', lambda d, b: b.calc_epsilon_TE01(d, b(d, **kpsd), freq_range=[f[0] * r, f[1] * r]))
        A('calc_L_int', lambda d, b: b.calc_L_int(b.calc_acov(d['vel']), b.do_avg(d).velds.U_mag))
        A('calc_doppler_noise', lambda d, b: b.calc_doppler_noise(b.calc_psd(d['vel'], **kpsd), pct_fN=.6))
        A('slope', lambda d, b: b.check_turbulence_cascade_slope(b.calc_psd(one(d), **kpsd), freq_range=[f[0] * r, f[1] * r]))
        A('GN2002', lambda d, b: vclean.GN2002(d['vel'], npt=40))
        A('spike_thresh', lambda d, b: vclean.spike_thresh(d['vel'], thresh=1))
        A('range_limit', lambda d, b: vclean.range_limit(d['vel'], [-1, 1]))
        A('fill_nan_ensemble_mean', lambda d, b: vclean.fill_nan_ensemble_mean(d['vel'], np.abs(d['vel'].values) > 1.5, fs=1, window=20))
        A('correct_motion', lambda d, b: correct_motion(d, to_earth=dec > 0))
        rm = dolfyn.euler2orient(10. * i0, 20., 5.)
        A('set_inst2head_rotmat', lambda d, b: set_inst2head_rotmat(d, rm, inplace=False))
    else:
        for m in ('calc_dudz', 'calc_dvdz', 'calc_dwdz', 'calc_shear2'):
            A(m, lambda d, b, m=m: getattr(b, m)(d['vel']))
        A('calc_doppler_noise', lambda d, b: b.calc_doppler_noise(b.calc_psd(one(d), **kpsd), pct_fN=.6))
        r = 1 if U == 'Hz' else 2 * np.pi
        A('calc_dissipation_LT83', lambda d, b: b.calc_dissipation_LT83(b.calc_psd(one(d), **kpsd), b.do_avg(d).velds.U_mag[j0], freq_range=[fs * .1 * r, fs * .45 * r]))
        A('calc_dissipation_SF', lambda d, b: b.calc_dissipation_SF(d['vel'][i0], r_range=[.5, 1.5]))
        A('nan_beyond_surface', lambda d, b: pclean.nan_beyond_surface(d, beam_angle=.4))
        A('correlation_filter', lambda d, b: pclean.correlation_filter(d, thresh=30))
        A('medfilt_orient', lambda d, b: pclean.medfilt_orient(d, nfilt=3))
        A('val_exceeds_thresh', lambda d, b: pclean.val_exceeds_thresh(d['vel'], thresh=1))
        A('fillgaps_time', lambda d, b: pclean.fillgaps_time(d['vel'], method='linear', maxgap=2))
        A('fillgaps_depth', lambda d, b: pclean.fillgaps_depth(d['vel'], method='linear', maxgap=2))
    return o


def outcome(f, d, b):
    try:
        r = f(d, b)
    except Exception as e:
        return 'raises %s' % type(e).__name__, 'raises %s: %s' % (type(e).__name__, e)
    return digest(list(r) if isinstance(r, tuple) else r), r


def scribble(r):
    """Overwrite the arrays a caller has been given (his to change); index coordinates are left alone."""
    if isinstance(r, (list, tuple)):
        return sum(scribble(x) for x in r)
    if isinstance(r, dict):
        return sum(scribble(x) for x in r.values())
    if isinstance(r, xr.Dataset):
        return sum(scribble(v.values) for v in r.data_vars.values())
    if isinstance(r, xr.DataArray):
        r = r.values
    if isinstance(r, np.ndarray) and r.size and r.flags.writeable and r.dtype.kind in 'fcbiu':
        r[...] = r.dtype.type(1)
        return 1
    return 0


def run(ctx):
    seen = {}
    for rng in ctx.cases('seq', ctx.n(45, 700)):
        adv = bool(rng.integers(2))
        kind = str(rng.choice(['vector_imu', 'vector'] if adv else ['signature', 'signature_ahrs', 'rdi', 'awac']))
        nb, k = int(rng.integers(24, 64)), int(rng.integers(2, 5))
        nt = nb * k + int(rng.integers(nb))
        cs = str(rng.choice(['inst', 'inst', 'earth', 'principal', 'beam']))
        fs = 8.
        ds = synth.make(rng, kind, nt=nt, nr=6, coord_sys=cs, fs=fs, nan_frac=0 if adv else float(rng.choice([0, .05])))
        ds.attrs['config_x'] = 3
        if kind == 'awac':
            ds.attrs['beam_angle'] = 25
        ds.attrs['cell_size'] = .5
        ds['depth'] = ('time', rng.uniform(1, 4, nt))
        ds['corr'].attrs['units'] = '%'
        if adv:
            ds.attrs['inst2head_vec'] = [.1, .2, .3]
            if rng.random() < .5:
                ds['inst2head_rotmat'] = (('x1', 'x2'), np.eye(3)[[1, 2, 0]])
                ds.attrs['inst2head_rotmat_was_set'] = 1
        ops = build_ops(rng, ds, nb, fs, adv)
        n = int(rng.integers(8, 26))
        seq = [ops[int(i)] for i in rng.integers(0, len(ops), n)]
        cls = ADVBinner if adv else ADPBinner
        kwb = dict(n_fft=int(rng.integers(8, nb + 1))) if rng.random() < .5 else {}
        # (copies have the memory layout of copies: results are compared bit for bit)
        pristine = _copy(ds)
        ds = _copy(pristine)
        with ctx.observe('seq', dict(kind=kind, coord_sys=cs, nb=nb, nt=nt, ops=[s[0] for s in seq], vel=ds['vel'].values)):
            b = cls(nb, fs, **kwb)
            d0, b0 = digest(ds), digest(vars(b))
            for name, f in seq:
                ctx.events += 1
                h, r = outcome(f, ds, b)
                ctx.events += 1
                ctx.count('call:' + name)
                if isinstance(r, str) and h.startswith('raises'):
                    ctx.count('raised')
                ctx.check(digest(ds) == d0, 'mutates-dataset:' + name, lambda: '%s changed the dataset: %s' % (name, describe_change(pristine, ds)))
                ctx.check(digest(vars(b)) == b0, 'mutates-binner:' + name, '%s changed the binner object' % name)
                fd, fb = _copy(pristine), cls(nb, fs, **kwb)
                h2, r2 = outcome(f, fd, fb)
                ctx.check(h == h2 or same_value(r, r2), 'history-dependent:' + name, lambda: '%s gives another result after %s than on pristine data%s' % (
                    name, [s[0] for s in seq][:6], (' (%s vs %s)' % (r, r2)) if isinstance(r, str) or isinstance(r2, str) else ''))
                # a result must not alias the dataset
                if rng.random() < .3:
                    h3, r3 = outcome(f, ds, b)
                    ctx.check(h3 == h or same_value(r, r3), 'not-repeatable:' + name, '%s gives another result the second time' % name)
                # what the caller does with a result does not reach later calls
                kept = copy.deepcopy(r) if rng.random() < .35 and name != 'set_inst2head_rotmat' else None
                if kept is not None and scribble(r2):
                    h4, r4 = outcome(f, _copy(pristine), cls(nb, fs, **kwb))
                    ctx.check(h4 == h or same_value(kept, r4), 'shared-result:' + name, '%s gives another result after the caller overwrote the arrays of an earlier result' % name)
                    ctx.count('results-overwritten')
                seen.setdefault(name, [0, 0])[0 if isinstance(r, str) and h.startswith('raises') else 1] += 1
    ctx.counts['operations-with-a-result'] = sum(1 for v in seen.values() if v[1])
    ctx.counts['operations-only-raising'] = ', '.join(k for k, v in seen.items() if not v[1]) or 'none'
