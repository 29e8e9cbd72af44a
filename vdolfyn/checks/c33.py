"""C33: the units and standard names that data and results carry."""
import re
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adp.api import ADPBinner
from dolfyn.adp import clean as pclean
from dolfyn.adv.api import ADVBinner
from dolfyn.adv.motion import correct_motion
from dolfyn.rotate.api import rotate2, set_declination
from .. import enc_nortek as EN, enc_rdi as ER, enc_sig as ES, synth
from .c01 import add_gps, write
from .c31 import build_ops

RULE = ('Random recordings of every family (all streams and navigation blocks) read, and the units and standard names of every variable compared, as dimensions, with a table of what the numbers are; all derived quantities in both frequency '
        'units; attributes before and after rotation, declination, averaging, cleaning and motion correction. Non-trivial: at least 10 variables or one derived quantity judged.')
FILES = ['dolfyn/io/base.py', 'dolfyn/io/nortek2.py', 'dolfyn/io/nortek_defs.py', 'dolfyn/io/nortek2_defs.py', 'dolfyn/io/rdi_defs.py', 'dolfyn/velocity.py', 'dolfyn/adv/turbulence.py', 'dolfyn/adp/turbulence.py']

SYN = dict(degree='deg', degrees='deg', degree_C='degC', seconds='s', sec='s', second='s', meter='m', meters='m', V='V', bits='bit')


def dims(u):
    """The exponents of the base units in a unit string."""
    if not isinstance(u, str):
        return None
    u = u.strip()
    if u.startswith('seconds since'):
        return {'epoch': 1}
    d = {}
    sign = 1
    for part in re.split(r'(/|\s+|\*)', u):
        if part is None or not part.strip() or part == '*':
            continue
        if part == '/':
            sign = -1
            continue
        m = re.fullmatch(r'([A-Za-z_%#]+)\^?(-?\d+)?', part)
        if not m:
            if part != '1':
                d[part] = d.get(part, 0) + sign
            sign = 1
            continue
        n, e = SYN.get(m[1], m[1]), sign * int(m[2] or 1)
        sign = 1
        if n == 'Hz':
            n, e = 's', -e
        d[n] = d.get(n, 0) + e
    return {k: v for k, v in d.items() if v}


# what the numbers are (judged against the recorded values by C01-C06 and C32)
SPEED, LEN, DEG, TEMP, PRES, EPOCH = 'm s-1', 'm', 'degree', 'degree_C', 'dbar', 'seconds since 1970-01-01 00:00:00'
UNIT = dict(vel=SPEED, c_sound=SPEED, avg_speed_gps=SPEED, speed_made_good_gps=SPEED, speed_over_grnd_gps=SPEED,
            accel='m s-2', angrt='rad s-1', alt_dist=LEN, depth=LEN, dist=LEN, dist_nmea=LEN, elevation_gps=LEN, ast_dist_alt=LEN, le_dist_alt=LEN, dsamp_alt=LEN, range=LEN,
            avg_dir_gps=DEG, dir_made_good_gps=DEG, dir_over_grnd_gps=DEG, heading=DEG, pitch=DEG, roll=DEG, heading_std=DEG, pitch_std=DEG, roll_std=DEG, heading_gps=DEG, pitch_gps=DEG, roll_gps=DEG,
            latitude_gps='degrees_north', longitude_gps='degrees_east', temp=TEMP, temp_clock=TEMP, temp_press=TEMP, pressure=PRES, press_std=PRES, pressure_std=PRES, pressure_alt=PRES,
            time=EPOCH, time_gps=EPOCH, batt='V', salinity='psu', prcnt_gd='%', ast_offset_time_alt='s', clock_offset_UTC_gps='s', min_preping_wait='s', rtk_age_gps='s', echo='dB',
            ast_quality_alt='dB', le_quality_alt='dB', alt_eval='dB', alt_rssi='dB', orientmat='1', beam2inst_orientmat='1', quaternions='1', fom='1', xmit_energy='dB')
NAME = dict(c_sound='speed_of_sound_in_sea_water', temp='sea_water_temperature', pressure='sea_water_pressure', heading='platform_orientation', pitch='platform_pitch', roll='platform_roll',
            time='time', latitude_gps='latitude', longitude_gps='longitude', salinity='sea_water_salinity', alt_dist='altimeter_range', ast_dist_alt='altimeter_range', le_dist_alt='altimeter_range',
            dir_over_grnd_gps='platform_course', dir_made_good_gps='platform_course', speed_over_grnd_gps='platform_speed_wrt_ground', speed_made_good_gps='platform_speed_wrt_ground',
            amp='signal_intensity_from_multibeam_acoustic_doppler_velocity_sensor_in_sea_water')
TAGS = ('_avg', '_b5', '_bt', '_echo', '_sl', 'raw', 'raw_avg', '')


def base(v):
    """The kind of variable, whatever the stream it belongs to."""
    if v in UNIT:
        return v
    for t in ('raw_avg', 'raw', '_avg', '_b5', '_bt', '_echo', '_sl'):
        if v.endswith(t) and v[:-len(t)] in UNIT:
            return v[:-len(t)]
    return v


def recording(rng, fam):
    if fam in ('rdi', 'wr2', 'vmdas'):
        c, es = ER.rand_file(rng, n=int(rng.integers(4, 8)))
        if fam != 'rdi':
            c.types = [t for t in c.types if t != 'unknown']
            add_gps(rng, c, es, fam)
        return b''.join(ER.encode(c, e) for e in es)
    if fam == 'vector':
        return b''.join(EN.rand_vector(rng, n_sec=3)[-1])
    if fam == 'awac':
        return b''.join(EN.rand_awac(rng, n=4)[-1])
    if fam == 'vectrino':
        return b''.join(EN.rand_vectrino(rng, n=5)[-1])
    c, R, b = ES.rand_file(rng, n=5)
    return ES.filehead(c) + b''.join(x[2] for x in b)


def judge_read(ctx, ds, mech):
    k = 0
    for v in ds.variables:
        b = base(v)
        if b in UNIT:
            k += 1
            u = ds[v].attrs.get('units')
            ctx.check(dims(u) == dims(UNIT[b]), mech + ':units:' + b, lambda: '%s is labelled %r, its numbers are in %s' % (v, u, UNIT[b]))
        if b in NAME:
            n = ds[v].attrs.get('standard_name')
            ctx.check(n == NAME[b], mech + ':standard_name:' + b, lambda: 'standard_name of %s: %r, not %s' % (v, n, NAME[b]))
        for a in ('units', 'long_name', 'standard_name'):
            ctx.check(ds[v].attrs.get(a) != '', mech + ':empty-label', lambda: '%s of %s is empty' % (a, v))
        if b == 'vel':
            l = str(ds[v].attrs.get('long_name', '')).lower()
            ctx.check(('bottom' in l) == v.endswith('_bt'), mech + ':long_name', lambda: 'long_name of %s: %r' % (v, l))
        if b == 'mag':
            ctx.check(ds[v].attrs.get('units') == ('gauss' if ds.attrs['inst_model'] == 'Vector' else 'uT'), mech + ':units:mag', lambda: '%s in %s' % (v, ds[v].attrs.get('units')))
        if b == 'corr':
            ctx.check(ds[v].attrs.get('units') == ('1' if ds.attrs['inst_make'] == 'TRDI' else '%'), mech + ':units:corr', lambda: '%s in %s' % (v, ds[v].attrs.get('units')))
    ctx.count('units-judged', k)
    return k


# derived quantities -> dimensions (None: depends on the frequency unit)
EPS, M2S2 = 'm2 s-3', 'm2 s-2'
DERIVED = dict(u=SPEED, v=SPEED, w=SPEED, U=SPEED, U_mag=SPEED, calc_tke=M2S2, calc_tke3=M2S2, calc_stress=M2S2, calc_epsilon_LT83=EPS, calc_epsilon_SF=EPS, calc_epsilon_TE01=EPS, calc_dissipation_LT83=EPS,
               calc_L_int=LEN, calc_doppler_noise=SPEED, calc_dudz='s-1', calc_dvdz='s-1', calc_dwdz='s-1', calc_shear2='s-2', fillgaps_time=SPEED, fillgaps_depth=SPEED,
               fill_nan_ensemble_mean=SPEED, val_exceeds_thresh=SPEED, calc_psd=None, psd3=None, calc_csd=None)
PSD = {'Hz': ('m2 s-2 Hz-1', 'Hz'), 'rad/s': ('m2 s-1 rad-1', 'rad s-1')}
TURB = dict(tke_vec=M2S2, stress_vec=M2S2, U_std=SPEED, vel=SPEED, psd=None)


def is_rad(c):
    return 'rad' in (dims(c.attrs.get('units')) or {})


def judge_psd(ctx, da, f, mech):
    """Spectra and their frequencies agree on the unit."""
    r = is_rad(da[f])
    up, uf = PSD['rad/s' if r else 'Hz']
    ctx.check(dims(da[f].attrs.get('units')) == dims(uf), mech + ':freq-units', lambda: 'frequency in %r' % da[f].attrs.get('units'))
    ctx.check(dims(da.attrs.get('units')) == dims(up), mech + ':units', lambda: 'spectrum in %r on frequencies in %r' % (da.attrs.get('units'), da[f].attrs.get('units')))
    return r


def with_units(ds):
    for v in ds.variables:
        u = UNIT.get(base(v))
        if u and base(v) != 'time':
            ds[v].attrs['units'] = u
        if base(v) in NAME:
            ds[v].attrs['standard_name'] = NAME[base(v)]
        ds[v].attrs.setdefault('long_name', v)
    return ds


def dataset(rng, adv, nt):
    kind = str(rng.choice(['vector_imu', 'vector'] if adv else ['signature', 'rdi', 'awac', 'signature_ahrs']))
    ds = synth.make(rng, kind, nt=nt, nr=6, coord_sys='inst', fs=8.)
    if not adv:
        ds.attrs['beam_angle'] = ds.attrs.get('beam_angle', 25)
    ds.attrs['cell_size'] = .5
    ds['depth'] = ('time', rng.uniform(1, 4, nt))
    ds['corr'].attrs['units'] = '%'
    if adv:
        ds.attrs['inst2head_vec'] = [.1, .2, .3]
    return with_units(ds), kind


def run(ctx):
    fams = ('rdi', 'wr2', 'vmdas', 'vector', 'awac', 'vectrino', 'signature', 'signature', 'signature', 'signature')
    for rng in ctx.cases('read', ctx.n(70, 900)):
        fam = fams[int(rng.integers(len(fams)))]
        b = recording(rng, fam)
        f = write(ctx, b, '')
        with ctx.observe('read', dict(family=fam, bytes=len(b), tail=b[-24:].hex())):
            ds = ctx.call(dolfyn.read, f)
            k = judge_read(ctx, ds, 'read-' + fam)
            ctx.check(k >= 3, 'read-' + fam + ':few', 'hardly any variable recognised: %s' % list(ds.variables))
            ctx.check(ds['vel'].attrs.get('units') is not None, 'read:vel', 'vel has no units') if 'vel' in ds else None
    for rng in ctx.cases('derived', ctx.n(24, 300)):
        adv = bool(rng.integers(2))
        nb = int(rng.integers(32, 64))
        ds, kind = dataset(rng, adv, nb * 3 + 5)
        B = (ADVBinner if adv else ADPBinner)(nb, 8.)
        with ctx.observe('derived', dict(kind=kind, nb=nb, vel=ds['vel'].values.ravel()[:4])):
            for name, f in build_ops(rng, ds, nb, 8., adv):
                if name not in DERIVED:
                    continue
                try:
                    r = f(ds.copy(deep=True), B)
                except Exception:
                    continue        # (calls with invalid overrides; C20-C25 judge which)
                ctx.count('derived-judged')
                if DERIVED[name]:
                    ctx.check(dims(r.attrs.get('units')) == dims(DERIVED[name]), 'derived:units:' + name, lambda: '%s is labelled %r, its numbers are in %s' % (name, r.attrs.get('units'), DERIVED[name]))
                else:
                    judge_psd(ctx, r, r.dims[-1], 'derived:' + name)
            d = ds.copy(deep=True)
            ud = d.velds.U_dir.attrs['units']
            ctx.check(ud.lower().startswith('degree'), 'derived:units:U_dir', ud)
    for rng in ctx.cases('units-asked', ctx.n(16, 200)):
        adv = bool(rng.integers(2))
        nb = int(rng.integers(32, 64))
        ds, kind = dataset(rng, adv, nb * 3 + 5)
        B = (ADVBinner if adv else ADPBinner)(nb, 8.)
        U = str(rng.choice(['Hz', 'rad/s']))
        with ctx.observe('units-asked', dict(kind=kind, units=U, nb=nb, vel=ds['vel'].values.ravel()[:4])):
            x = ds['vel'][0] if adv else ds['vel'][0, 1]
            p = ctx.call(B.calc_psd, x, freq_units=U)
            ctx.check(judge_psd(ctx, p, 'freq', 'asked:psd') == (U == 'rad/s'), 'asked:psd', lambda: 'asked for %s, got %s' % (U, p['freq'].attrs))
            # and the numbers are in it
            w = B.n_fft
            top = 4. * (2 * np.pi if U == 'rad/s' else 1)
            ctx.check(abs(float(p['freq'][-1]) - top * (1 if w % 2 == 0 else (w - 1) / w)) < 1e-6 * top, 'asked:top', lambda: 'highest frequency %s in %s' % (float(p['freq'][-1]), U))
            if adv:
                c = ctx.call(B.calc_csd, ds['vel'], freq_units=U)
                ctx.check(judge_psd(ctx, c, 'coh_freq', 'asked:csd') == (U == 'rad/s'), 'asked:csd', lambda: 'asked for %s, got %s' % (U, c['coh_freq'].attrs))
                t = ctx.call(B, ds, freq_units=U)
                for v, u in TURB.items():
                    if u:
                        ctx.check(dims(t[v].attrs.get('units')) == dims(u), 'asked:bundle:' + v, lambda: '%s is labelled %r, its numbers are in %s' % (v, t[v].attrs.get('units'), u))
                ctx.check(judge_psd(ctx, t['psd'], 'freq', 'asked:bundle') == (U == 'rad/s'), 'asked:bundle-psd', 'units of the spectra in the bundle')
                for n, u in dict(tke=M2S2, upup_=M2S2, vpvp_=M2S2, wpwp_=M2S2, upvp_=M2S2, upwp_=M2S2, vpwp_=M2S2, E_coh=M2S2).items():
                    a = getattr(t.velds, n)
                    ctx.check(dims(a.attrs.get('units')) == dims(u), 'asked:accessor:' + n, lambda: '%s is labelled %r, its numbers are in %s' % (n, a.attrs.get('units'), u))
            ctx.count('derived-judged', 4)
    for rng in ctx.cases('kept', ctx.n(24, 300)):
        adv = bool(rng.integers(2))
        nb = int(rng.integers(8, 32))
        ds, kind = dataset(rng, adv, nb * 3 + 5)
        want = {v: dict(ds[v].attrs) for v in ds.data_vars}
        ops = {'rotate2': lambda d: rotate2(d, str(rng.choice(['beam', 'earth'])), inplace=False),
               'set_declination': lambda d: set_declination(d, 11.5, inplace=False),
               'do_avg': lambda d: (ADVBinner if adv else ADPBinner)(nb, 8.).do_avg(d)}
        if kind == 'vector_imu':
            ops['correct_motion'] = lambda d: correct_motion(d.copy(deep=True))
        if not adv:
            ops['nan_beyond_surface'] = lambda d: pclean.nan_beyond_surface(d, beam_angle=25)
            ops['correlation_filter'] = lambda d: pclean.correlation_filter(d, thresh=30)
        with ctx.observe('kept', dict(kind=kind, vel=ds['vel'].values.ravel()[:4])):
            for n, f in ops.items():
                r = ctx.call(f, ds.copy(deep=True))
                for v in want:
                    if v not in r:
                        continue
                    for a in ('units', 'standard_name', 'long_name'):
                        ctx.check(r[v].attrs.get(a) == want[v].get(a), 'kept:%s:%s' % (n, a), lambda: '%s of %s was %r, after %s it is %r' % (a, v, want[v].get(a), n, r[v].attrs.get(a)))
                if n == 'correct_motion':
                    for v, u in dict(velrot=SPEED, velacc=SPEED, acclow='m s-2', vel_raw=SPEED).items():
                        ctx.check(v in r and dims(r[v].attrs.get('units')) == dims(u), 'kept:motion:' + v, lambda: '%s is labelled %r' % (v, r[v].attrs.get('units')))
                ctx.count('attributes-kept', len(want))
