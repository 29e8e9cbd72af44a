"""Synthetic in-memory datasets shaped like what the readers return, and random
signal generators.  All randomness comes from the caller's rng."""
import numpy as np
import xarray as xr
from scipy.spatial.transform import Rotation

KINDS = ['vector', 'vector_imu', 'awac', 'signature', 'signature_ahrs', 'rdi']

T4 = {}


def rdi_beam(theta=20., convex=True):
    c = 1. if convex else -1.
    t = np.deg2rad(theta)
    a, b = 1 / (2 * np.sin(t)), 1 / (4 * np.cos(t))
    d = a / np.sqrt(2)
    return np.array([[c * a, -c * a, 0, 0], [0, 0, -c * a, c * a], [b, b, b, b], [d, d, -d, -d]])


def sig_beam(theta=25.):
    t = np.deg2rad(theta)
    s, c = 1 / (2 * np.sin(t)), 1 / (2 * np.cos(t))
    return np.array([[s, 0, -s, 0], [0, -s, 0, s], [c, 0, c, 0], [0, c, 0, c]])


def adv_beam(rng):
    b = np.array([[2.7249, -1.3770, -1.3503], [-0.0161, 2.3442, -2.3308], [0.3472, 0.3455, 0.3389]])
    return b + rng.normal(0, .02, (3, 3))


def awac_beam(rng):
    b = np.array([[1.5774, -0.7891, -0.7891], [0., -1.3662, 1.3662], [0.3677, 0.3677, 0.3677]])
    return b + rng.normal(0, .01, (3, 3))


def rand_omat(rng, nt, smooth=True):
    """(3, 3, nt) earth->inst proper rotations (earth, inst ordering is irrelevant to
    how the library uses it: index 0 is the instrument axis)."""
    if smooth:
        r0 = Rotation.random(random_state=int(rng.integers(2**31)))
        w = np.cumsum(rng.normal(0, .05, (nt, 3)), 0)
        m = (Rotation.from_rotvec(w) * r0).as_matrix()
    else:
        m = Rotation.random(nt, random_state=int(rng.integers(2**31))).as_matrix().reshape(nt, 3, 3)
    return np.moveaxis(m, 0, -1)


def times(nt, fs, t0='2017-08-04T12:00:00'):
    dt = np.round(np.arange(nt) * 1e9 / fs).astype('int64')
    return np.datetime64(t0, 'ns') + dt.astype('timedelta64[ns]')


DIRS = {
    'vector': dict(inst=['X', 'Y', 'Z'], earth=['E', 'N', 'U'], principal=['streamwise', 'x-stream', 'vert']),
    'signature': dict(inst=['X', 'Y', 'Z1', 'Z2'], earth=['E', 'N', 'U1', 'U2'],
                      principal=['streamwise', 'x-stream', 'vert1', 'vert2']),
    'rdi': dict(inst=['X', 'Y', 'Z', 'err'], earth=['E', 'N', 'U', 'err'],
                principal=['streamwise', 'x-stream', 'vert', 'err']),
}
IMUD = dict(beam=['X', 'Y', 'Z'], inst=['X', 'Y', 'Z'], earth=['E', 'N', 'U'],
            principal=['streamwise', 'x-stream', 'vert'])


def make(rng, kind, nt=24, nr=5, coord_sys='inst', fs=None, orientmat=True, orientation=None,
         nan_frac=0., dtype=np.float32, vel=None, amp=1.0, principal=True, extra=True):
    fam = 'vector' if kind in ('vector', 'vector_imu', 'awac') else kind.split('_')[0]
    nd = 3 if fam == 'vector' else 4
    prof = kind not in ('vector', 'vector_imu')
    shp = (nd, nr, nt) if prof else (nd, nt)
    fs = fs or {'vector': 32., 'vector_imu': 16., 'awac': 1 / 60., 'signature': 4., 'signature_ahrs': 8.,
                'rdi': 2.}[kind]
    t = times(nt, fs)
    dirs = dict(DIRS[fam])
    dirs['beam'] = list(range(1, nd + 1))
    beam = np.arange(1, nd + 1, dtype=np.int32)
    vdims = ('dir', 'range', 'time') if prof else ('dir', 'time')
    bdims = ('beam',) + vdims[1:]
    c = {'time': t, 'beam': beam, 'dir': dirs[coord_sys], 'x1': beam, 'x2': beam,
         'earth': ['E', 'N', 'U'], 'inst': ['X', 'Y', 'Z']}
    if prof:
        c['range'] = (np.arange(nr) + 1.) * 0.5 + 0.2
    if vel is None:
        vel = rng.normal(0, 1, shp) * amp + rng.normal(0, 1, (nd,) + (1,) * (len(shp) - 1)) * amp
        if nan_frac:
            m = rng.random(shp[1:]) < nan_frac
            vel[:, m] = np.nan
    v = {'vel': (vdims, vel.astype(dtype))}
    if extra:
        v['corr'] = (bdims, rng.integers(0, 100, shp).astype('uint8'))
        v['amp'] = (bdims, rng.integers(0, 255, shp).astype('float32' if fam != 'vector' else 'uint8'))
    h = rng.uniform(0, 360, nt)
    p = rng.uniform(-25, 25, nt)
    r = rng.uniform(-40, 40, nt)
    for k, x in (('heading', h), ('pitch', p), ('roll', r)):
        v[k] = ('time', x.astype('float32'))
    v['pressure'] = ('time', (10 + rng.normal(0, 1, nt)).astype('float32'))
    v['temp'] = ('time', (8 + rng.normal(0, 1, nt)).astype('float32'))
    v['c_sound'] = ('time', (1490 + rng.normal(0, 1, nt)).astype('float32'))
    rv = ['vel']
    if kind in ('vector_imu', 'signature_ahrs'):
        idim = 'dir' if kind == 'vector_imu' else 'dirIMU'
        for k in ('accel', 'angrt', 'mag'):
            v[k] = ((idim, 'time'), rng.normal(0, 1, (3, nt)).astype('float32'))
            rv.append(k)
        if idim == 'dirIMU':
            c['dirIMU'] = IMUD[coord_sys]
    if kind == 'signature' and extra and rng.random() < .5:
        # accelerometer and magnetometer of an instrument mounted 'up' or 'down' without an AHRS; bottom track
        c['dirIMU'] = IMUD[coord_sys]
        for k in ('accel', 'mag'):
            v[k] = (('dirIMU', 'time'), rng.normal(0, 1, (3, nt)).astype('float32'))
            rv.append(k)
        if rng.random() < .5:
            v['vel_bt'] = (('dir', 'time'), rng.normal(0, 1, (4, nt)).astype('float32'))
            rv.append('vel_bt')
    if kind == 'rdi' and extra:
        v['vel_bt'] = (('dir', 'time'), rng.normal(0, 1, (4, nt)).astype('float32'))
        rv.append('vel_bt')
    b2i = {'vector': adv_beam, 'vector_imu': adv_beam, 'awac': awac_beam}.get(kind)
    theta = None
    if b2i is not None:
        b2i = b2i(rng)
    elif fam == 'signature':
        theta = 25.
        b2i = sig_beam(theta)
    else:
        theta = float(rng.choice([15, 20, 30]))
        b2i = rdi_beam(theta, bool(rng.integers(2)))
    v['beam2inst_orientmat'] = (('x1', 'x2'), b2i)
    if kind in ('vector', 'vector_imu'):
        v['orientation_down'] = ('time', rng.random(nt) < .3)
    if orientmat:
        v['orientmat'] = (('earth', 'inst', 'time'), rand_omat(rng, nt).astype('float32'))
    ds = xr.Dataset(v, coords=c)
    mk, md, ty = {'vector': ('Nortek', 'Vector', 'ADV'), 'vector_imu': ('Nortek', 'Vector', 'ADV'),
                  'awac': ('Nortek', 'AWAC', 'ADCP'), 'signature': ('Nortek', 'Signature1000', 'ADCP'),
                  'signature_ahrs': ('Nortek', 'Signature500', 'ADCP'),
                  'rdi': ('TRDI', 'Workhorse', 'ADCP')}[kind]
    if kind == 'rdi':
        mk = 'TRDI'
    ds.attrs = dict(inst_make=mk, inst_model=md, inst_type=ty, rotate_vars=rv, coord_sys=coord_sys, fs=fs,
                    n_beams=nd, has_imu=int(kind in ('vector_imu', 'signature_ahrs')))
    if fam == 'signature':
        ds.attrs['orientation'] = orientation or ('AHRS' if kind == 'signature_ahrs' else str(rng.choice(['up', 'down'])))
        ds.attrs['beam_angle'] = 25
    if kind == 'rdi':
        ds.attrs['orientation'] = orientation or str(rng.choice(['up', 'down']))
        ds.attrs['beam_angle'] = theta
        ds.attrs['use_pitchroll'] = str(rng.choice(['yes', 'no']))
    if principal:
        ds.attrs['principal_heading'] = float(np.round(rng.uniform(-90, 270), 4))
    for k in ds.variables:
        ds[k].attrs.setdefault('long_name', str(k))
        if k not in ('dir', 'beam'):
            ds[k].attrs.setdefault('units', '1')
    ds['dir'].attrs['ref_frame'] = coord_sys
    return ds


# ------------------------------------------------------------------- signals
def colored(rng, n, slope=-5 / 3., fs=1., std=1., lead=()):
    """Gaussian noise with a power-law spectrum (unit variance times std**2)."""
    f = np.fft.rfftfreq(n, 1. / fs)
    a = np.zeros(len(f))
    a[1:] = f[1:] ** (slope / 2)
    z = rng.normal(size=lead + (len(f), 2)).view(complex)[..., 0] * a
    x = np.fft.irfft(z, n, axis=-1)
    return x / x.std(-1, keepdims=True) * std


def signal(rng, n, kind=None):
    kind = kind or str(rng.choice(['white', 'red', 'sine', 'step', 'spiky', 'ramp']))
    t = np.arange(n)
    if kind == 'white':
        x = rng.normal(size=n)
    elif kind == 'red':
        x = colored(rng, n)
    elif kind == 'sine':
        x = np.sin(2 * np.pi * rng.uniform(.01, .45) * t + rng.uniform(0, 6.28)) + .1 * rng.normal(size=n)
    elif kind == 'step':
        x = np.where(t < rng.integers(1, n), -1., 1.) + .05 * rng.normal(size=n)
    elif kind == 'spiky':
        x = .1 * rng.normal(size=n)
        x[rng.integers(0, n, max(1, n // 20))] += rng.normal(0, 10)
    else:
        x = t / n + .1 * rng.normal(size=n)
    return x * 10 ** rng.uniform(-2, 2) + rng.normal(0, 1) * 10 ** rng.uniform(-2, 1)
