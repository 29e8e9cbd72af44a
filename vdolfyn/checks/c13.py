"""C13: orientation matrices, Euler angles and quaternions."""
import numpy as np
import xarray as xr
import dolfyn
from scipy.spatial.transform import Rotation
from dolfyn.rotate import base as rbase
from .. import synth, rotmodel

RULE = ('Random and boundary (heading, pitch, roll) series, unit quaternions and instrument datasets without a stored orientation '
        'matrix; a case is non-trivial when its angles are not all zero; every returned matrix is judged sample by sample.')
FILES = ['dolfyn/rotate/base.py', 'dolfyn/rotate/vector.py', 'dolfyn/rotate/rdi.py']

EDGE = [0., 90., -90., 180., -180., 270., 360., 45., 1e-6, 359.9999]


def angles(rng, n):
    h = rng.uniform(0, 360, n)
    p = rng.uniform(-89.9, 89.9, n)
    r = rng.uniform(-180, 180, n)
    for a in (h, r):
        m = rng.random(n) < .2
        a[m] = rng.choice(EDGE, m.sum())
    h %= 360
    m = rng.random(n) < .2
    p[m] = rng.choice([0., 45., -45., 89., -89., 1e-6], m.sum())
    return h, p, r


def proper(ctx, O, mech, tol):
    I = np.einsum('ijk,ljk->ilk', O, O)
    ctx.close(I, np.broadcast_to(np.eye(3)[:, :, None], I.shape), mech + ':orthonormal', 'O.O^T', rtol=0, atol=tol)
    ctx.close(np.linalg.det(np.moveaxis(O, -1, 0)), np.ones(O.shape[-1]), mech + ':det', 'det', rtol=0, atol=tol)


def angdiff(a, b):
    return np.abs((np.asarray(a, float) - b + 180) % 360 - 180)


def run(ctx):
    # --- dolfyn Euler angles <-> matrix
    for rng in ctx.cases('euler', ctx.n(150, 2500)):
        n = int(rng.integers(1, 60))
        h, p, r = angles(rng, n)
        units = str(rng.choice(['degrees', 'radians', 'default']))
        with ctx.observe('euler', dict(h=h, p=p, r=r, units=units)):
            if units == 'radians':
                O = ctx.call(dolfyn.euler2orient, np.deg2rad(h), np.deg2rad(p), np.deg2rad(r), units='radians', pure=True)
            elif units == 'degrees':
                O = ctx.call(dolfyn.euler2orient, h, p, r, units='degrees', pure=True)
            else:
                O = ctx.call(dolfyn.euler2orient, h, p, r, pure=True)
            ctx.check(O.shape == (3, 3, n), 'euler2orient:shape', 'shape %s' % (O.shape,))
            proper(ctx, O, 'euler2orient', 1e-9)
            ctx.close(O, rotmodel.axes_x_heading(h, p, r), 'euler2orient:convention', 'orientation matrix', atol=1e-9)
            h2, p2, r2 = ctx.call(dolfyn.orient2euler, O, pure=True)
            ctx.check(angdiff(h2, h).max() < 1e-4 and (np.asarray(h2) >= 0).all() and (np.asarray(h2) < 360.0000001).all(),
                      'roundtrip:heading', lambda: 'heading %r -> %r' % (h, h2))
            ctx.close(p2, p, 'roundtrip:pitch', atol=1e-4)
            ctx.check(angdiff(r2, r).max() < 1e-4, 'roundtrip:roll', lambda: 'roll %r -> %r' % (r, r2))
    with ctx.observe('euler-units', {'units': 'furlongs'}):
        ctx.expect_raises('euler2orient:bad-units', Exception, dolfyn.euler2orient, np.zeros(2), np.zeros(2), np.zeros(2),
                          units='furlongs')
    # --- matrix -> angles -> matrix, from arbitrary rotations and from datasets
    for rng in ctx.cases('omat', ctx.n(100, 1500)):
        n = int(rng.integers(1, 60))
        O = synth.rand_omat(rng, n, smooth=bool(rng.integers(2)))
        as_ds = bool(rng.integers(2))
        with ctx.observe('omat', dict(n=n, O=O, as_ds=as_ds)):
            if as_ds:
                arg = xr.Dataset({'orientmat': (('earth', 'inst', 'time'), O)})
            else:
                arg = O
            a = ctx.call(dolfyn.orient2euler, arg, pure=True)
            O2 = dolfyn.euler2orient(*a)
            ctx.close(O2, O, 'orient2euler:roundtrip', 'matrix', atol=1e-6)
    # --- quaternions
    for rng in ctx.cases('quat', ctx.n(40, 500)):
        n = int(rng.integers(1, 25))
        R = Rotation.random(n, random_state=int(rng.integers(2**31)))
        q = R.as_quat().reshape(n, 4)
        q *= rng.choice([-1, 1], (n, 1))
        if rng.random() < .3:
            q[0] = [0, 0, 0, 1]
        wxyz = np.column_stack([q[:, 3], q[:, :3]]).T
        da = xr.DataArray(wxyz, dims=['q', 'time'], coords={'q': ['w', 'x', 'y', 'z'], 'time': synth.times(n, 4.)})
        with ctx.observe('quat', dict(q=wxyz)):
            O = ctx.call(rbase.quaternion2orient, da, pure=True)
            proper(ctx, O.values, 'quaternion2orient', 1e-6)
            # quaternions describe inst -> earth: columns of R(q) are the instrument axes in earth
            want = np.moveaxis(Rotation.from_quat(q).as_matrix().reshape(n, 3, 3), 0, -1)
            x, y, z, w = q.T
            # axis 0 of the instrument in earth coordinates, straight from the quaternion product
            ax0 = np.array([1 - 2 * (y * y + z * z), 2 * (x * y + z * w), 2 * (x * z - y * w)])
            ctx.close(O.values[0], ax0, 'quaternion2orient:x-axis', 'x axis', atol=1e-6)
            ctx.close(O.values, np.swapaxes(want, 0, 1), 'quaternion2orient:matrix', 'matrix', atol=1e-6)
            ctx.eq(O.time.values, da.time.values, 'quaternion2orient:time')
    # --- per-instrument conventions, observed through rotate2 on unit vectors
    for rng in ctx.cases('convention', ctx.n(90, 1200)):
        kind = str(rng.choice(['vector', 'signature', 'rdi']))
        nt = int(rng.integers(2, 30))
        ds = synth.make(rng, kind, nt=nt, nr=3, coord_sys='inst', orientmat=False, orientation=str(rng.choice(['up', 'down'])))
        h, p, r = angles(rng, nt)
        p = np.clip(p, -60, 60)
        if rng.random() < .5:
            r = np.clip(r, -80, 80)
        ds['heading'].values[:], ds['pitch'].values[:], ds['roll'].values[:] = h, p, r
        if kind == 'rdi' and rng.random() < .3:
            ds.attrs['coord_sys'] = 'ship'
            ds.attrs['use_pitchroll'] = str(rng.choice(['yes', 'no']))
        nd = ds['vel'].shape[0]
        cols = []
        dsc = ds.copy(deep=True)
        with ctx.observe('convention', dict(kind=kind, h=h, p=p, r=r, o=ds.attrs.get('orientation'), cs=ds.attrs['coord_sys'])):
            for j in range(3):
                d = ds.copy(deep=True)
                d.attrs['rotate_vars'] = ['vel']
                d['vel'].values[:] = 0
                d['vel'].values[j] = 1
                if kind == 'signature' and j == 2:
                    d['vel'].values[3] = 1
                ctx.call(dolfyn.rotate2, d, 'earth')
                cols.append(d['vel'].values[:3] if kind == 'vector' else d['vel'].values[:3, 0])
            O = np.array(cols, float)
            proper(ctx, O, 'convention-' + kind, 2e-5)
            A = rotmodel.axes(dsc)
            if kind == 'signature' and ds.attrs['orientation'] == 'down':
                A[1:] = -A[1:]
            ctx.close(O, A, 'convention-%s:axes' % kind, 'instrument axes', atol=2e-5, rtol=0)
    # --- tilt
    for rng in ctx.cases('tilt', ctx.n(60, 600)):
        n = int(rng.integers(1, 40))
        p, r = rng.uniform(-80, 80, n), rng.uniform(-80, 80, n)
        p[rng.random(n) < .2] = 0
        r[rng.random(n) < .2] = 0
        form = str(rng.choice(['np', 'xr']))
        with ctx.observe('tilt', dict(p=p, r=r, form=form)):
            a = (p, r) if form == 'np' else (xr.DataArray(p, dims='time'), xr.DataArray(r, dims='time'))
            t = ctx.call(rbase.calc_tilt, *a, pure=True)
            # slope of the instrument's base plane: rise tan(p) along x, tan(r) along y
            nrm = np.sqrt(1 + np.tan(np.deg2rad(p)) ** 2 + np.tan(np.deg2rad(r)) ** 2)
            ctx.close(t, np.rad2deg(np.arccos(1 / nrm)), 'calc_tilt:value', 'tilt', atol=1e-5)
            ctx.check((np.asarray(t) >= 0).all(), 'calc_tilt:negative', 'negative tilt')
            ctx.close(t[r == 0], np.abs(p[r == 0]), 'calc_tilt:pure-pitch', 'tilt', atol=1e-6)
            ctx.close(rbase.calc_tilt(-r, -p), t, 'calc_tilt:symmetry', 'tilt', atol=1e-9)
