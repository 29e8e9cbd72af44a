"""C17: set_inst2head_rotmat."""
import numpy as np
import dolfyn
from scipy.spatial.transform import Rotation
from .. import synth, rotmodel
from ..core import _copy, digest, describe_change

RULE = ('Random rotation matrices applied to Vector datasets in every frame, before and after rotations, followed by rotation walks compared with the model '
        '(velocity turned once by the matrix in the instrument frame); invalid, repeated and unsupported calls must be refused without touching the data. '
        'Non-trivial: matrix differs from identity.')
FILES = ['dolfyn/rotate/api.py', 'dolfyn/rotate/vector.py']
CH = ['beam', 'inst', 'earth', 'principal']


def run(ctx):
    for rng in ctx.cases('set', ctx.n(120, 1800)):
        kind = str(rng.choice(['vector', 'vector_imu']))
        ds0 = synth.make(rng, kind, nt=int(rng.choice([1, 3, 20])), coord_sys='inst', orientmat=bool(rng.random() < .7))
        ax = rotmodel.axes(ds0)
        start = str(rng.choice(CH))
        R = Rotation.random(random_state=int(rng.integers(2**31))).as_matrix()
        if rng.random() < .3:
            R = Rotation.from_euler('xyz', rng.choice([0, 90, 180, 270], 3), degrees=True).as_matrix().round(12)
        form = str(rng.choice(['array', 'list']))
        mode = str(rng.choice(['inplace', 'copy', 'accessor']))
        walk = [str(f) for f in rng.choice(CH, int(rng.integers(1, 5)))]
        ph = ds0.attrs['principal_heading']
        v0 = ds0['vel'].values.astype(float)
        vin = R @ v0
        earth = rotmodel.to_earth(ds0, vin, ax)
        exp = {'inst': vin, 'earth': earth, 'principal': rotmodel.to_principal(earth, ph)}
        Binv = np.linalg.inv(ds0['beam2inst_orientmat'].values)
        exp['beam'] = Binv @ v0
        sc = np.abs(v0).max()
        with ctx.observe('set', dict(kind=kind, R=R, start=start, walk=walk, mode=mode), nontrivial=not np.allclose(R, np.eye(3))):
            ds = _copy(ds0)
            if start != 'inst':
                dolfyn.rotate2(ds, start)
            b4 = _copy(ds)
            arg = R if form == 'array' else R.tolist()
            if mode == 'inplace':
                r = ctx.call(dolfyn.set_inst2head_rotmat, ds, arg)
                ctx.check(r is None, 'inplace-return', 'returned %r' % type(r))
            elif mode == 'accessor':
                ctx.call(ds.velds.set_inst2head_rotmat, arg)
            else:
                ds = ctx.call(dolfyn.set_inst2head_rotmat, ds, arg, inplace=False, pure=True)
            ctx.check(ds.attrs['coord_sys'] == start, 'frame', 'coord_sys %r, was %r' % (ds.attrs['coord_sys'], start))
            ctx.check(ds['inst2head_rotmat'].dims == ('x1', 'x2'), 'stored-dims', '%s' % (ds['inst2head_rotmat'].dims,))
            ctx.close(ds['inst2head_rotmat'].values, R, 'stored', 'inst2head_rotmat', rtol=1e-12, atol=1e-12)
            ctx.check(bool(ds.attrs.get('inst2head_rotmat_was_set')), 'was-set-flag', 'flag not set')
            for k in b4.variables:
                if k not in b4.attrs['rotate_vars']:
                    ctx.check(np.array_equal(b4[k].values, ds[k].values), 'other-variable', '%s changed' % k)
            for fr in [start] + walk:
                if ds.attrs['coord_sys'] != fr:
                    ctx.call(dolfyn.rotate2, ds, fr)
                ctx.close(ds['vel'].values, exp[fr], 'state:' + fr, 'vel', rtol=0, atol=3e-4 * sc)
                if kind == 'vector_imu' and start != 'beam' and 'beam' not in walk:
                    d = _copy(ds0)
                    if fr != 'inst':
                        dolfyn.rotate2(d, fr)
                    for n in ('accel', 'angrt', 'mag'):
                        ctx.close(ds[n].values, d[n].values, 'imu-rotated', n, rtol=0, atol=1e-4)
            # a second call must be refused and change nothing
            d1 = _copy(ds)
            ctx.expect_raises('second-call', Exception, dolfyn.set_inst2head_rotmat, ds, np.eye(3))
            ctx.check(digest(ds) == digest(d1), 'second-call-changes', lambda: describe_change(d1, ds))
    for rng in ctx.cases('refuse', ctx.n(60, 600)):
        what = str(rng.choice(['scaled', 'reflection', 'shape', 'instrument']))
        R = Rotation.random(random_state=int(rng.integers(2**31))).as_matrix()
        kind = 'vector'
        if what == 'scaled':
            R = R * float(rng.choice([.5, .9, .98, .995, 1.004, 1.02, 1.1, 2, 0]))
        elif what == 'reflection':
            R = R * np.array([1, 1, -1])
        elif what == 'shape':
            R = [R[:2], R[:2, :2], R[0], np.zeros((3, 4))][int(rng.integers(4))]
        else:
            kind = str(rng.choice(['awac', 'signature', 'rdi']))
        start = str(rng.choice(['beam', 'inst', 'earth', 'principal']))
        ds = synth.make(rng, kind, nt=6, coord_sys='inst')
        with ctx.observe('refuse', dict(what=what, kind=kind, start=start, R=np.asarray(R))):
            if start != 'inst':
                dolfyn.rotate2(ds, start)
            d0 = _copy(ds)
            ctx.expect_raises('accepts-' + what, Exception, dolfyn.set_inst2head_rotmat, ds, R)
            ctx.check(digest(ds) == digest(d0), 'refusal-changes-data', lambda: what + ': ' + describe_change(d0, ds))
