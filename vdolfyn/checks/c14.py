"""C14: rotate2 round trips, path independence, purity, only rotatable variables."""
import numpy as np
import dolfyn
from .. import synth
from ..core import digest, describe_change, _copy

RULE = ('Random walks over the rotation chain on synthetic datasets of every instrument family (NaNs, 1..60 samples, extra rotatable variables, '
        'stored or computed orientation, with/without inst2head rotation). After every step the data are compared with a direct rotation of the original '
        'and with the earlier visit of that frame; a case is non-trivial when at least two different frames were visited.')
FILES = ['dolfyn/rotate/api.py']

AXES = ['coord_sys_axes', 'coord_sys_axes_echo', 'coord_sys_axes_bt']   # the frame's axes as configured: dropped once rotated
FRAMES = ['beam', 'inst', 'earth', 'principal']


def tol(ds0, names):
    return {n: 2e-5 * max(1e-30, float(np.nanmax(np.abs(ds0[n].values)) if np.isfinite(ds0[n].values).any() else 1.)) for n in names}


def cond(ds):
    return np.linalg.cond(ds['beam2inst_orientmat'].values)


def same(ctx, a, b, names, t, mech, k=1.):
    for n in names:
        ctx.close(a[n].values, b[n].values, mech, '%s after rotation' % n, rtol=0, atol=t[n] * k)


def others_unchanged(ctx, ds, ds0, frame):
    rv = ds0.attrs['rotate_vars']
    skip = set(rv) | {'dir', 'dirIMU'}
    for k in ds0.variables:
        if k in skip:
            continue
        if k not in ds.variables:
            ctx.violation('drops-variable', '%s disappeared after rotate2' % k)
        if digest(np.asarray(ds[k].values)) != digest(np.asarray(ds0[k].values)):
            ctx.violation('changes-non-rotatable', '%s changed in rotate2 to %s' % (k, frame))
    extra = set(ds.variables) - set(ds0.variables)
    ctx.check(not extra, 'adds-variable', 'new variables %s' % extra)
    for k in set(ds.attrs) | set(ds0.attrs):
        if k != 'coord_sys' and k not in AXES and digest(ds.attrs.get(k)) != digest(ds0.attrs.get(k)):
            ctx.violation('changes-attrs', 'attribute %s changed: %r -> %r' % (k, ds0.attrs.get(k), ds.attrs.get(k)))
    left = [k for k in AXES if k in ds.attrs]
    ctx.check(not left, 'stale-axes-attr', '%s still says %r in the %s frame' % (left, [ds.attrs[k] for k in left], frame))
    for n in rv:
        ctx.check(ds[n].dims == ds0[n].dims and ds[n].shape == ds0[n].shape and ds[n].dtype.kind == ds0[n].dtype.kind,
                  'changes-shape', '%s: %s%s %s -> %s%s %s' % (n, ds0[n].dims, ds0[n].shape, ds0[n].dtype, ds[n].dims, ds[n].shape, ds[n].dtype))


def labels(ctx, ds, kind, frame):
    fam = 'vector' if kind in ('vector', 'vector_imu', 'awac') else kind.split('_')[0]
    want = list(range(1, ds['vel'].shape[0] + 1)) if frame == 'beam' else synth.DIRS[fam][frame]
    got = list(ds['dir'].values.tolist())
    ctx.check(list(map(str, got)) == list(map(str, want)), 'dir-labels', 'dir labels %s in %s frame' % (got, frame))
    if 'dirIMU' in ds:
        ctx.check(list(ds['dirIMU'].values) == synth.IMUD[frame], 'dirIMU-labels', 'dirIMU %s in %s' % (ds['dirIMU'].values, frame))
    ctx.check(ds['dir'].attrs.get('ref_frame') == frame, 'ref_frame', 'dir.ref_frame=%r in %s' % (ds['dir'].attrs.get('ref_frame'), frame))


def make(rng, ctx):
    kind = str(rng.choice(synth.KINDS))
    nt = int(rng.choice([1, 2, 3, 4, 17, 40]))
    om = bool(rng.random() < .8) or kind == 'awac'
    start = str(rng.choice(['beam', 'inst', 'earth']))
    amp = 10. ** rng.uniform(-3, 1.5)
    ds = synth.make(rng, kind, nt=nt, nr=int(rng.integers(1, 6)), coord_sys=start, orientmat=om,
                    nan_frac=float(rng.choice([0, 0, .2])), amp=amp,
                    dtype=np.float32 if rng.random() < .7 else np.float64)
    if rng.random() < .3 and kind == 'rdi' and 'vel_bt' in ds:
        ds['vel_bt'].values[:, rng.random(nt) < .3] = np.nan
    if kind.startswith('vector') and rng.random() < .4:
        from scipy.spatial.transform import Rotation
        dolfyn.set_inst2head_rotmat(ds, Rotation.random(random_state=int(rng.integers(2**31))).as_matrix())
    if rng.random() < .5:
        for k in AXES[:1 if kind != 'signature' else 3]:
            ds.attrs[k] = 'XYZ' if start != 'earth' else 'ENU'
    return kind, ds


def run(ctx):
    for rng in ctx.cases('walk', ctx.n(140, 2500)):
        kind, ds0 = make(rng, ctx)
        path = [str(f) for f in rng.choice(FRAMES, int(rng.integers(2, 7)))]
        start = ds0.attrs['coord_sys']
        names = list(ds0.attrs['rotate_vars'])
        inplace = bool(rng.integers(2))
        via = str(rng.choice(['func', 'accessor']))
        case_mix = bool(rng.random() < .1)
        t = tol(ds0, names)
        k = 4 * max(4., cond(ds0)) ** 2
        vis = {start: _copy(ds0)}
        with ctx.observe('walk', dict(kind=kind, start=start, path=path, inplace=inplace, via=via, nt=ds0.time.size,
                                      nan=bool(np.isnan(ds0['vel'].values).any()), om='orientmat' in ds0),
                         nontrivial=len(set(path + [start])) > 1):
            ds = _copy(ds0)
            for step, fr in enumerate(path):
                ctx.count('steps')
                arg = fr.upper() if case_mix else fr
                held = ds
                f = dolfyn.rotate2 if via == 'func' else (lambda d, o, inplace=True: d.velds.rotate2(o, inplace=inplace))
                was = ds.attrs['coord_sys']
                before = _copy(ds)
                if inplace:
                    r = ctx.call(f, ds, arg)
                    ctx.check(r is None, 'inplace-returns', 'rotate2(inplace=True) returned %s' % type(r))
                else:
                    r = ctx.call(f, ds, arg, inplace=False, pure=True)
                    ctx.check(r is not None and r is not ds, 'copy-returns', 'rotate2(inplace=False) did not return a new dataset')
                    # the copy must not share memory with the caller's dataset
                    for n in list(r.data_vars):
                        if np.shares_memory(r[n].values, held[n].values):
                            ctx.violation('aliases-input', '%s of the returned copy shares memory with the input' % n)
                    ctx.check(r.attrs is not held.attrs, 'aliases-attrs', 'attrs shared')
                    ds = r
                ctx.check(ds.attrs['coord_sys'] == fr, 'coord_sys',
                          'coord_sys %r after rotating %s->%s' % (ds.attrs['coord_sys'], was, fr))
                if fr == was:
                    for n in names:
                        ctx.eq(ds[n].values, before[n].values, 'noop-changes-data', n)
                    ctx.check(ds.attrs == before.attrs or digest(ds.attrs) == digest(before.attrs), 'noop-changes-attrs', 'attrs')
                    continue
                others_unchanged(ctx, ds, before, fr)
                labels(ctx, ds, kind, fr)
                if fr in vis:
                    same(ctx, ds, vis[fr], names, t, 'return-trip:' + kind, k)
                else:
                    vis[fr] = _copy(ds)
                d = _copy(ds0)
                if d.attrs['coord_sys'] != fr:
                    ctx.call(dolfyn.rotate2, d, fr)
                    same(ctx, ds, d, names, t, 'path-dependence:' + kind, k)
            # magnitudes between the orthogonal frames
            for n in names:
                A = {f: vis[f][n].values.astype(float) for f in ('inst', 'earth', 'principal') if f in vis}
                fs = list(A)
                for f1, f2 in zip(fs, fs[1:]):
                    a, b = A[f1], A[f2]
                    if a.shape[0] == 4 and kind.startswith('signature'):
                        if (f1, f2) == ('earth', 'principal'):
                            ctx.close(np.hypot(a[0], a[1]), np.hypot(b[0], b[1]), 'magnitude:' + kind, n, rtol=1e-5, atol=t[n] * k)
                            ctx.close(a[2:], b[2:], 'vertical-changed:' + kind, n, rtol=1e-6)
                        continue
                    ctx.close((a[:3] ** 2).sum(0) ** .5, (b[:3] ** 2).sum(0) ** .5, 'magnitude:' + kind, n, rtol=2e-5, atol=t[n] * k)
                    if (f1, f2) == ('earth', 'principal'):
                        ctx.close(a[2:3], b[2:3], 'vertical-changed:' + kind, n, rtol=1e-5, atol=t[n] * k)
                    if a.shape[0] == 4:
                        ctx.close(a[3], b[3], 'error-velocity-changed', n, rtol=1e-5, atol=t[n] * k)
    # ---- refusals leave the dataset alone
    for rng in ctx.cases('refuse', ctx.n(15, 100)):
        kind, ds = make(rng, ctx)
        what = str(rng.choice(['bad-out', 'bad-in', 'bad-inst']))
        d0 = _copy(ds)
        out = 'earth' if ds.attrs['coord_sys'] != 'earth' else 'inst'
        if what == 'bad-out':
            out = str(rng.choice(['ENU', 'xyz', '', 'ship2', 'heading']))
        elif what == 'bad-in':
            ds.attrs['coord_sys'] = d0.attrs['coord_sys'] = 'nowhere'
        else:
            ds.attrs['inst_make'], ds.attrs['inst_model'] = 'Acme', 'Flow9'
            d0.attrs.update(ds.attrs)
        with ctx.observe('refuse', dict(kind=kind, what=what, out=out)):
            ctx.expect_raises('accepts-' + what, Exception, dolfyn.rotate2, ds, out)
            ctx.check(digest(ds) == digest(d0), 'refusal-changes-data', lambda: describe_change(d0, ds))
