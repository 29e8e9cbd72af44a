"""C16: set_declination."""
import numpy as np
import dolfyn
from .. import synth, rotmodel
from ..core import _copy, digest
from .c15 import model

RULE = ('Random histories of set_declination and rotate2 calls (in place, copies, accessor) on datasets of every family; the state after every step is compared '
        'with a geometric model holding only the original data and the latest declination. Non-trivial: at least one non-zero declination was set.')
FILES = ['dolfyn/rotate/api.py']
CH = ['beam', 'inst', 'earth', 'principal']


def cw(v, d):
    """Express magnetic-earth vectors in true-earth axes; magnetic north is d deg clockwise of true north."""
    d = np.deg2rad(d)
    v = np.asarray(v, float)
    out = v.copy()
    out[0] = v[0] * np.cos(d) + v[1] * np.sin(d)
    out[1] = -v[0] * np.sin(d) + v[1] * np.cos(d)
    return out


def adiff(a, b):
    return np.abs((np.asarray(a, float) - np.asarray(b, float) + 180) % 360 - 180)


def run(ctx):
    for rng in ctx.cases('history', ctx.n(150, 2500)):
        kind = str(rng.choice(synth.KINDS))
        ds0 = synth.make(rng, kind, nt=int(rng.choice([1, 2, 9, 30])), nr=2, coord_sys='inst', principal=True,
                         nan_frac=float(rng.choice([0, .2])))
        start = str(rng.choice(['inst', 'earth', 'beam', 'principal']))
        exp0 = model(ds0, 'inst')
        B = ds0['beam2inst_orientmat'].values
        with_heading = bool(rng.random() < .85)
        with_ph = bool(rng.random() < .7) or start == 'principal'
        ops = []
        cur = start
        for _ in range(int(rng.integers(1, 7))):
            if rng.random() < .55:
                d = float(np.round(rng.choice([rng.uniform(-40, 40), 0., 15.5, -180., 180.], p=[.8, .05, .05, .05, .05]), 3))
                ops.append(('dec', d))
                if rng.random() < .25:
                    ops.append(('dec', d))
            else:
                f = str(rng.choice(CH if with_ph else CH[:3]))
                if kind == 'vector_imu' and f == 'beam':
                    f = 'inst'
                ops.append(('rot', f))
        if not any(o[0] == 'dec' for o in ops):
            ops.append(('dec', 12.25))
        if kind == 'vector_imu' and start == 'beam':
            start = 'inst'
        mode = str(rng.choice(['inplace', 'copy', 'accessor']))
        with ctx.observe('history', dict(kind=kind, start=start, ops=ops, mode=mode, vel=ds0['vel'].values)):
            ds = _copy(ds0)
            if not with_ph:
                ds.attrs.pop('principal_heading')
            if not with_heading:
                ds = ds.drop_vars('heading')
            if start != 'inst':
                dolfyn.rotate2(ds, start)
            D = 0.
            isset = False
            sc = {n: np.nanmax(np.abs(ds0[n].values)) if np.isfinite(ds0[n].values).any() else 1. for n in exp0}
            for op, a in ops:
                ctx.count('op:' + op)
                before = _copy(ds)
                if op == 'dec':
                    if mode == 'inplace':
                        r = ctx.call(dolfyn.set_declination, ds, a)
                        ctx.check(r is None, 'inplace-return', 'returned %r' % type(r))
                    elif mode == 'accessor':
                        ctx.call(ds.velds.set_declination, a)
                    else:
                        r = ctx.call(dolfyn.set_declination, ds, a, inplace=False, pure=True)
                        ctx.check(r is not None and r is not ds, 'copy-return', 'no new dataset')
                        ds = r
                    again = isset and a == D
                    D, isset = a, True
                    ctx.check(ds.attrs.get('declination') == a, 'declination-attr', 'declination attr %r after setting %r' % (ds.attrs.get('declination'), a))
                    ctx.check(bool(ds.attrs.get('declination_in_orientmat')), 'in-orientmat-attr', 'declination_in_orientmat not set')
                    ctx.check(ds.attrs['coord_sys'] == before.attrs['coord_sys'], 'frame-changed', 'coord_sys changed by set_declination')
                    if ds.attrs['coord_sys'] in ('inst', 'beam', 'principal'):
                        for n in exp0:
                            ctx.eq(ds[n].values, before[n].values, 'non-earth-data-changed', '%s in %s' % (n, ds.attrs['coord_sys']))
                    if again:
                        ctx.count('repeat')
                        for n in list(exp0) + ['orientmat']:
                            ctx.close(ds[n].values, before[n].values, 'repeat-changes', n, rtol=0, atol=2e-5 * sc.get(n, 1.))
                else:
                    ctx.call(dolfyn.rotate2, ds, a)
                fr = ds.attrs['coord_sys']
                for n, e in exp0.items():
                    v = e.get(fr)
                    if fr == 'earth':
                        v = cw(v, D)
                    elif fr == 'principal':
                        # principal axes are fixed in space: same data whatever the declination
                        v = rotmodel.to_principal(cw(e['earth'], D), ds0.attrs['principal_heading'] + D)
                    elif fr == 'beam':
                        if ds[n].shape[0] != B.shape[0]:
                            continue
                        got = rotmodel.beam_to_inst(ds, ds[n].values)
                        ctx.close(got, e['inst'], 'state:beam', n, rtol=0, atol=5e-4 * sc[n])
                        continue
                    ctx.close(ds[n].values, v, 'state:%s' % fr, '%s after %s' % (n, ops), rtol=0, atol=2e-4 * sc[n])
                if with_heading:
                    ctx.check(adiff(ds['heading'].values, ds0['heading'].values + D).max() < 2e-3, 'heading',
                              lambda: 'heading %s, expected %s' % (ds['heading'].values[:3], (ds0['heading'].values + D)[:3]))
                if with_ph:
                    ctx.check(adiff(ds.attrs['principal_heading'], ds0.attrs['principal_heading'] + D) < 1e-6, 'principal_heading',
                              'principal_heading %r, expected %r' % (ds.attrs['principal_heading'], ds0.attrs['principal_heading'] + D))
                # orientation matrix axes turned by D
                A = ds0['orientmat'].values.astype(float)
                want = np.array([cw(A[i], D) for i in range(3)])
                ctx.close(ds['orientmat'].values, want, 'orientmat', 'orientmat', rtol=0, atol=3e-5)
                for k in before.variables:
                    if k not in exp0 and k not in ('orientmat', 'heading', 'dir', 'dirIMU'):
                        ctx.check(digest(ds[k].values) == digest(before[k].values), 'other-variable', '%s changed' % k)
