"""C15: the transform each rotation applies equals an independent evaluation."""
import warnings
import numpy as np
import dolfyn
from scipy.spatial.transform import Rotation
from .. import synth, rotmodel
from ..core import _copy

RULE = ('Every pair of frames of the chain on random datasets of every instrument family, with stored and computed orientation, up/down mounting, '
        'inst2head matrices, IMU variables and NaN samples; the result is compared elementwise with a geometric model in float64. '
        'Non-trivial: the transform differs from identity and the data are not constant.')
FILES = ['dolfyn/rotate/vector.py', 'dolfyn/rotate/signature.py', 'dolfyn/rotate/rdi.py']


def model(ds0, frame, R=None, ax=None):
    """{variable: {frame: expected}} for all frames, from data in ds0's own frame."""
    out = {}
    ph = ds0.attrs['principal_heading']
    nb = ds0['beam2inst_orientmat'].shape[0]
    B = np.asarray(ds0['beam2inst_orientmat'].values, float)
    ax = rotmodel.axes(ds0) if ax is None else ax
    chain = ['beam', 'inst', 'earth', 'principal']
    for n in ds0.attrs['rotate_vars']:
        v = np.asarray(ds0[n].values, float)
        i0 = chain.index(ds0.attrs['coord_sys'])
        if n in ('accel', 'angrt', 'mag'):
            i0 = max(i0, 1)      # IMU data are never on the acoustic beams
        exp = {}
        if i0 == 0:
            exp['beam'] = v
            x = rotmodel.beam_to_inst(ds0, v)
            if R is not None and n == 'vel':
                x = np.einsum('ij,j...->i...', R, x)
        elif i0 == 1:
            x = v
        exp['inst'] = x
        exp['earth'] = rotmodel.to_earth(ds0, x, ax)
        exp['principal'] = rotmodel.to_principal(exp['earth'], ph)
        out[n] = exp
    return out


def run(ctx):
    chain = ['beam', 'inst', 'earth', 'principal']
    for rng in ctx.cases('fwd', ctx.n(160, 3000)):
        kind = str(rng.choice(synth.KINDS))
        start = str(rng.choice(['beam', 'inst']))
        om = bool(rng.random() < .6) or kind == 'awac'
        if rng.random() < .15:
            kind, start, om = 'rdi', 'inst', False
        ds0 = synth.make(rng, kind, nt=int(rng.choice([1, 2, 5, 33])), nr=int(rng.integers(1, 5)), coord_sys=start, orientmat=om,
                         nan_frac=float(rng.choice([0, .25])), amp=10. ** rng.uniform(-2, 1))
        if kind == 'rdi' and start == 'inst' and rng.random() < .6:
            ds0.attrs['coord_sys'] = 'ship'
        R = None
        if kind.startswith('vector') and start == 'beam' and rng.random() < .5:
            R = Rotation.random(random_state=int(rng.integers(2**31))).as_matrix()
            dolfyn.set_inst2head_rotmat(ds0, R)
        ax = rotmodel.axes(ds0)
        d1 = _copy(ds0)
        d1.attrs['coord_sys'] = start
        exp = model(d1, start, R, ax)
        path = [f for f in chain[1:] if chain.index(f) > chain.index(start)]
        with ctx.observe('fwd', dict(kind=kind, start=ds0.attrs['coord_sys'], om=om, R=R, vel=ds0['vel'].values, o=ds0.attrs.get('orientation'))):
            ds = _copy(ds0)
            for fr in path:
                ctx.call(dolfyn.rotate2, ds, fr)
                for n in exp:
                    sc = np.nanmax(np.abs(ds0[n].values)) if np.isfinite(ds0[n].values).any() else 1.
                    e = exp[n][fr]
                    if kind == 'vector_imu' and start == 'beam' and n != 'vel':
                        mech = 'vector-beam-imu:accel-angrt-mag'
                    else:
                        mech = 'transform:%s:%s' % (kind, fr)
                    try:
                        ctx.close(ds[n].values, e, mech, '%s in %s' % (n, fr), rtol=0, atol=6e-5 * sc * 4)
                    except Exception as ex:
                        if mech.startswith('vector-beam-imu'):
                            ctx._report(ex.mech, ex.msg, 'fwd', dict(kind=kind, start=start), {})
                        else:
                            raise
                # NaN confinement: NaN exactly where the same sample had a NaN in an input component
                if kind != 'vector_imu':
                    for n in exp:
                        was = np.isnan(ds0[n].values).any(0)
                        now = np.isnan(ds[n].values).any(0)
                        ctx.check((was == now).all(), 'nan-spread', '%s: NaN samples changed from %d to %d' % (n, was.sum(), now.sum()))
    # ---- orientation gaps of a Vector: a trailing gap takes the last valid orientation; invalid samples are reported
    for rng in ctx.cases('gaps', ctx.n(40, 600)):
        kind = str(rng.choice(['vector', 'vector_imu']))
        nt = int(rng.choice([6, 20, 41]))
        ds0 = synth.make(rng, kind, nt=nt, coord_sys='inst', orientmat=False)
        tail = int(rng.integers(0, 4))
        mid = int(rng.integers(1, nt - tail - 1)) if rng.random() < .4 else None
        for k in ('heading', 'pitch', 'roll'):
            if tail:
                ds0[k].values[-tail:] = np.nan
            if mid is not None:
                ds0[k].values[mid] = np.nan
        full = _copy(ds0)
        for k in ('heading', 'pitch', 'roll'):
            if tail:
                full[k].values[-tail:] = ds0[k].values[nt - tail - 1]
        # the mounting flag stays that of each sample
        exp = model(full, 'inst')
        keep = {k: ds0[k].values.copy() for k in ('heading', 'pitch', 'roll')}
        with ctx.observe('gaps', dict(kind=kind, nt=nt, tail=tail, mid=mid)):
            ds = _copy(ds0)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                ctx.call(dolfyn.rotate2, ds, 'earth')
            for n in exp:
                ctx.close(ds[n].values, exp[n]['earth'], 'orientation-gap:%s' % kind, n, rtol=0, atol=6e-5 * 4 * np.nanmax(np.abs(ds0[n].values)))
            for k in keep:
                ctx.eq(ds[k].values, keep[k], 'orientation-gap:changes-' + k, k)
            said = [str(x.message) for x in w if 'orientation matrix' in str(x.message)]
            ctx.check(bool(said) == (mid is not None), 'orientation-gap:warning', lambda: 'bad sample %r, warnings %r' % (mid, said))
            if mid is not None:
                ctx.check(str(mid) in said[0], 'orientation-gap:warning-index', lambda: 'bad sample %r not named in %r' % (mid, said))
    # ---- inverse direction: earth/principal data -> expected inst/beam
    for rng in ctx.cases('rev', ctx.n(100, 1500)):
        kind = str(rng.choice(synth.KINDS))
        ds0 = synth.make(rng, kind, nt=int(rng.choice([1, 2, 5, 33])), nr=3, coord_sys='inst',
                         orientmat=bool(rng.random() < .6) or kind == 'awac')
        exp = model(ds0, 'inst')
        d = _copy(ds0)
        for n in exp:
            d[n].values = exp[n]['earth'].astype('float32')
        d.attrs['coord_sys'] = 'earth'
        with ctx.observe('rev', dict(kind=kind, vel=ds0['vel'].values)):
            ctx.call(dolfyn.rotate2, d, 'inst')
            for n in exp:
                ctx.close(d[n].values, ds0[n].values, 'inverse:%s:inst' % kind, n, rtol=0, atol=4e-4)
            if kind != 'vector_imu':
                ctx.call(dolfyn.rotate2, d, 'beam')
                for n in exp:
                    if d[n].shape[0] == d['beam2inst_orientmat'].shape[0]:
                        back = rotmodel.beam_to_inst(d, d[n].values)
                        ctx.close(back, ds0[n].values, 'inverse:%s:beam' % kind, n, rtol=0, atol=2e-3)
                    else:
                        ctx.close(d[n].values, ds0[n].values, 'inverse:%s:imu-in-beam' % kind, n, rtol=0, atol=4e-4)
