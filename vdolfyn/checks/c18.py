"""C18: principal heading and angle conversion."""
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.tools import misc
from .. import synth

RULE = ('Random horizontal velocity records (tidal ellipses, unidirectional, mixed, profiles, NaNs, numpy and xarray) judged against the doubled-angle definition, '
        'against the known generating axis and for equivariance under turning, scaling, permutation, NaN padding. Non-trivial: non-zero spread of directions.')
FILES = ['dolfyn/rotate/api.py', 'dolfyn/tools/misc.py']


def ad(a, b, m):
    return np.abs((np.asarray(a, float) - np.asarray(b, float) + m / 2) % m - m / 2)


def turn(v, d):
    """turn clockwise by d degrees"""
    d = np.deg2rad(d)
    out = v.copy()
    out[0] = v[0] * np.cos(d) + v[1] * np.sin(d)
    out[1] = -v[0] * np.sin(d) + v[1] * np.cos(d)
    return out


def run(ctx):
    for rng in ctx.cases('ph', ctx.n(150, 2500)):
        n = int(rng.integers(8, 400))
        hd = rng.uniform(0, 360)
        tidal = bool(rng.integers(2))
        lead = () if rng.random() < .6 else (int(rng.integers(1, 5)),)
        aspect = rng.uniform(.02, .5)
        s = rng.normal(0, 1, lead + (n,)) if tidal else 1.5 + .4 * rng.normal(0, 1, lead + (n,))
        x = aspect * rng.normal(0, 1, lead + (n,))
        h = np.deg2rad(hd)
        v = np.array([s * np.sin(h) - x * np.cos(h), s * np.cos(h) + x * np.sin(h)]) * 10 ** rng.uniform(-2, 2)
        if rng.random() < .6:
            v = np.concatenate([v, rng.normal(size=v[:1].shape)])
        if rng.random() < .3:
            v[:, ..., rng.random(n) < .2] = np.nan
        if not np.isfinite(v[0]).any(-1).all():
            continue
        form = 'np' if lead or rng.random() < .5 else 'xr'
        off = float(np.round(rng.uniform(-180, 180), 3))
        with ctx.observe('ph', dict(heading=hd, tidal=tidal, shape=v.shape, form=form, aspect=aspect, v=v)):
            mk = (lambda a: a.copy()) if form == 'np' else (lambda a: xr.DataArray(a.copy(), dims=['dir', 'time']))
            kw = {} if tidal and rng.random() < .5 else dict(tidal_mode=tidal)
            M = 180. if tidal else 360.
            p = np.asarray(ctx.call(dolfyn.calc_principal_heading, mk(v), pure=True, **kw), float)
            ctx.check(p.shape == lead, 'shape', 'result shape %s for input %s' % (p.shape, v.shape))
            u = v[0] + 1j * v[1]
            if tidal:
                m = np.nanmean(np.abs(u) * np.exp(2j * np.angle(u)), -1)
                want = 90 - np.rad2deg(np.angle(m)) / 2
                ctx.check(((p >= -1e-3) & (p <= 180.001)).all(), 'tidal-range', 'tidal heading %s outside 0..180' % p)
            else:
                want = 90 - np.rad2deg(np.angle(np.nanmean(u, -1)))
            ctx.check(ad(p, want, M).max() < 2e-4 if p.size else True, 'definition', 'principal heading %s, expected %s' % (p, want))
            nn = np.isfinite(v[0]).sum(-1).min()
            if nn > 50:
                ctx.check(ad(p, hd, M).max() < np.rad2deg(6 * aspect / np.sqrt(nn)) + 1e-3, 'known-axis',
                          'principal heading %s for flow along %s (aspect %.2f, n=%d)' % (p, hd, aspect, nn))
            p2 = np.asarray(ctx.call(dolfyn.calc_principal_heading, mk(turn(v, off)), tidal_mode=tidal), float)
            ctx.check(ad(p2, p + off, M).max() < 4e-4, 'equivariance', 'turned by %s: %s -> %s' % (off, p, p2))
            k = 10. ** rng.uniform(-3, 3)
            p3 = np.asarray(ctx.call(dolfyn.calc_principal_heading, mk(v * k), tidal_mode=tidal), float)
            ctx.check(ad(p3, p, M).max() < 3e-4, 'scaling', 'scaled by %g: %s -> %s' % (k, p, p3))
            p4 = np.asarray(ctx.call(dolfyn.calc_principal_heading, mk(v[..., rng.permutation(n)]), tidal_mode=tidal), float)
            ctx.check(ad(p4, p, M).max() < 3e-4, 'order', 'permuted: %s -> %s' % (p, p4))
            vn = np.concatenate([v, np.full(v.shape[:-1] + (3,), np.nan)], -1)
            p5 = np.asarray(ctx.call(dolfyn.calc_principal_heading, mk(vn), tidal_mode=tidal), float)
            ctx.check(ad(p5, p, M).max() < 3e-4, 'nan-padding', 'NaN-padded: %s -> %s' % (p, p5))
            if tidal:
                flip = v * np.where(rng.random(n) < .5, 1, -1)
                p6 = np.asarray(ctx.call(dolfyn.calc_principal_heading, mk(flip), tidal_mode=True), float)
                ctx.check(ad(p6, p, 180).max() < 3e-4, 'flip-invariance', 'reversing samples: %s -> %s' % (p, p6))
    for rng in ctx.cases('deg', ctx.n(80, 800)):
        n = int(rng.integers(1, 50))
        x = rng.uniform(-720, 720, n)
        x[rng.random(n) < .3] = rng.choice([0, 90, 180, 270, 360, -90, 45])
        form = str(rng.choice(['array', 'xr', 'float']))
        tm = bool(rng.integers(2))
        with ctx.observe('deg', dict(x=x, form=form, tidal=tm)):
            a = x if form == 'array' else float(x[0]) if form == 'float' else xr.DataArray(x, dims=['time'])
            r = ctx.call(misc.convert_degrees, a, pure=True, tidal_mode=tm)
            xx = np.asarray(a, float)
            g = np.asarray(r, float)
            ctx.check(ad(g, 90 - xx, 360).max() < 1e-9, 'deg-value', lambda: '%s -> %s' % (xx, g))
            ctx.check(((g >= 0) & (g < 360)).all() if not tm else ((g > -180 - 1e-9) & (g <= 180)).all(), 'deg-range',
                      lambda: 'tidal=%s range %s' % (tm, g))
            b = ctx.call(misc.convert_degrees, r, pure=True, tidal_mode=tm)
            ctx.check(ad(b, xx, 360).max() < 1e-9, 'deg-involution', lambda: '%s -> %s -> %s' % (xx, g, np.asarray(b)))
