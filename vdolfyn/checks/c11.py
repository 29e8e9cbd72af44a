"""C11: MATLAB round trip."""
import os
import numpy as np
import dolfyn
from dolfyn.rotate.api import rotate2
from .. import synth
from .c10 import norm, UNITS

RULE = ('Random datasets shaped like every reader\'s output (3/4 beams, profiles, IMU, fifth beam, bottom track, several time coordinates), saved as .mat with datenum on/off and loaded; every variable, coordinate and attribute compared with what was saved, the caller\'s dataset monitored for change, and a rotation compared before/after. Non-trivial: more than one sample.')
FILES = ['dolfyn/io/api.py', 'dolfyn/io/base.py']
SYN = {'coverage_content_type', 'description', 'long_name'}      # attributes load_mat regenerates


def compare(ctx, got, ds, datenum, mech='mat'):
    ctx.check(set(got.variables) == set(ds.variables), mech + ':variables', lambda: 'variables differ: %s' % sorted(set(got.variables) ^ set(ds.variables)))
    ctx.check(set(got.coords) == set(ds.coords), mech + ':coords', lambda: 'coords differ: %s' % sorted(set(got.coords) ^ set(ds.coords)))
    ctx.check(dict(got.sizes) == dict(ds.sizes), mech + ':dims', lambda: '%s vs %s' % (dict(got.sizes), dict(ds.sizes)))
    for k in ds.variables:
        g, w = got.variables[k], ds.variables[k]
        ctx.check(g.dims == w.dims, mech + ':var-dims', lambda: '%s has dims %s, saved %s' % (k, g.dims, w.dims))
        gv, wv = g.values, w.values
        if wv.dtype.kind == 'M':
            ctx.check(gv.dtype.kind == 'M', mech + ':time', lambda: '%s is %s' % (k, gv.dtype))
            e = np.abs((gv - wv).astype('int64')).max()
            ctx.check(e <= (101000 if datenum else 1000), mech + ':time', lambda: '%s: times off by %d ns' % (k, e))
        elif wv.dtype.kind in 'UO':
            ctx.check(list(map(str, gv)) == list(map(str, wv)), mech + ':text', lambda: '%s: %s, saved %s' % (k, gv, wv))
        else:
            if wv.dtype.kind != 'b' and k not in ('dir', 'beam', 'x1', 'x2'):
                ctx.check(gv.dtype == wv.dtype, mech + ':dtype', lambda: '%s is %s, saved %s' % (k, gv.dtype, wv.dtype))
            ctx.eq(gv.astype(float) if wv.dtype.kind == 'b' else gv, wv.astype(float) if wv.dtype.kind == 'b' else wv, mech + ':values', str(k))
        if k == 'orientation_down':
            ctx.check(gv.dtype == wv.dtype, mech + ':bool', lambda: '%s is %s' % (k, gv.dtype))
        for a in ('units', 'standard_name'):
            if a in w.attrs:
                ctx.check(g.attrs.get(a) == w.attrs[a], mech + ':var-attrs', lambda: '%s.%s: %r, saved %r' % (k, a, g.attrs.get(a), w.attrs[a]))
        if 'long_name' in w.attrs and k in ds.data_vars and 'mat' not in k:
            ctx.check(g.attrs.get('long_name') == w.attrs['long_name'], mech + ':long_name', lambda: '%s.long_name: %r, saved %r' % (k, g.attrs.get('long_name'), w.attrs['long_name']))
    ctx.check(set(got.attrs) == set(ds.attrs), mech + ':attrs', lambda: 'attributes differ: %s' % sorted(set(got.attrs) ^ set(ds.attrs)))
    for k, v in ds.attrs.items():
        ctx.check(norm(got.attrs[k]) == norm(v), mech + ':attr', lambda: 'attribute %s: %r, saved %r' % (k, got.attrs[k], v))
    ctx.check(isinstance(got.attrs['rotate_vars'], list), mech + ':rotate_vars', 'rotate_vars is %r' % (got.attrs['rotate_vars'],))


def sample(rng):
    P = lambda *a: a[int(rng.integers(len(a)))]
    kind = P(*synth.KINDS)
    nt, nr, cs = int(P(1, 2, rng.integers(2, 40), rng.integers(2, 40))), int(rng.integers(1, 9)), P('inst', 'earth', 'beam')
    ds = synth.make(rng, kind, nt=nt, nr=nr, coord_sys=cs, nan_frac=float(P(0, .3)), dtype=P(np.float32, np.float64), principal=bool(rng.integers(2)))
    t0 = np.datetime64(P('2017-08-04T12:00:00', '1999-12-31T23:59:59', '2024-02-29T00:00:00', '1989-01-02T03:04:05'), 'us') + int(P(0, 123400, 500000))
    step = int(P(1000000, 62500, 31250, 10 ** 8, 333300))
    t = (t0 + np.arange(nt) * np.timedelta64(step, 'us')).astype('datetime64[ns]')
    ta = {'units': UNITS, 'long_name': 'Time', 'standard_name': 'time'}
    ds = ds.assign_coords(time=('time', t, ta))
    ds = ds.drop_vars([v for v in ('amp', 'corr', 'temp', 'vel_bt') if v in ds and rng.random() < .3])
    if 'vel_bt' not in ds and 'vel_bt' in ds.attrs['rotate_vars']:
        ds.attrs['rotate_vars'] = ['vel']
    for k in ds.variables:          # what the readers produce
        if 'mat' in k:
            ds[k].attrs['long_name'] = 'Rotation Matrix' if 'beam2' in k else 'Orientation Matrix'
        if k.startswith('range'):
            ds[k].attrs = dict(units='m', long_name='Profile Range', description='Distance to the center of each depth bin')
            if rng.random() < .3:
                ds[k].attrs['standard_name'] = 'height'
    ds['beam'].attrs['units'] = ds['dir'].attrs['units'] = '1'
    if 'vel_bt' in ds:
        ds['vel_bt'].attrs['long_name'] = ds['vel'].attrs['long_name']
    at = lambda k: dict(units=ds[k].attrs['units'], long_name=ds[k].attrs['long_name']) if k in ds else dict(units='1', long_name=k)
    if kind.startswith('sig'):
        if rng.random() < .6:
            n5 = int(rng.integers(1, 30))
            ds = ds.assign_coords(time_b5=('time_b5', t[:1] + np.arange(n5) * np.timedelta64(250, 'ms'), dict(ta)),
                                  range_b5=('range_b5', .1 + .5 * np.arange(int(rng.integers(1, 9))), dict(ds['range'].attrs)))
            s = (ds.sizes['range_b5'], n5)
            ds['vel_b5'] = (('range_b5', 'time_b5'), rng.normal(size=s).astype('float32'), at('vel'))
            ds['corr_b5'] = (('range_b5', 'time_b5'), rng.integers(0, 100, s).astype('uint8'), at('corr'))
            ds['temp_b5'] = ('time_b5', rng.normal(size=n5).astype('float32'), at('temp'))
            if rng.random() < .5:           # any order of variables
                ds = ds[[k for k in ds.data_vars][::-1]].assign_coords(ds.coords)
            ds.attrs['rotate_vars'] = list(ds.attrs['rotate_vars'])
        if rng.random() < .5:
            ne = int(rng.integers(1, 30))
            ds = ds.assign_coords(time_echo=('time_echo', t[:1] + np.arange(ne) * np.timedelta64(500, 'ms'), dict(ta)),
                                  range_echo=('range_echo', .1 + .05 * np.arange(int(rng.integers(1, 50))), dict(ds['range'].attrs)))
            ds['echo'] = (('range_echo', 'time_echo'), rng.normal(size=(ds.sizes['range_echo'], ne)).astype('float32'), at('echo'))
    if rng.random() < .4:
        ds['error'] = ('time', rng.integers(0, 2 ** 16, nt).astype('uint16'), at('error'))
        ds['status'] = ('time', rng.integers(-2 ** 31, 2 ** 31, nt).astype('int32'), at('status'))
    for k in list(ds.data_vars):
        if k not in ('vel', 'vel_bt', 'amp', 'corr') and 'mat' not in k and rng.random() < .1:
            ds[k].attrs['units'] = P('degree_Celsius', 'm2 s-2 Hz-1', 'dB re 1 uPa')
    if rng.random() < .3:
        ds['orientation_down'] = ('time', rng.random(nt) < .5, at('orientation_down'))
    for j in range(int(P(0, 0, 1, 1, 2))):
        z = t + np.arange(nt).astype('timedelta64[ms]') * (j + 3)
        ds['gps_time%s' % ('' if j == 0 else j)] = ('time', z, dict(long_name='Time', standard_name='time'))
    for j in range(int(rng.integers(0, 5))):
        ds.attrs['x%d' % j] = P('text', '', 3, -2.5, 1e-12, [1, 2, 3], [1.5, -2.5], ['a', 'bb', 'ccc'], ['X', 'Latitude'], ['_a', 'b_'], ['a b', 'c-d', '1'], 10 ** 12, 'two words')
    return kind, cs, ds


def run(ctx):
    for rng in ctx.cases('mat', ctx.n(70, 1200)):
        kind, cs, ds = sample(rng)
        datenum = bool(rng.integers(2))
        with ctx.observe('mat', dict(kind=kind, cs=cs, datenum=datenum, sizes=dict(ds.sizes), vars=sorted(map(str, ds.variables)), attrs={k: str(v) for k, v in ds.attrs.items()})):
            f = ctx.tmp('')
            name = f + '.mat' if rng.random() < .5 else f
            ctx.call(dolfyn.save_mat, ds, name, datenum=datenum, pure=True)
            ctx.check(os.path.isfile(f + '.mat'), 'filename', 'file not written where documented')
            got = ctx.call(dolfyn.load_mat, name, datenum=datenum)
            os.remove(f + '.mat')
            compare(ctx, got, ds, datenum)
            to = [c for c in ('inst', 'earth', 'beam') if c != cs][int(rng.integers(2))]
            a, b = rotate2(got, to, inplace=False), rotate2(ds, to, inplace=False)
            for k in ds.attrs['rotate_vars']:
                ctx.close(a[k], b[k], 'process:rotate2', k, rtol=1e-6, atol=1e-6)
            # and again
            f2 = ctx.tmp('.mat')
            ctx.call(dolfyn.save_mat, got, f2, datenum=datenum, pure=True)
            g2 = dolfyn.load_mat(f2, datenum=datenum)
            os.remove(f2)
            compare(ctx, g2, got, datenum, 'again')
    for rng in ctx.cases('names', ctx.n(4, 12)):
        ds = synth.make(rng, 'vector', nt=4)
        bad = ['a.txt', 'b.nc', 'x.y.m', 'c.ma', 'd.MAT'][int(rng.integers(5))]
        with ctx.observe('names', dict(bad=bad, i=int(rng.integers(10 ** 6)))):
            f = os.path.join(ctx.scratch, bad)
            ctx.expect_raises('wrong-extension', IOError, dolfyn.save_mat, ds, f)
            ctx.check(not os.path.exists(f), 'wrong-extension-written', 'file written')
            ctx.expect_raises('wrong-extension-load', IOError, dolfyn.load_mat, f)
