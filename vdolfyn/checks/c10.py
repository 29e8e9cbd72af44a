"""C10: netCDF round trip."""
import hashlib
import os
import warnings
import numpy as np
import xarray as xr
import netCDF4
import dolfyn
from dolfyn import VelBinner
from dolfyn.adv.api import ADVBinner
from dolfyn.rotate.api import rotate2, set_declination
from .. import synth
from ..core import _copy, digest, same_value, describe_change

RULE = ('Random datasets shaped like every reader\'s output and like the analysis tools\' (binned, spectra, complex cross-spectra), with complex, boolean, integer, string and datetime variables, NaN runs and odd attributes, saved (plain, compressed, explicit encoding, names with/without extension), loaded, and re-saved; '
        'every variable, coordinate and attribute compared with what was saved, the caller\'s dataset monitored for change, and rotations/averages compared before/after. Non-trivial: more than one sample.')
FILES = ['dolfyn/io/api.py']
UNITS = 'seconds since 1970-01-01 00:00:00'


def norm(v):
    """attribute value as the round trip may represent it"""
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (list, tuple)):
        v = [norm(x) for x in v]
        return v[0] if len(v) == 1 else v
    if isinstance(v, (bool, int)):
        return float(v)
    return v


def attrs_like(ctx, got, want, mech, skip=()):
    g = {k: norm(v) for k, v in got.items() if k not in skip}
    w = {k: norm(v) for k, v in want.items() if k not in skip}
    ctx.check(set(g) == set(w), mech, lambda: '%s: attributes %s' % (mech, sorted(set(g) ^ set(w))))
    for k in w:
        ctx.check(g[k] == w[k] or (g[k] != g[k] and w[k] != w[k]), mech, lambda: '%s: attribute %s: %r, saved %r' % (mech, k, g[k], w[k]))


def same_dataset(ctx, got, want, mech, single=True, t_ns=1000):
    ctx.check(set(got.variables) == set(want.variables), mech + ':variables',
              lambda: 'variables differ: %s' % sorted(set(got.variables) ^ set(want.variables)))
    ctx.check(set(got.coords) == set(want.coords), mech + ':coords', lambda: 'coords differ: %s' % sorted(set(got.coords) ^ set(want.coords)))
    ctx.check(dict(got.sizes) == dict(want.sizes), mech + ':dims', lambda: '%s vs %s' % (dict(got.sizes), dict(want.sizes)))
    for k in want.variables:
        g, w = got.variables[k], want.variables[k]
        m = '%s:%s' % (mech, w.dtype.kind)
        ctx.check(g.dims == w.dims, m + '-dims', lambda: '%s dims %s, saved %s' % (k, g.dims, w.dims))
        gv, wv = g.values, w.values
        if wv.dtype.kind == 'M':
            ctx.check(gv.dtype.kind == 'M', m, lambda: '%s no longer a time' % k)
            a, b = gv.astype('int64'), wv.astype('datetime64[ns]').astype('int64')
            ctx.check((np.abs(a - b) <= t_ns).all() or ((np.isnat(gv) == np.isnat(wv)).all() and (np.abs(a - b)[~np.isnat(wv)] <= t_ns).all()),
                      m, lambda: '%s: times differ by %s ns' % (k, np.abs(a - b).max()))
        elif wv.dtype.kind in 'fc':
            ctx.check(gv.dtype.kind == wv.dtype.kind, m, lambda: '%s: %s, saved %s' % (k, gv.dtype, wv.dtype))
            if single and wv.dtype == np.float64 and k in want.data_vars:
                wv = wv.astype('float32')
            ctx.eq(gv, wv, m, str(k))
        elif wv.dtype.kind in 'UO':
            ctx.check(list(map(str, gv.ravel())) == list(map(str, wv.ravel())), m, lambda: '%s: %s, saved %s' % (k, gv, wv))
        else:
            ctx.check(gv.dtype.kind == wv.dtype.kind and gv.shape == wv.shape and (gv == wv).all(), m, lambda: '%s: %s %s, saved %s %s' % (
                k, gv.dtype, gv.ravel()[:4], wv.dtype, wv.ravel()[:4]))
        attrs_like(ctx, g.attrs, w.attrs, mech + ':var-attrs', skip=('units', 'calendar') if wv.dtype.kind == 'M' else ())
    attrs_like(ctx, got.attrs, want.attrs, mech + ':attrs')
    for k, v in want.attrs.items():
        if isinstance(v, list) and len(v) > 1:
            ctx.check(isinstance(got.attrs[k], list), mech + ':attr-list', lambda: 'attribute %s, saved as a list, is %r' % (k, got.attrs[k]))


def rand_attrs(rng, attrs):
    P = lambda *a: a[int(rng.integers(len(a)))]
    for j in range(int(rng.integers(0, 6))):
        attrs['x%d' % j] = P('text', '', 'unicode ° µ é', 3, -2.5, 1e-12, np.float32(1.5), np.int32(7), [1, 2, 3], [1.5, -2.5], ['a', 'bb', ''], [7, 8], ['p', 'q'],
                             ['one'], [4], np.arange(4), np.array([[1.5, 2.5], [3.5, 4.5]]).ravel(), 'many\nlines', 10 ** 12)


def sample(rng, maxnt=60):
    P = lambda *a: a[int(rng.integers(len(a)))]
    kind = P(*synth.KINDS)
    nt = int(rng.integers(1, maxnt))
    cs = P('inst', 'earth', 'beam')
    ds = synth.make(rng, kind, nt=nt, nr=int(rng.integers(1, 6)), coord_sys=cs, nan_frac=float(P(0, .3, 1)),
                    dtype=P(np.float32, np.float64), principal=False)
    ds = ds.drop_vars([v for v in ds.data_vars if v in ('amp', 'corr', 'temp') and rng.random() < .3])
    sub = P(0, 0, 123456, 500000, 999)          # us
    t0 = np.datetime64(P('2017-08-04T12:00:00', '1999-12-31T23:59:59', '2024-02-29T00:00:00', '2038-03-01T01:02:03'), 'us') + sub
    step = int(P(1000000, 62500, 31250, 10 ** 8, 333333))
    t = (t0 + np.arange(nt) * np.timedelta64(step, 'us')).astype('datetime64[ns]')
    ds = ds.assign_coords(time=('time', t))
    ds['time'].attrs = {'units': UNITS, 'long_name': 'Time', 'standard_name': 'time'}
    at = lambda: dict(units=P('m', 'm s-1', '1', 'degree'), long_name=P('Some Thing', 'x'))
    D = ('time',)
    if rng.random() < .5:
        ds['flag'] = (D, rng.random(nt) < .5, at())
    if rng.random() < .5:
        ds['i8'] = (D, rng.integers(-128, 128, nt).astype('int8'), at())
        ds['u16'] = (D, rng.integers(0, 65536, nt).astype('uint16'), at())
        ds['i64'] = (D, rng.integers(-2 ** 60, 2 ** 60, nt), at())
        ds['u32'] = (D, rng.integers(0, 2 ** 32, nt).astype('uint32'), at())
    nc = int(P(0, 0, 1, 2, 3))
    for j in range(nc):
        dt = P('complex64', 'complex128')
        nm = P('c%d', 'csd_%d', 'a_long_name%d') % j if rng.random() < .6 else 'zqw'[j]
        v = (rng.normal(size=nt) + 1j * rng.normal(size=nt)).astype(dt)
        if rng.random() < .3:
            v[int(rng.integers(nt))] = np.nan
        ds[nm] = (D, v, at())
    for nm in ('c9_real', 'part_imag', 'real', 'x_imag_real'):      # real variables with names such as these are in use
        if rng.random() < .15:
            ds[nm] = (D, rng.normal(size=nt), at())
    if rng.random() < .3:
        ds['scalar'] = ((), float(rng.normal()), at())
    if rng.random() < .3:
        x = rng.normal(size=nt)
        x[:int(rng.integers(0, nt + 1))] = np.nan
        ds['nanrun'] = (D, x.astype(P('float32', 'float64')), at())
    if rng.random() < .3:
        ds = ds.assign_coords(time_gps=('time_gps', t[:max(1, nt // 2)] + np.timedelta64(250, 'ms'),
                                        {'units': UNITS}))
        ds['lat'] = ('time_gps', rng.uniform(-90, 90, max(1, nt // 2)), at())
    if rng.random() < .2:
        ds['when'] = (D, t + np.timedelta64(int(rng.integers(0, 10 ** 6)), 'us'))
    if rng.random() < .3:
        ds['names'] = ('earth', ['east', 'n', ''])
    rand_attrs(rng, ds.attrs)
    return kind, cs, ds


def encodings(ds):
    return {k: repr(sorted(ds[k].encoding.items(), key=str)) for k in ds.variables}


def sha(f):
    return hashlib.sha256(open(f, 'rb').read()).hexdigest()


def roundtrip(ctx, rng, ds, mech='roundtrip', full=True):
    P = lambda *a: a[int(rng.integers(len(a)))]
    f = ctx.tmp('')
    style = int(rng.integers(3))
    name = [f + '.nc', f, os.path.join(os.path.dirname(f), 'x.y', os.path.basename(f) + '.b1.2020.nc')][style]
    os.makedirs(os.path.dirname(name), exist_ok=True)
    real = name if name.endswith('.nc') else name + '.nc'
    comp = bool(rng.integers(2))
    kw = {}
    big = [k for k in ds.data_vars if ds[k].size > 1 and ds[k].dtype.kind in 'fiu']
    pick = P(*big) if big and rng.random() < .3 else None
    if pick:
        lev = int(rng.integers(2, 9))
        kw['encoding'] = {pick: dict(zlib=True, complevel=lev)}
    e0, kw0 = encodings(ds), repr(kw)
    ctx.call(dolfyn.save, ds, name, compression=comp, pure=True, **kw)
    ctx.check(repr(kw) == kw0, mech + ':kwargs-changed', 'save changed the keyword arguments of the caller')
    ctx.check(encodings(ds) == e0, mech + ':encoding-changed', lambda: 'save changed the encodings of the caller\'s dataset')
    ctx.check(os.path.isfile(real), mech + ':filename', 'nothing at %s' % os.path.basename(real))
    with netCDF4.Dataset(real) as nc:
        for k, v in nc.variables.items():
            fl = v.filters() or {}
            if pick == k:
                ctx.check(fl.get('zlib') and fl.get('complevel') == lev, mech + ':encoding', '%s: %s, asked complevel %d' % (k, fl, lev))
            elif k in ds.variables and ds[k].size > 1 and ds[k].dtype.kind in 'fiub' and v.dimensions and not e0[k].strip('[]'):
                ctx.check(bool(fl.get('zlib')) == comp, mech + ':compression', '%s: %s, compression=%s' % (k, fl, comp))
    h = sha(real)
    got = ctx.call(dolfyn.load, name)
    ctx.check(sha(real) == h, mech + ':load-writes', 'load changed the file')
    same_dataset(ctx, got, ds, mech)
    if full:
        b4, e4 = _copy(got), encodings(got)
        f2 = ctx.tmp('.nc') if rng.random() < .6 else real
        ctx.call(dolfyn.save, got, f2, compression=bool(rng.integers(2)), pure=True)
        ctx.check(encodings(got) == e4, mech + ':encoding-changed2', lambda: 'save changed the encodings of a loaded dataset')
        g2 = dolfyn.load(f2)
        same_dataset(ctx, g2, got, mech + '-again')
        # a third generation, whatever the file it came from has become
        os.remove(f2)
        ctx.eq(g2['vel'] if 'vel' in g2 else 0, got['vel'] if 'vel' in g2 else 0, mech + ':lazy', 'data after the file is gone')
        del b4
    if os.path.exists(real):
        os.remove(real)
    return got


def single(ds):
    r = ds.copy(deep=True)
    for k in r.data_vars:
        if r[k].dtype == np.float64:
            r[k] = r[k].astype('float32')
    return r


def run(ctx):
    for rng in ctx.cases('reader-shaped', ctx.n(45, 700)):
        kind, cs, ds = sample(rng)
        with ctx.observe('reader-shaped', dict(kind=kind, cs=cs, nt=ds.sizes['time'], vars=sorted(map(str, ds.data_vars)), attrs={k: str(v) for k, v in ds.attrs.items()}),
                         nontrivial=ds.sizes['time'] > 1):
            got = roundtrip(ctx, rng, ds)
            ctx.check(isinstance(got.attrs['rotate_vars'], list) and got.attrs['rotate_vars'] == ds.attrs['rotate_vars'],
                      'rotate_vars', 'rotate_vars is %r' % (got.attrs['rotate_vars'],))
            # further processing
            ref = single(ds)
            to = [c for c in ('inst', 'earth', 'beam') if c != cs][int(rng.integers(2))]
            a = rotate2(got, to, inplace=False)
            b = rotate2(ref, to, inplace=False)
            for k in ds.attrs['rotate_vars']:
                ctx.close(a[k], b[k], 'process:rotate2', k, rtol=1e-6, atol=1e-6)
            if kind != 'awac':
                dec = float(rng.uniform(-20, 20))
                a = set_declination(a, dec, inplace=False)
                b = set_declination(b, dec, inplace=False)
                for k in ds.attrs['rotate_vars'] + ['heading']:
                    ctx.close(a[k], b[k], 'process:set_declination', k, rtol=1e-6, atol=1e-6)
            n = ds.sizes['time']
            if n >= 4:
                bn = VelBinner(int(n // 2), ds.attrs['fs'])
                ctx.close(bn.mean(got['vel'].values), bn.mean(ref['vel'].values), 'process:mean', 'mean', rtol=1e-6, atol=1e-7)
            ctx.close(abs(got.velds.U), abs(ref.velds.U), 'process:U', 'U', rtol=1e-6)
    for rng in ctx.cases('analysis', ctx.n(12, 150)):
        adv = bool(rng.integers(2))
        kind = ['vector', 'vector_imu'][int(rng.integers(2))] if adv else ['signature', 'rdi', 'awac'][int(rng.integers(3))]
        nb = int(rng.integers(8, 20))
        ds = synth.make(rng, kind, nt=int(nb * rng.integers(2, 5)), nr=3, coord_sys='earth')
        ds['time'].attrs['units'] = UNITS
        fs = ds.attrs['fs']
        u = ['Hz', 'rad/s'][int(rng.integers(2))]
        if adv:
            b = ADVBinner(nb, fs)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out = b(ds, freq_units=u)
            out['csd'] = b.calc_csd(ds['vel'], freq_units=u)
        else:
            b = VelBinner(nb, fs)
            out = b.do_avg(ds)
            out = b.do_var(ds, out_ds=out)
            out['auto_spectra'] = b.calc_psd(ds['vel'][0, 0], freq_units=u)
        if rng.random() < .5:
            out['U_complex'] = out.velds.U
        with ctx.observe('analysis', dict(kind=kind, nb=nb, vars=sorted(map(str, out.variables)))):
            got = roundtrip(ctx, rng, out, 'analysis')
            ctx.close(got.velds.U_mag, out.velds.U_mag, 'analysis:U_mag', 'U_mag', rtol=1e-6)
            if adv:
                ctx.close(got.velds.I_tke, out.velds.I_tke, 'analysis:I', 'I_tke', rtol=1e-5)
    for rng in ctx.cases('names', ctx.n(6, 20)):
        ds = synth.make(rng, 'vector', nt=4)
        ds['time'].attrs['units'] = UNITS
        bad = ['a.txt', 'b.mat', 'x.y.cdf', 'q.nc.bak', 'x.n', 'y.NC'][int(rng.integers(6))]
        with ctx.observe('names', dict(bad=bad, i=int(rng.integers(10 ** 6)))):
            f = os.path.join(ctx.scratch, bad)
            ctx.expect_raises('wrong-extension', IOError, dolfyn.save, ds, f)
            ctx.check(not os.path.exists(f), 'wrong-extension-written', 'file written')
            ctx.expect_raises('wrong-extension-load', IOError, dolfyn.load, f)
