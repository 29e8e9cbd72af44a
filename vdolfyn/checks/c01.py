"""C01: RDI PD0 decoding against an independent encoder."""
import datetime as D
import warnings
import numpy as np
import dolfyn
from .. import enc_rdi as E, rotmodel, synth
from ..core import reader_dims

RULE = ('Random PD0 recordings written by an independent encoder (firmware families, 1-128 cells, data types in any order incl. unknown ones, bottom track, surface layer, altimeter, WinRiver and VMDAS navigation blocks, cell counts that vary along the file, counters beyond 65535, dates across leap days and centuries); '
        'every decoded value of every ensemble compared with what was recorded. Non-trivial: at least 3 ensembles.')
FILES = ['dolfyn/io/rdi.py', 'dolfyn/io/rdi_lib.py', 'dolfyn/io/base.py']


def us(ts):
    return np.array([np.datetime64(t, 'us') for t in ts]).astype('datetime64[ns]')


def write(ctx, b, name='.000'):
    f = ctx.tmp(name)
    with open(f, 'wb') as h:
        h.write(b)
    return f


def tdim(v):
    return [d for d in v.dims if d.startswith('time')][0]


def compare(ctx, ds, c, es, mech='rdi', counts=None):
    """ds holds exactly the ensembles es."""
    n = len(es)
    ctx.check(ds.sizes['time'] == n, mech + ':count', lambda: '%d ensembles, expected %d' % (ds.sizes['time'], n))
    t, w = ds['time'].values, us([x['t'] for x in es])
    for i, x in enumerate(es):
        if x.get('badclock'):
            ctx.check(np.isnat(t[i]), mech + ':bad-clock', lambda: 'ensemble %d with the clock %s is at %s' % (i, x['badclock'], t[i]))
            t = np.where(np.arange(n) == i, w, t)
    reader_dims(ctx, ds, mech)
    e = np.abs((t - w).astype('int64'))
    ctx.check((e <= 1000).all(), mech + ':time', lambda: 'time of ensemble %d: %s, recorded %s' % (e.argmax(), ds['time'].values[e.argmax()], es[e.argmax()]['t']))
    X = [E.expected(c, x) for x in es]
    names = sorted(set().union(*X))
    for k in names:
        ctx.check(k in ds, mech + ':missing', lambda: '%s is not in the dataset' % k)
        v = ds[k].transpose(..., tdim(ds[k]))
        a = v.values.astype(float)
        for i in range(n):
            if k not in X[i]:
                if v.dtype.kind != 'f':
                    ctx.check((a[..., i] == 0).all(), mech + ':stale', lambda: '%s of ensemble %d, which does not have it: %s' % (k, i, a[..., i].ravel()[:4]))
                else:
                    ctx.check(np.isnan(a[..., i]).all(), mech + ':stale', lambda: '%s of ensemble %d, which does not have it: %s' % (k, i, a[..., i].ravel()[:4]))
                continue
            w = np.asarray(X[i][k], float)
            g = a[..., i]
            if w.ndim == 2:
                ctx.check(g.shape[1] >= w.shape[1], mech + ':cells', lambda: '%s has %d cells, recorded %d' % (k, g.shape[1], w.shape[1]))
                if v.dtype.kind == 'f':
                    x = g[:, w.shape[1]:]
                    # integer variables have no missing value: 0 there
                    ok = np.isnan(x) | (x == 0) if k in ('amp', 'corr', 'prcnt_gd') else np.isnan(x)
                    ctx.check(ok.all(), mech + ':extra-cells', lambda: '%s of ensemble %d has values in cells that were not recorded' % (k, i))
                g = g[:, :w.shape[1]]
            ctx.close(g, w, '%s:%s' % (mech, k), '%s of ensemble %d (number %d)' % (k, i, es[i]['number']), rtol=3e-7, atol=1e-9)
    if counts is None:
        return
    n_cells = max(x['n'] for x in es)
    ctx.close(ds['range'], c.bin1_cm * .01 + np.arange(ds.sizes['range']) * c.cell_cm * .01, mech + ':range', 'range', rtol=1e-9, atol=1e-9)
    ctx.check(ds.sizes['range'] == n_cells, mech + ':n_cells', lambda: '%d cells, recorded %d' % (ds.sizes['range'], n_cells))
    if c.sl:
        ctx.close(ds['range_sl'], c.sl_bin1 * .01 + np.arange(c.n_sl) * c.sl_cell * .01, mech + ':range_sl', 'range_sl', rtol=1e-9, atol=1e-9)
    for k, w in E.make_cfg_attrs(c).items():
        ctx.check(k in ds.attrs, mech + ':attr', lambda: 'attribute %s missing' % k)
        g = ds.attrs[k]
        same = g == w if isinstance(w, (str, list)) else abs(float(g) - float(w)) <= 1e-9 * max(1, abs(w))
        ctx.check(same, mech + ':attr-' + k, lambda: 'attribute %s: %r, recorded %r' % (k, g, w))
    ctx.check(int(ds.attrs['n_cells']) == n_cells, mech + ':attr-n_cells', lambda: 'n_cells %s' % ds.attrs['n_cells'])
    ctx.check(ds.attrs['coord_sys'] == E.CS[c.cs] and str(ds['dir'].attrs['ref_frame']) == E.CS[c.cs], mech + ':coord_sys', 'coord_sys')
    if c.gps is None:
        w = 1. / ((c.tpp[0] * 60 + c.tpp[1] + c.tpp[2] * .01) * c.pings)
        ctx.close(ds.attrs['fs'], w, mech + ':fs', 'fs', rtol=1e-9)
    rv = ['vel'] + (['vel_sl'] if c.sl else []) + (['vel_bt'] if 'bt' in c.types else [])
    ctx.check(sorted(ds.attrs['rotate_vars']) == sorted(rv), mech + ':rotate_vars', lambda: 'rotate_vars %s' % ds.attrs['rotate_vars'])
    if c.eb:
        ctx.check(abs(ds.attrs['declination'] - c.eb * .01) < 1e-9 and ds.attrs['declination_in_orientmat'] == 1, mech + ':declination', 'magnetic variation not reported as declination')
    else:
        ctx.check('declination' not in ds.attrs, mech + ':declination', 'declination without magnetic variation')
    ctx.close(ds['beam2inst_orientmat'], synth.rdi_beam(c.beam_angle, c.convex), mech + ':beam2inst', 'beam2inst_orientmat', rtol=0, atol=1e-9)
    ax = rotmodel.axes(ds.drop_vars('orientmat'))
    ctx.close(ds['orientmat'], ax, mech + ':orientmat', 'orientmat', rtol=0, atol=3e-6)
    u = dict(vel='m s-1', heading='degree', pitch='degree', roll='degree', temp='degree_C', pressure='dbar', depth='m', c_sound='m s-1', vel_bt='m s-1', dist_bt='m')
    for k in u:
        if k in ds:
            ctx.check(ds[k].attrs.get('units') == u[k], mech + ':units', lambda: '%s in %s' % (k, ds[k].attrs.get('units')))


def nan(x):
    return np.nan if x is None else x


def gps_expect(kind, es):
    """time_gps and its variables: first of each distinct fix time, in time order."""
    rows = {}
    for i, e in enumerate(es):
        g = e['gga'] if kind == 'wr2' else e['nav']
        if g is None or e.get('lost'):
            continue
        rows.setdefault(g['t'], i)
    ts = sorted(rows)
    return ts, [rows[t] for t in ts]


def add_gps(rng, c, es, kind):
    c.gps = kind
    extra = ['nav'] if kind == 'vmdas' else ['gga'] + [k for k in ('vtg', 'dbt', 'hdt') if rng.random() < .6]
    last = None
    gaps = kind == 'wr2' and rng.random() < .4
    ahead = int(rng.integers(-500, 500)) * 10
    missing, gen = rng.random() < .4, int(rng.integers(2)) * 100
    for i, e in enumerate(es):
        t = e['t'].replace(microsecond=e['t'].microsecond // 10000 * 10000)
        u = t + D.timedelta(milliseconds=ahead)     # the GPS clock is not the instrument's
        t = u if kind == 'vmdas' or u.date() == t.date() else t
        if last is not None and rng.random() < .3 and last.date() == t.date():
            t = last
        last = t
        g = dict(t=t, lat=float(rng.uniform(-89, 89)), lon=float(rng.uniform(-179, 179)), fix=int(rng.integers(0, 6)), nsat=int(rng.integers(0, 20)),
                 hdop=float(rng.uniform(0, 9)), elev=float(rng.uniform(-50, 50)), age=float(rng.uniform(0, 9)))
        e['gga'] = None if gaps and i and rng.random() < .4 else g
        e['vtg'] = dict(dir=float(rng.uniform(0, 360)), kn=float(rng.uniform(0, 20)))
        e['dbt'], e['hdt'] = float(rng.uniform(.5, 100)), float(rng.uniform(0, 360))
        for k in ('vtg', 'dbt', 'hdt'):
            if missing and rng.random() < .3:
                e[k] = None         # a sentence without data
        e['nmea_gen'] = gen
        e['sz'] = dict(gga=int(rng.integers(15, 44)), vtg=int(rng.integers(12, 23)), dbt=int(rng.integers(12, 21)), hdt=int(rng.integers(10, 15)))
        e['nav'] = dict(t=t, off=int(rng.integers(-10 ** 6, 10 ** 6)), lat=int(rng.integers(-2 ** 30 + 2, 2 ** 30)), lon=int(rng.integers(-2 ** 31 + 2, 2 ** 31)),
                        avs=int(rng.integers(0, 32768)), avd=int(rng.integers(0, 65536)), smg=int(rng.integers(0, 32768)), dmg=int(rng.integers(0, 65536)),
                        flags=0, pitch=int(rng.integers(0, 2000)), roll=int(rng.integers(0, 2000)), heading=int(rng.integers(0, 65536)))
    c.types = list(c.types) + extra


def compare_gps(ctx, ds, c, es, mech='gps'):
    ts, ix = gps_expect(c.gps, es)
    ctx.check(ds.sizes['time_gps'] == len(ts), mech + ':count', lambda: '%d positions, expected %d' % (ds.sizes['time_gps'], len(ts)))
    d = np.abs((ds['time_gps'].values - us(ts)).astype('int64'))
    ctx.check((d <= 1.6e6).all(), mech + ':time_gps', lambda: 'time_gps off by %s ns' % d.max())
    d = np.abs((ds['hdwtime_gps'].values - us([es[i]['t'] for i in ix])).astype('int64'))
    ctx.check((d <= 1000).all(), mech + ':hdwtime_gps', lambda: 'hdwtime_gps off by %s ns' % d.max())
    if c.gps == 'wr2':
        G = [es[i]['gga'] for i in ix]
        w = dict(latitude_gps=[g['lat'] for g in G], longitude_gps=[g['lon'] for g in G], fix_gps=[g['fix'] for g in G], n_sat_gps=[g['nsat'] for g in G],
                 hdop_gps=[g['hdop'] for g in G], elevation_gps=[g['elev'] for g in G], rtk_age_gps=[g['age'] for g in G])
        if 'vtg' in c.types:
            w['dir_over_grnd_gps'] = [es[i]['vtg']['dir'] if es[i]['vtg'] else np.nan for i in ix]
            ctx.close(ds['speed_over_grnd_gps'], [es[i]['vtg']['kn'] * 1.852 / 3.6 if es[i]['vtg'] else np.nan for i in ix], mech + ':speed', 'speed_over_grnd_gps', rtol=1e-3)
        if 'hdt' in c.types:
            w['heading_gps'] = [nan(es[i]['hdt']) for i in ix]
        if 'dbt' in c.types:
            ctx.close(ds['dist_nmea'], [nan(e['dbt']) for e in es], mech + ':dist_nmea', 'dist_nmea', rtol=1e-6)
    else:
        G = [es[i]['nav'] for i in ix]
        w = dict(latitude_gps=[g['lat'] * E.BAM32 for g in G], longitude_gps=[g['lon'] * E.BAM32 for g in G], clock_offset_UTC_gps=[g['off'] / 1000. for g in G],
                 avg_speed_gps=[g['avs'] / 1000. for g in G], avg_dir_gps=[g['avd'] * E.BAM16 for g in G], speed_made_good_gps=[g['smg'] / 1000. for g in G],
                 dir_made_good_gps=[g['dmg'] * E.BAM16 for g in G], heading_gps=[g['heading'] * E.BAM16 for g in G],
                 pitch_gps=[g['pitch'] * E.BAM16 for g in G], roll_gps=[g['roll'] * E.BAM16 for g in G])
    for k in w:
        ctx.check(k in ds, mech + ':missing', lambda: '%s is not in the dataset' % k)
        ctx.close(ds[k], w[k], mech + ':' + k, k, rtol=1e-6, atol=1e-7)


def desc(c, es):
    return dict(ver=c.ver, n=len(es), cells=c.n_cells, types=list(c.types), cs=E.CS[c.cs], up=c.up, convex=c.convex, num0=es[0]['number'], t0=str(es[0]['t']), vel=es[0]['vel'].ravel()[:4])


def read_whole(ctx, f, n):
    ds = ctx.call(dolfyn.read, f)
    got = ds.sizes['time']
    ctx.check(n - 1 <= got <= n, 'rdi:count', lambda: '%d ensembles of %d read' % (got, n))
    return ds, got


def run(ctx):
    for rng in ctx.cases('files', ctx.n(120, 2000)):
        c, es = E.rand_file(rng)
        ext = ['.000', '.PD0', '.ENR', '.bin', '', '.ENX', '.ENS'][int(rng.integers(7))]
        f = write(ctx, b''.join(E.encode(c, e) for e in es), ext)
        with ctx.observe('files', desc(c, es)):
            ds, n = read_whole(ctx, f, len(es))
            compare(ctx, ds, c, es[:n], counts=True)
            ctx.check(ds.attrs['vel_gps_corrected'] == (ext == '.ENX'), 'rdi:vel_gps_corrected', '%s read from a %s file' % (ds.attrs['vel_gps_corrected'], ext))
            ctx.count('ensembles-compared', n)
    for rng in ctx.cases('long', ctx.n(4, 40)):
        c, es = E.rand_file(rng, n=int(rng.integers(60, 400)), small=True)
        f = write(ctx, b''.join(E.encode(c, e) for e in es))
        with ctx.observe('long', desc(c, es)):
            ds, n = read_whole(ctx, f, len(es))
            compare(ctx, ds, c, es[:n], counts=True)
            ctx.count('ensembles-compared', n)
    for rng in ctx.cases('cells', ctx.n(15, 250)):
        # the number of cells varies along the file (WinRiver transects)
        P = lambda *a: a[int(rng.integers(len(a)))]
        c = E.rand_cfg(rng)
        c.sl, c.types = False, [t for t in c.types if not t.endswith('_sl')]
        n = int(rng.integers(4, 16))
        ts = E.rand_times(rng, n, E.century_clock(c))
        style = P('up', 'down', 'any')
        k = sorted(int(x) for x in rng.integers(1, 30, n))
        k = k if style == 'up' else k[::-1] if style == 'down' else [int(x) for x in rng.permutation(k)]
        c.n_cells = k[0]
        es = [E.rand_ens(rng, c, i + 1, ts[i], n_cells=k[i]) for i in range(n)]
        f = write(ctx, b''.join(E.encode(c, e) for e in es))
        with ctx.observe('cells', dict(desc(c, es), cells=k)):
            ds, n = read_whole(ctx, f, n)
            compare(ctx, ds, c, es[:n], 'cells')
            ctx.check(ds.sizes['range'] == max(k[:n]), 'cells:range', lambda: '%d cells, recorded %s' % (ds.sizes['range'], k[:n]))
    for rng in ctx.cases('absent', ctx.n(12, 200)):
        # data types that only some ensembles have
        c = E.rand_cfg(rng)
        c.sl, c.types = False, ['vel', 'corr', 'amp', 'bt', 'alt']
        n = int(rng.integers(5, 14))
        ts = E.rand_times(rng, n, E.century_clock(c))
        es = [E.rand_ens(rng, c, i + 1, ts[i]) for i in range(n)]
        for e in es:
            t = [x for x in c.types if rng.random() < .7]
            rng.shuffle(t)
            e['types'] = t or ['vel']
        f = write(ctx, b''.join(E.encode(c, e) for e in es))
        with ctx.observe('absent', dict(desc(c, es), types=[e.get('types', c.types) for e in es])):
            ds, n = read_whole(ctx, f, n)
            compare(ctx, ds, c, es[:n], 'absent')
    for rng in ctx.cases('dual', ctx.n(14, 250)):
        # the broadband profile of a dual-profile recording: not returned, and without influence on the first
        c, es = E.rand_file(rng, small=True)
        c2 = E.add_second(rng, c, es)
        f = write(ctx, b''.join(E.encode(c, e) for e in es))
        with ctx.observe('dual', dict(desc(c, es), second=[c2.n_cells, c2.types, c2.own_leader, c2.together])):
            ds, n = read_whole(ctx, f, len(es))
            compare(ctx, ds, c, es[:n], 'dual', counts=True)
            ctx.count('second-profile')
    for rng in ctx.cases('badclock', ctx.n(14, 200)):
        # clock readings that are not a date: only the times of those ensembles are missing
        kind = E.pick(rng)(None, None, 'wr2', 'vmdas')
        c, es = E.rand_file(rng, second=False)
        if kind:
            c.types = [t for t in c.types if t != 'unknown']
            add_gps(rng, c, es, kind)
            if kind == 'wr2' and es[0]['t'].year < 2000 and not E.century_clock(c):
                continue
        bad = sorted({int(i) for i in rng.integers(0, len(es) - 1, int(rng.integers(1, 3)))} | ({0} if rng.random() < .4 else set()))
        bad = bad[:len(es) - 2]
        for i in bad:
            e = es[i]
            t = e['t']
            r = [t.year % 100, t.month, t.day, t.hour, t.minute, t.second, 0]
            k, v = E.pick(rng)((1, 0), (1, 13), (2, 0), (2, 32), (3, 24), (4, 60), (5, 61), (1, 255), (2, 31) if t.month in (4, 6, 9, 11) else (2, 45))
            r[k] = v
            e['badclock'] = r
            if kind == 'wr2' and k in (1, 2) and e['gga']:
                e['lost'] = True    # (the day of the position comes from this clock)
        f = write(ctx, b''.join(E.encode(c, e) for e in es))
        with ctx.observe('badclock', dict(desc(c, es), bad=bad, kind=kind)):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                ds, n = read_whole(ctx, f, len(es))
            told = [str(x.message) for x in ws if 'Invalid time stamp' in str(x.message)]
            ctx.check(len(told) == len([i for i in bad if i < n]), 'badclock:warning', lambda: 'warnings %s' % told)
            compare(ctx, ds, c, es[:n], 'badclock', counts=True)
            if kind:
                t = us([e['t'] for e in es[:n]]).astype('int64') / 1e9
                ok = [i for i in range(n - 1) if i not in bad and i + 1 not in bad]
                if ok:
                    ctx.close(ds.attrs['fs'], 1. / np.mean(np.diff(t)[ok]), 'badclock:fs', 'fs', rtol=1e-6, atol=.0051)
                ts, ix = gps_expect(kind, es[:n])
                ctx.check(ds.sizes['time_gps'] == len(ts), 'badclock:gps', lambda: '%d positions, expected %d' % (ds.sizes['time_gps'], len(ts)))
    for rng in ctx.cases('gps', ctx.n(25, 400)):
        kind = ['wr2', 'vmdas'][int(rng.integers(2))]
        c, es = E.rand_file(rng)
        c.types = [t for t in c.types if t not in ('unknown',)]
        add_gps(rng, c, es, kind)
        if kind == 'wr2' and es[0]['t'].year < 2000 and not E.century_clock(c):
            continue
        f = write(ctx, b''.join(E.encode(c, e) for e in es))
        with ctx.observe('gps', dict(desc(c, es), kind=kind)):
            ds, n = read_whole(ctx, f, len(es))
            compare(ctx, ds, c, es[:n], 'gps-file', counts=True)
            compare_gps(ctx, ds, c, es[:n])
            fs = 1. / np.mean(np.diff(us([e['t'] for e in es[:n]]).astype('int64') / 1e9)) if n > 1 else None
            if n > 1:
                ctx.check(ds.attrs['sourceprog'].lower() == dict(wr2='winriver2', vmdas='vmdas')[kind], 'gps:sourceprog', 'sourceprog')
                ctx.close(ds.attrs['fs'], fs, 'gps:fs', 'fs', rtol=1e-6, atol=.0051)
