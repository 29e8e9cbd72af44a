"""C34: the velds accessor: methods equal the functions, views are views, the summary is true."""
import os
import re
import numpy as np
import xarray as xr
import dolfyn
from dolfyn import VelBinner
from dolfyn.rotate.api import rotate2, set_declination, set_inst2head_rotmat
from .. import synth
from ..core import _copy, digest, describe_change

RULE = ('Random datasets of every family, frame, length and time span (sub-second to months, averaged, single-sample, without a time axis, before 1970), after random accessor/function histories: each accessor method on one copy against the function on another; '
        'views against the dataset; the printed summary parsed and compared with the dataset it describes. Non-trivial: all.')
FILES = ['dolfyn/velocity.py']
UNIT = dict(seconds=1., minutes=60., hours=3600., days=86400.)


def summary(ctx, ds, tag):
    """Parse the summary and judge every statement it makes."""
    before = digest(ds)
    s = ctx.call(repr, ds.velds)
    ctx.check(digest(ds) == before, 'repr-mutates', 'printing the summary changed the dataset')
    a = ds.attrs
    ctx.check(all(str(a[k]) in s.split('\n')[0] for k in ('inst_type', 'inst_make', 'inst_model')), 'repr-instrument', lambda: '%r for %s' % (s.split('\n')[0], [a[k] for k in ('inst_type', 'inst_make', 'inst_model')]))
    m = re.findall(r'(\S+)-frame', s)
    ctx.check(m == [str(a['coord_sys'])], 'repr-frame', '%s: summary says %s, dataset is in %s' % (tag, m, a['coord_sys']))
    t = np.atleast_1d(ds['time'].values).astype('M8[ns]') if 'time' in ds else None
    if t is None or t[0] < np.datetime64('1970-01-01T00:00:01'):
        ctx.check('No Time Information' in s, 'repr-time', 'no word of the missing time')
        ctx.count('summaries-without-time')
    else:
        m = re.search(r'([-\d.]+) (\w+) \(started: (.*?)\)', s)
        ctx.check(m, 'repr-time', lambda: 'no time in %r' % s)
        x, u, st = m.groups()
        span = (t[-1] - t[0]).astype('int64') / 1e9
        ctx.check(u in UNIT, 'repr-unit', u)
        ctx.check(abs(float(x) * UNIT[u] - span) <= .0051 * UNIT[u] + 1e-5, 'repr-span', '%s: summary says %s %s, the data span %.6f s' % (tag, x, u, span))
        lim = dict(days=86400, hours=3600, minutes=60, seconds=0)
        ctx.check(span >= lim[u] - 1e-5 and not any(span > lim[v] + 1e-5 for v in lim if lim[v] > lim[u]), 'repr-unit', '%s used for a span of %g s' % (u, span))
        import datetime
        want = {(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(t[0].astype('int64') // 1000) + d)).strftime('%b %d, %Y %H:%M') for d in (-20, 0, 20)}
        ctx.check(st in want, 'repr-start', '%s: started %r, first sample %s' % (tag, st, t[0]))
        m = re.search(r'\((\d+) pings @ (.*?)Hz\)', s)
        ctx.check(m and int(m.group(1)) == len(t) and m.group(2) == str(a.get('fs', '??')), 'repr-pings', lambda: '%s: %s for %d pings at %s' % (tag, m and m.group(0), len(t), a.get('fs', '??')))
        ctx.count('span-unit:' + u)
    lst = re.findall(r'^  - (\S+) (\(.*\))$', s, re.M)
    for nm, dm in lst:
        ctx.check(nm in ds.variables, 'repr-variable', '%s is not in the dataset' % nm)
        ctx.check(dm == str(tuple(ds[nm].dims)), 'repr-dims', '%s: %s, not %s' % (nm, ds[nm].dims, dm))
    ctx.check(len(set(lst)) == len(lst), 'repr-twice', 'variables listed twice: %s' % (lst,))
    ctx.check({'time', 'vel'} & set(ds.variables) <= {n for n, _ in lst}, 'repr-missing', 'time or vel is not listed')
    if len(lst) < len(ds.variables):
        ctx.check('others' in s, 'repr-others', 'unlisted variables are not mentioned')


def same(ctx, a, b, what):
    ctx.check(digest(a) == digest(b), 'method:' + what, lambda: 'velds.%s differs from the function: %s' % (what, describe_change(a, b)))


def run(ctx):
    tmp = ctx.scratch
    for rng in ctx.cases('accessor', ctx.n(90, 1200)):
        kind = str(rng.choice(['vector', 'vector_imu', 'awac', 'signature', 'signature_ahrs', 'rdi']))
        adv = kind.startswith('vector')
        nt = int(rng.choice([1, 2, 3, 20, 60]))
        fs = float(rng.choice([16, 4, 1, 1 / 60., 1 / 1800., 1 / 7200.]))
        ds = synth.make(rng, kind, nt=nt, nr=3, coord_sys=str(rng.choice(['beam', 'inst', 'earth', 'principal'])), fs=fs)
        if nt > 1 and rng.random() < .5:
            # a record of any length, the unit boundaries (1 and 2 minutes, hours, days) included
            span = float(10 ** rng.uniform(-1, 6.5)) if rng.random() < .6 else float(rng.choice([60, 3600, 86400]) * rng.choice([.97, 1.03, 1.5, 1.97, 2.03]))
            ds = ds.assign_coords(time=ds.time.values[0] + (np.arange(nt) * (span / (nt - 1)) * 1e6).astype('m8[us]'))
        ds['time'].attrs['units'] = 'seconds since 1970-01-01 00:00:00'
        ds.attrs['inst_type'] = 'ADV' if adv else 'ADCP'
        if rng.random() < .1:
            del ds.attrs['fs']
        for i in range(int(rng.integers(0, 8))):
            ds['x%d' % i if rng.random() < .5 else str(rng.choice(['amp', 'temp', 'pressure', 'vel'])) + '_%d' % i] = ('time', rng.normal(size=nt))
        with ctx.observe('accessor', dict(kind=kind, nt=nt, fs=fs, coord_sys=ds.attrs['coord_sys'], vars=sorted(map(str, ds.variables)), vel=ds['vel'].values)):
            summary(ctx, ds, 'raw')
            V = ds.velds
            ctx.check(V.variables == sorted(ds.variables) and isinstance(V.variables, list), 'variables', '%s' % V.variables)
            ctx.check(V.attrs is ds.attrs and set(V.coords) == set(ds.coords), 'views', 'attrs or coords differ from the dataset')
            for k in ('vel', 'time', 'heading', 'absent'):
                ctx.check((k in V) == (k in ds), 'contains', k)
                if k in ds:
                    ctx.check(V[k].identical(ds[k]), 'getitem', k)
                else:
                    ctx.expect_raises('getitem', KeyError, lambda: V[k])
            V['vel'].attrs['mark'] = 3
            ctx.check(ds['vel'].attrs.get('mark') == 3, 'views', 'velds[...] is not the variable of the dataset')
            del ds['vel'].attrs['mark']
            a, b = _copy(ds), _copy(ds)
            for step in range(int(rng.integers(1, 5))):
                op = str(rng.choice(['rotate2', 'set_declination', 'set_inst2head_rotmat'], p=[.5, .35, .15]))
                kw = {} if rng.random() < .3 else dict(inplace=bool(rng.integers(2)))
                if op == 'rotate2':
                    args = [] if rng.random() < .2 else [str(rng.choice(['beam', 'inst', 'earth', 'principal', 'nonsense'], p=[.24, .24, .24, .24, .04]))]
                    f = rotate2
                elif op == 'set_declination':
                    args, f = [float(rng.uniform(-40, 40))], set_declination
                else:
                    args, f = [dolfyn.euler2orient(*rng.uniform(-50, 50, 3))], set_inst2head_rotmat
                out = []
                for w in range(2):
                    try:
                        r = getattr(a.velds, op)(*args, **kw) if w == 0 else f(b, *args, **kw)
                        out.append(('ok', r))
                    except Exception as e:
                        out.append((type(e).__name__, None))
                    ctx.events += 2
                ctx.count('method:%s:%s' % (op, out[0][0]))
                ctx.check(out[0][0] == out[1][0], 'method:' + op, 'velds.%s(%s) %s, the function %s' % (op, args if op[0] == 'r' else '', out[0][0], out[1][0]))
                same(ctx, a, b, op)
                if out[0][0] == 'ok':
                    inpl = kw.get('inplace', True)
                    ctx.check((out[0][1] is None) == (out[1][1] is None) == inpl, 'method:' + op, 'velds.%s(inplace=%s) returned %s, the function %s' % (op, inpl, type(out[0][1]).__name__, type(out[1][1]).__name__))
                    if not inpl:
                        same(ctx, out[0][1], out[1][1], op)
                        summary(ctx, out[0][1], op)
                        if rng.random() < .5:
                            a, b = _copy(out[0][1]), _copy(out[1][1])
                summary(ctx, a, op)
            if nt >= 20 and 'fs' in a.attrs:
                r = VelBinner(int(rng.integers(2, 10)), fs).do_avg(a)
                summary(ctx, r, 'averaged')
                r = ds.isel(time=slice(int(rng.integers(0, 5)), int(rng.integers(6, nt))))
                summary(ctx, r, 'sliced')
            if rng.random() < .3:
                summary(ctx, ds.isel(time=int(rng.integers(nt))), 'one sample')
            if rng.random() < .2:
                summary(ctx, ds.drop_dims('time') if rng.random() < .5 else ds.isel(time=0, drop=True), 'no time')
            if rng.random() < .1:
                e = ds.assign_coords(time=np.datetime64('1970-01-01T00:00:00', 'ns') - np.arange(nt)[::-1] * np.timedelta64(1, 's'))
                summary(ctx, e, 'before 1970')
            if rng.random() < .3:
                f1, f2 = os.path.join(tmp, 'a.nc'), os.path.join(tmp, 'b.nc')
                ctx.call(a.velds.save, f1)
                dolfyn.save(a, f2)
                same(ctx, dolfyn.load(f1), dolfyn.load(f2), 'save')
                ctx.count('method:save')
                os.remove(f1)
                os.remove(f2)
