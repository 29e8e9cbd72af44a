"""C32: Nortek Vectrino decoding against an independent encoder."""
import datetime as D
import numpy as np
import dolfyn
from .. import enc_nortek as E
from .c01 import us, write
from .c03 import compare_attrs, unknown

RULE = ('Random Vectrino recordings written by an independent encoder (1-100 Hz, any status, amplitude, correlation and velocity, header records repeated along the file, unknown records in between, partial last record, '
        'partial reads); every sample, time and configuration value compared with what was recorded. Non-trivial: at least two samples.')
FILES = ['dolfyn/io/nortek.py', 'dolfyn/io/nortek_defs.py', 'dolfyn/io/base.py']
UNITS = dict(vel='m s-1', corr='%', amp='1')


def desc(c, S):
    return dict(fs=c.fs, n=len(S), axes=E.AXES[c.axes], t0=str(S[0]['t']), vel=np.ravel(S[0]['vel'])[:4])


def compare(ctx, ds, c, S, mech='vno', lo=0):
    n = len(S) - lo
    ctx.check(ds.sizes['time'] == n, mech + ':count', lambda: '%d samples, recorded %d' % (ds.sizes['time'], n))
    ctx.check(ds['vel'].dims == ('dir', 'time') and ds['amp'].dims == ('beam', 'time') and ds['corr'].dims == ('beam', 'time') and ds['status'].dims == ('time',),
              mech + ':dims', lambda: 'dimensions %s' % {v: ds[v].dims for v in ('vel', 'amp', 'corr', 'status')})
    S1 = S[lo:]
    col = lambda k: np.array([s[k] for s in S1]).T
    ctx.close(ds['vel'], col('vel') * .001, mech + ':vel', 'vel', rtol=1e-6, atol=1e-9)
    for v in ('amp', 'corr', 'status'):
        ctx.eq(ds[v].values.astype(int), col(v), mech + ':' + v, v)
    e = np.abs((ds['time'].values - us([s['t'] for s in S1])).astype('int64')) / 1e9
    ctx.check((e <= 2e-6 * (1 + len(S) / 100)).all(), mech + ':time', lambda: 'sample time off by %.7f s at %d' % (e.max(), e.argmax()))
    compare_attrs(ctx, ds, c, mech)
    ctx.check(list(ds.attrs['rotate_vars']) == ['vel'], mech + ':rotate_vars', lambda: 'rotate_vars %s' % ds.attrs['rotate_vars'])
    for v, u in UNITS.items():
        ctx.check(ds[v].attrs.get('units') == u, mech + ':units', lambda: '%s in %s' % (v, ds[v].attrs.get('units')))


def run(ctx):
    for rng in ctx.cases('files', ctx.n(60, 800)):
        c, S, b = E.rand_vectrino(rng)
        f = write(ctx, b''.join(b), E.pick(rng)('.vno', '.VNO', '.dat', ''))
        with ctx.observe('files', desc(c, S)):
            compare(ctx, ctx.call(dolfyn.read, f), c, S)
            ctx.count('samples-compared', len(S))
    for rng in ctx.cases('long', ctx.n(4, 40)):
        c, S, b = E.rand_vectrino(rng, n=int(rng.integers(1000, 4000)))
        f = write(ctx, b''.join(b), '.vno')
        with ctx.observe('long', desc(c, S)):
            compare(ctx, ctx.call(dolfyn.read, f), c, S)
            ctx.count('samples-compared', len(S))
    for rng in ctx.cases('records-between', ctx.n(40, 500)):
        c, S, b = E.rand_vectrino(rng)
        for _ in range(int(rng.integers(1, 6))):
            b.insert(int(rng.integers(3, len(b) + 1)), E.vno_hdr(rng) if rng.random() < .6 else unknown(rng))
        f = write(ctx, b''.join(b), '.vno')
        with ctx.observe('records-between', desc(c, S)):
            compare(ctx, ctx.call(dolfyn.read, f), c, S, 'between')
    for rng in ctx.cases('partial-record', ctx.n(30, 400)):
        c, S, b = E.rand_vectrino(rng, n=int(rng.integers(4, 60)))
        k = int(rng.integers(5, len(b)))
        cut = int(rng.integers(0, len(b[k])))
        whole = k - 3 + (cut >= 20)
        f = write(ctx, b''.join(b[:k]) + b[k][:cut], '.vno')
        with ctx.observe('partial-record', dict(desc(c, S), kept=k - 3)):
            ds = ctx.call(dolfyn.read, f)
            m = ds.sizes['time']
            ctx.check(k - 4 <= m <= whole, 'partial:count', lambda: '%d samples, complete ones %d' % (m, k - 3))
            compare(ctx, ds, c, S[:m], 'partial')
    for rng in ctx.cases('window', ctx.n(30, 400)):
        c, S, b = E.rand_vectrino(rng, n=int(rng.integers(4, 120)))
        f = write(ctx, b''.join(b), '.vno')
        lo = int(rng.integers(0, len(S) - 2)) if rng.random() < .5 else 0
        hi = int(rng.integers(lo + 1, len(S) + 1))
        with ctx.observe('window', dict(desc(c, S), lo=lo, hi=hi)):
            ds = ctx.call(dolfyn.read, f, nens=(lo, hi) if lo or rng.random() < .5 else hi)
            compare(ctx, ds, c, S[:hi], 'window', lo)
    for rng in ctx.cases('checksum', ctx.n(20, 300)):
        c, S, b = E.rand_vectrino(rng)
        f = write(ctx, b''.join(b), '.vno')
        from dolfyn.io import nortek
        with ctx.observe('checksum', desc(c, S)):
            compare(ctx, ctx.call(nortek.read_nortek, f, do_checksum=True), c, S, 'checksum')
