"""C04: Nortek AWAC current profiles against an independent encoder."""
import numpy as np
import dolfyn
from .. import enc_nortek as E, rotmodel
from ..core import reader_dims
from .c01 import us, write
from .c03 import compare_attrs, unknown

RULE = ('Random AWAC recordings written by an independent encoder (1-128 cells, with fill byte where the record needs one, four frequencies, three coordinate systems, negative angles and temperatures, pressures beyond 16 bits, '
        'unknown records in between, partial last record); every profile and configuration value compared. Non-trivial: at least 2 profiles.')
FILES = ['dolfyn/io/nortek.py', 'dolfyn/io/nortek_defs.py', 'dolfyn/io/base.py']


def compare(ctx, ds, c, S, mech='awac'):
    n = len(S)
    ctx.check(ds.sizes['time'] == n, mech + ':count', lambda: '%d profiles, recorded %d' % (ds.sizes['time'], n))
    reader_dims(ctx, ds, mech)
    e = np.abs((ds['time'].values - us([s['t'] for s in S])).astype('int64'))
    ctx.check((e <= 1000).all(), mech + ':time', lambda: 'time of profile %d: %s, recorded %s' % (e.argmax(), ds['time'].values[e.argmax()], S[e.argmax()]['t']))
    ctx.close(ds['vel'], np.array([s['vel'] for s in S]).transpose(1, 2, 0) * .001, mech + ':vel', 'vel', rtol=1e-6, atol=1e-9)
    ctx.eq(ds['amp'].values.astype(int), np.array([s['amp'] for s in S]).transpose(1, 2, 0), mech + ':amp', 'amp')
    for v, (f, k) in dict(batt=('batt', .1), c_sound=('c', .1), heading=('heading', .1), pitch=('pitch', .1), roll=('roll', .1), temp=('temp', .01), pressure=('p', .001), error=('error', 1), status=('status', 1)).items():
        ctx.close(ds[v], [s[f] * k for s in S], mech + ':' + v, v, rtol=1e-6, atol=1e-6)
    cs, bd, r = E.awac_range(c)
    ctx.close(ds['range'], r, mech + ':range', 'range', rtol=1e-6, atol=1e-6)
    ctx.close([ds.attrs['cell_size'], ds.attrs['blank_dist']], [cs, bd], mech + ':cell_size', 'cell_size, blank_dist', rtol=1e-9)
    compare_attrs(ctx, ds, c, mech)
    ctx.check(list(ds.attrs['rotate_vars']) == ['vel'], mech + ':rotate_vars', 'rotate_vars')
    ax = rotmodel.axes(ds.drop_vars('orientmat'))
    ctx.close(ds['orientmat'], ax, mech + ':orientmat', 'orientmat', rtol=0, atol=5e-6)
    u = dict(vel='m s-1', pressure='dbar', batt='V', c_sound='m s-1', heading='degree', pitch='degree', roll='degree', temp='degree_C')
    for v in u:
        ctx.check(ds[v].attrs.get('units') == u[v], mech + ':units', lambda: '%s in %s' % (v, ds[v].attrs.get('units')))


def desc(c, S):
    return dict(kind=c.kind, n=len(S), cells=c.nbins, freq=c.freq, axes=E.AXES[c.axes], t0=str(S[0]['t']), vel=np.ravel(S[0]['vel'])[:3])


def run(ctx):
    for rng in ctx.cases('files', ctx.n(150, 2500)):
        c, S, b = E.rand_awac(rng)
        f = write(ctx, b''.join(b), E.pick(rng)('.wpr', '.WPR', '.x', ''))
        with ctx.observe('files', desc(c, S), nontrivial=len(S) > 1):
            compare(ctx, ctx.call(dolfyn.read, f), c, S)
            ctx.count('profiles-compared', len(S))
    for rng in ctx.cases('unknown', ctx.n(30, 400)):
        c, S, b = E.rand_awac(rng)
        for _ in range(int(rng.integers(1, 5))):
            b.insert(int(rng.integers(1, len(b) + 1)), unknown(rng))
        f = write(ctx, b''.join(b), '.wpr')
        with ctx.observe('unknown', desc(c, S), nontrivial=len(S) > 1):
            compare(ctx, ctx.call(dolfyn.read, f), c, S, 'unknown')
    for rng in ctx.cases('partial', ctx.n(40, 500)):
        c, S, b = E.rand_awac(rng, n=int(rng.integers(2, 12)))
        k = int(rng.integers(2, len(b)))
        j = int(rng.integers(0, len(b[k])))
        if c.nbins * 3 % 2 == 1 and len(b[k]) - 3 <= j or j >= len(b[k]) - 2:
            continue
        f = write(ctx, b''.join(b[:k]) + b[k][:j], '.wpr')
        with ctx.observe('partial', dict(desc(c, S), kept=k - 1, cut=j), nontrivial=k > 2):
            compare(ctx, ctx.call(dolfyn.read, f), c, S[:k - 1], 'partial')
