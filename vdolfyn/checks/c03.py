"""C03: Nortek Vector decoding against an independent encoder."""
import datetime as D
import re
import numpy as np
import dolfyn
from .. import enc_nortek as E, rotmodel
from ..core import reader_dims
from .c01 import us, write

RULE = ('Random Vector recordings written by an independent encoder (1-64 Hz, continuous and burst mode, three coordinate systems, both velocity scalings, three Microstrain record types or none, unknown records in between, '
        'clock drift against the sampling rate, partial last record); every sample, sensor and configuration value compared with what was recorded. Non-trivial: at least two seconds of data.')
FILES = ['dolfyn/io/nortek.py', 'dolfyn/io/nortek_defs.py', 'dolfyn/io/base.py']


def compare_attrs(ctx, ds, c, mech):
    for k, w in E.attrs(c).items():
        ctx.check(k in ds.attrs, mech + ':attr', lambda: 'attribute %s missing' % k)
        g = ds.attrs[k]
        same = str(g) == w if isinstance(w, str) else abs(float(g) - w) < 1e-9 * max(1, abs(w))
        ctx.check(same, mech + ':attr-' + k, lambda: 'attribute %s: %r, recorded %r' % (k, g, w))
    ctx.close(ds['beam2inst_orientmat'], c.T / 4096., mech + ':beam2inst', 'beam2inst_orientmat', rtol=1e-6, atol=1e-7)
    if c.n_burst:
        # "... second bursts collected at ... Hz, with bursts taken every ... minutes"
        d = [float(x) for x in re.findall(r'[0-9.e+-]*[0-9]', ds.attrs['duty_cycle_description'])]
        fs = float(ds.attrs['fs'])
        w = [c.n_burst / fs, fs, c.meas / 60.]
        if fs > 1:
            ctx.check(len(d) == 3 and np.allclose(d, w, rtol=1e-4, atol=1e-3), mech + ':attr-duty_cycle_description', lambda: '%r, recorded %s' % (ds.attrs['duty_cycle_description'], w))
    else:
        ctx.check('duty_cycle_description' not in ds.attrs, mech + ':attr-duty_cycle_description', 'a duty cycle without bursts')
    ctx.check('vel' in ds.attrs['rotate_vars'], mech + ':rotate_vars', 'vel is not rotatable')


def interp(x, xs, v, circular=False):
    v = np.asarray(v, float)
    if circular:
        v = np.unwrap(v, period=360)
    g = np.interp(x, xs, v)
    return g


def times(ctx, ds, S, mech):
    n = min(len(S), ds.sizes['time'])
    e = np.abs((ds['time'].values[:n] - us([s['t'] for s in S[:n]])).astype('int64')) / 1e9
    ctx.check((e <= 2e-3).all(), mech + ':time', lambda: 'sample time off by %.4f s at %d' % (e.max(), e.argmax()))


def compare(ctx, ds, c, S, sy, mech='vec', drift=0, lo=0, time_tol=2e-3):
    """ds holds exactly the samples S[lo:]."""
    n = len(S) - lo
    ctx.check(ds.sizes['time'] == n, mech + ':count', lambda: '%d samples, recorded %d' % (ds.sizes['time'], n))
    reader_dims(ctx, ds, mech)
    S1 = S[lo:]
    k = (0.1 if c.scale else 1.) * .001
    ctx.close(ds['vel'], np.array([s['vel'] for s in S1]).T * k, mech + ':vel', 'vel', rtol=1e-6, atol=1e-9)
    ctx.eq(ds['amp'].values.astype(int), np.array([s['amp'] for s in S1]).T, mech + ':amp', 'amp')
    ctx.eq(ds['corr'].values.astype(int), np.array([s['corr'] for s in S1]).T, mech + ':corr', 'corr')
    ctx.close(ds['pressure'], [s['p'] / 1000. for s in S1], mech + ':pressure', 'pressure', rtol=1e-6)
    ts = us([s['t'] for s in S])
    e = np.abs((ds['time'].values - ts[lo:]).astype('int64')) / 1e9
    ctx.check((e <= time_tol + drift).all(), mech + ':time', lambda: 'sample time off by %.4f s at %d' % (e.max(), e.argmax()))
    x = (ts - ts[0]).astype('int64') / 1e9
    idx = np.array([i for i, _ in sy])
    xs = x[idx]
    last = idx[-1]
    inside = np.arange(lo, len(S)) <= last if len(idx) > 1 else np.zeros(n, bool)
    on = np.isin(np.arange(lo, len(S)), idx)
    unit = dict(batt=('batt', .1), c_sound=('c', .1), heading=('heading', .1), pitch=('pitch', .1), roll=('roll', .1), temp=('temp', .01))
    for v, (f, s) in unit.items():
        w = np.array([r[f] for _, r in sy]) * s
        g = ds[v].values.astype(float)
        d = lambda a, b: np.abs((a - b + 180) % 360 - 180) if v == 'heading' else np.abs(a - b)
        ctx.check((d(g[on], w[idx >= lo]) <= 1e-6 * np.abs(w[idx >= lo]) + 1e-6).all(), mech + ':' + v, lambda: '%s at the system records: %s, recorded %s' % (v, g[on][:5], w[idx >= lo][:5]))
        wi = interp(x, xs, w, v == 'heading')[lo:]
        # between two records, to the (sub-millisecond) accuracy of the fitted times
        slope = np.abs(np.diff(np.unwrap(w, period=360) if v == 'heading' else w)).max() if len(w) > 1 else 0
        tol = 2e-5 * np.abs(w).max() + 1e-4 + slope * (3e-3 + 2 * drift)
        bad = inside & ~(d(g, wi) <= tol)
        ctx.check(not bad.any(), mech + ':interp-' + v, lambda: '%s of sample %d: %s, interpolated from the records %s' % (v, lo + bad.argmax(), g[bad.argmax()], wi[bad.argmax()]))
        # after the last record: not interpolated, or held
        after = ~inside & ~on
        ctx.check((np.isnan(g[after]) | (d(g[after], w[-1]) <= 1e-3)).all(), mech + ':after-' + v, lambda: '%s after the last system record' % v)
        if v == 'heading':
            ctx.check(not ((g < 0) | (g > 360)).any(), mech + ':heading-range', 'heading outside 0-360')
    for v in ('error', 'status'):
        ctx.eq(ds[v].values[on].astype(int), np.array([r[v] for i, r in sy if i >= lo]), mech + ':' + v, v)
    st = np.array([r['status'] & 1 for _, r in sy])
    od = ds['orientation_down'].values.astype(bool)
    if not c.n_burst:
        every = np.arange(len(S))
        a = st[np.searchsorted(idx, every, 'right') - 1]
        b = st[np.minimum(np.searchsorted(idx, every, 'left'), len(idx) - 1)]
        sure = (a == b)
        # (one sample late at a change is tolerated)
        sure[1:] &= a[:-1] == a[1:]
        sure[:-1] &= b[1:] == b[:-1]
        a, b, sure = a[lo:], b[lo:], sure[lo:]
        ctx.check((od[sure] == a[sure].astype(bool)).all(), mech + ':orientation_down', 'orientation_down does not follow the status bit')
        ctx.check(((od == a) | (od == b) | ~sure).all(), mech + ':orientation_down', 'orientation_down is neither of its neighbouring records')
    compare_attrs(ctx, ds, c, mech)
    ctx.check(bool(ds.attrs['has_imu']) == bool(c.imu), mech + ':has_imu', 'has_imu %s' % ds.attrs['has_imu'])
    rv = ['vel']
    if c.imu:
        X = [E.imu_expected(c.imu, s['imu'], c.fs) for s in S1]
        for v in X[0]:
            w = np.moveaxis(np.array([z[v] for z in X]), 0, -1)
            ctx.check(v in ds, mech + ':missing', lambda: '%s is not in the dataset' % v)
            ctx.close(ds[v], w, mech + ':' + v, v, rtol=3e-6, atol=1e-6)
        rv += [v for v in X[0] if v != 'orientmat']
        ctx.check(ds['accel'].attrs['units'] == 'm s-2' and ds['angrt'].attrs['units'] == 'rad s-1', mech + ':units', 'IMU units')
    ctx.check(sorted(ds.attrs['rotate_vars']) == sorted(rv), mech + ':rotate_vars', lambda: 'rotate_vars %s' % ds.attrs['rotate_vars'])
    if c.imu not in ('ahrs195', 'ahrs204'):
        ax = rotmodel.axes(ds.drop_vars('orientmat'))
        ok = np.isfinite(ds['heading'].values + ds['pitch'].values + ds['roll'].values)
        ctx.close(ds['orientmat'].values[..., ok], ax[..., ok], mech + ':orientmat', 'orientmat', rtol=0, atol=5e-6)
    u = dict(vel='m s-1', pressure='dbar', batt='V', c_sound='m s-1', heading='degree', pitch='degree', roll='degree', temp='degree_C')
    for v in u:
        ctx.check(ds[v].attrs.get('units') == u[v], mech + ':units', lambda: '%s in %s' % (v, ds[v].attrs.get('units')))


def desc(c, S):
    return dict(kind=c.kind, fs=c.fs, n=len(S), imu=c.imu, burst=c.n_burst, axes=E.AXES[c.axes], scale=c.scale, t0=str(S[0]['t']), vel=np.ravel(S[0]['vel'])[:3])


def unknown(rng):
    """A record of an id the reader does not know, with a right checksum."""
    return E.rec(int(E.pick(rng)(0x06, 0x21, 0x2a, 0x40, 0x60, 0x81)), bytes(rng.integers(0, 256, 2 * int(rng.integers(0, 40)), 'uint8')))


def drifting(rng):
    """A clock that runs at a slightly different rate than the samples."""
    c = E.rand_cfg(rng, 'ADV')
    c.imu = None
    t0 = E.rand_clock(rng)
    r = 1 + float(rng.uniform(-3e-3, 3e-3))
    n = c.fs * int(rng.integers(15, 60))
    S, sy, ch = [], [], [E.vec_check(rng), E.vec_hdr(t0, n & 0xffff)]
    last, k = None, 0
    for i in range(n):
        if i == round(k * c.fs * r):
            last = E.sys_rand(rng, t0 + D.timedelta(seconds=k), last)
            sy.append((i, last))
            ch.append(E.vec_sys(last))
            k += 1
        s = E.vec_sample(rng, i)
        s['t'] = t0 + D.timedelta(seconds=i / (c.fs * r))
        S.append(s)
        ch.append(E.vec_data(s))
    return c, S, sy, [E.head(c)] + ch


def run(ctx):
    for rng in ctx.cases('files', ctx.n(80, 1500)):
        c, S, sy, b = E.rand_vector(rng)
        f = write(ctx, b''.join(b), E.pick(rng)('.VEC', '.vec', '.dat', ''))
        with ctx.observe('files', desc(c, S)):
            ds = ctx.call(dolfyn.read, f)
            compare(ctx, ds, c, S, sy)
            ctx.count('samples-compared', len(S))
    for rng in ctx.cases('short', ctx.n(15, 200)):
        # a few samples: zero, one or two system records after the first
        c = E.rand_cfg(rng, 'ADV')
        c, S, sy, b = E.rand_vector(rng, c=c, n=int(rng.integers(1, 3 * c.fs + 1)))
        f = write(ctx, b''.join(b), '.VEC')
        with ctx.observe('short', desc(c, S), nontrivial=len(sy) > 1):
            compare(ctx, ctx.call(dolfyn.read, f), c, S, sy, 'short')
    for rng in ctx.cases('drift', ctx.n(10, 150)):
        c, S, sy, b = drifting(rng)
        f = write(ctx, b''.join(b), '.VEC')
        with ctx.observe('drift', desc(c, S)):
            compare(ctx, ctx.call(dolfyn.read, f), c, S, sy, 'drift', drift=1.5 / c.fs)
    for rng in ctx.cases('unknown', ctx.n(15, 200)):
        c, S, sy, b = E.rand_vector(rng, n_sec=4)
        for _ in range(int(rng.integers(1, 5))):
            b.insert(int(rng.integers(1, len(b) + 1)), unknown(rng))
        f = write(ctx, b''.join(b), '.VEC')
        with ctx.observe('unknown', desc(c, S)):
            compare(ctx, ctx.call(dolfyn.read, f), c, S, sy, 'unknown')
    for rng in ctx.cases('partial', ctx.n(15, 200)):
        # the recording ends within a record
        c, S, sy, b = E.rand_vector(rng, n_sec=4)
        k = int(rng.integers(len(b) - min(len(S), 3 * c.fs), len(b)))
        cut = b''.join(b[:k]) + b[k][:int(rng.integers(0, len(b[k])))]
        m = n = sum(x[1] == 0x10 for x in b[1:k])
        if b[k][1] == 0x10 and len(cut) - len(b''.join(b[:k])) >= 22:
            m += 1      # this sample was complete but for its checksum or its IMU record
        f = write(ctx, cut, '.VEC')
        with ctx.observe('partial', dict(desc(c, S), kept=n)):
            ds = ctx.call(dolfyn.read, f)
            ctx.check(n - 1 <= ds.sizes['time'] <= m, 'partial:count', lambda: '%d samples, complete ones %d' % (ds.sizes['time'], n))
            q = min(n, ds.sizes['time'])
            times(ctx, ds, S[:q], 'partial')
            ctx.close(ds['vel'][:, :q], np.array([s['vel'] for s in S[:q]]).T * (.0001 if c.scale else .001), 'partial:vel', 'vel', rtol=1e-6, atol=1e-9)
            if c.imu:
                X = [E.imu_expected(c.imu, s['imu'], c.fs) for s in S[:q]]
                ctx.close(ds['accel'][:, :q], np.array([x['accel'] for x in X]).T, 'partial:accel', 'accel', rtol=3e-6, atol=1e-6)
    for rng in ctx.cases('imu-gap', ctx.n(10, 150)):
        # IMU records are missing: only those samples have no IMU data; at the end these are not reported
        c, S, sy, b = E.rand_vector(rng, imu=E.pick(rng)('ahrs195', 'ahrs204', 'ahrs211'), n_sec=4)
        first = [i for i, x in enumerate(b) if i and x[1] == 0x10]
        gaps = set(int(g) for g in rng.integers(1, len(S) - 1, int(rng.integers(1, 6))))
        tail = min(int(E.pick(rng)(0, 0, 1, int(rng.integers(1, 6)))), len(S) // 3)
        gaps |= set(range(len(S) - tail, len(S)))
        for g in gaps:
            b[first[g]] = b[first[g]][:24]
        f = write(ctx, b''.join(b), '.VEC')
        with ctx.observe('imu-gap', dict(desc(c, S), gaps=sorted(gaps))):
            ds = ctx.call(dolfyn.read, f)
            while len(S) - 1 in gaps:
                gaps.remove(len(S) - 1)
                S = S[:-1]
            times(ctx, ds, S, 'imu-gap')
            ctx.check(ds.sizes['time'] == len(S), 'imu-gap:count', lambda: '%d samples, recorded %d' % (ds.sizes['time'], len(S)))
            ctx.close(ds['vel'], np.array([s['vel'] for s in S]).T * (.0001 if c.scale else .001), 'imu-gap:vel', 'vel', rtol=1e-6, atol=1e-9)
            X = [E.imu_expected(c.imu, s['imu'], c.fs) for s in S]
            w = np.array([x['accel'] for x in X]).T
            w[:, sorted(gaps)] = np.nan
            ctx.close(ds['accel'], w, 'imu-gap:accel', 'accel', rtol=3e-6, atol=1e-6)
