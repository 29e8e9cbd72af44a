"""C06: Nortek Signature (.ad2cp) decoding against an independent encoder."""
import copy
import datetime as D
import json
import struct
import warnings
import numpy as np
import dolfyn
from .. import enc_sig as E, rotmodel
from ..core import reader_dims
from .c01 import us, write

RULE = ('Random Signature recordings written by an independent encoder (burst, average, bottom-track, fifth-beam, echosounder and raw-altimeter streams in 11 combinations, 1-60 cells, all optional fields, three coordinate systems, '
        'unknown records and strings in between, single skipped pings, partial last ensemble); every value of every stream compared with what was recorded. Non-trivial: at least 3 ensembles.')
FILES = ['dolfyn/io/nortek2.py', 'dolfyn/io/nortek2_defs.py', 'dolfyn/io/nortek2_lib.py', 'dolfyn/io/base.py']

MERGED = ('c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock', 'batt')
ANGLES = ('heading', 'pitch', 'roll')
RAW = (E.ALTRAW, E.ALTRAW_AVG)
TIME = {i: 'time' + t for i, t in E.TAG.items()}
BEAM_ATTRS = ('n_cells', 'n_beams', 'cell_size', 'blank_dist', 'nominal_corr', 'power_level_dB', 'SerialNum', 'ambig_vel', 'coord_sys_axes')
UNITS = dict(vel='m s-1', amp='1', corr='%', pressure='dbar', temp='degree_C', heading='degree', pitch='degree', roll='degree', c_sound='m s-1', batt='V', mag='uT', accel='m s-2', angrt='rad s-1',
             le_dist_alt='m', ast_dist_alt='m', dist='m', prcnt_gd='%', temp_press='degree_C', temp_clock='degree_C')


def array(rows):
    return np.moveaxis(np.array(rows, float), 0, -1)


def values(v, tag):
    return v.transpose(..., 'time' + tag).values.astype(float)


def close(ctx, v, name, tag, ks, w, mech, angle=False, rtol=2e-6, atol=1e-6):
    """The variable's ensembles ks hold the recorded values w."""
    g = values(v, tag)[..., ks]
    if w.ndim == 3 and w.shape[0] == 1:
        w = w[0]            # a single beam is stored without a beam dimension
    ctx.check(g.shape == w.shape, mech + ':shape', lambda: '%s has shape %s, recorded %s' % (name, g.shape, w.shape))
    if angle:
        g = w + (g - w + 180) % 360 - 180
        atol = 2e-4
    ctx.close(g, w, '%s:%s' % (mech, name), name, rtol=rtol, atol=atol)


def compare(ctx, ds, c, R, n, lo=0, mech='sig', dual=0):
    """ds holds exactly the ensembles lo..n (dual: it is the first/second of a dual-profile recording)."""
    if isinstance(n, int):
        n = {i: n for i in c.ids}
    N = n
    reader_dims(ctx, ds, mech)
    for i in c.ids:
        s, tag, n = c.S[i], E.TAG[i], N[i]
        rs = [(k - lo, e) for k, e in R[i] if lo <= k < n]
        if not rs and i in RAW:
            continue
        t = TIME[i]
        ctx.check(t in ds.dims, mech + ':no-time', lambda: 'no %s' % t)
        if i in RAW:
            rs = [(j, e) for j, (k, e) in enumerate(rs)]
            ctx.check(ds.sizes[t] == len(rs), mech + ':count', lambda: '%d records along %s, recorded %d' % (ds.sizes[t], t, len(rs)))
        else:
            ctx.check(ds.sizes[t] == n - lo, mech + ':count', lambda: '%d ensembles along %s, recorded %d' % (ds.sizes[t], t, n - lo))
        ks = np.array([k for k, _ in rs])
        d = np.abs((ds[t].values[ks] - us([e['t'] for _, e in rs])).astype('int64'))
        ctx.check((d <= 1000).all(), mech + ':time', lambda: '%s of ensemble %d: %s, recorded %s' % (t, ks[d.argmax()], ds[t].values[ks][d.argmax()], rs[d.argmax()][1]['t']))
        X = [E.expected(c, s, e) for _, e in rs]
        raw = i in RAW
        for k in X[0]:
            w = array([x[k] for x in X])
            if raw:
                if not k.endswith('_alt'):
                    continue
                name = k[:-4] + tag
            elif k == 'echo':
                name = 'echo'
            elif i == E.AVG and k == 'orientmat' and E.BURST not in c.ids:
                name = 'orientmat'
            elif i == E.B5 and k in MERGED + ANGLES:
                continue
            else:
                name = k + tag
            if name == 'orientmat' and i == E.AVG:
                v, vt = ds[name], '_avg' if dual else ''
            else:
                ctx.check(name in ds, mech + ':missing', lambda: '%s is not in the dataset' % name)
                v, vt = ds[name], tag
            kk = ks
            if i == E.BURST and E.B5 in c.ids and k in MERGED + ANGLES:
                # averaged with the fifth beam's
                o = dict((q - lo, E.expected(c, c.S[E.B5], e)) for q, e in R[E.B5])
                b = array([o[q][k] if q in o else x[k] for q, x in zip(ks, X)])
                if k in ANGLES:
                    w = np.rad2deg(np.angle(np.exp(1j * np.deg2rad(w)) + np.exp(1j * np.deg2rad(b))))
                else:
                    w = (w + b) / 2
            close(ctx, v, name, vt, kk, w, mech, angle=k in ANGLES)
            base = k
            if base in UNITS and not raw and not (base == 'vel' and i == E.BT):
                ctx.check(v.attrs.get('units') == UNITS[base], mech + ':units', lambda: '%s in %r' % (name, v.attrs.get('units')))
        if not raw:
            if not dual:
                ctx.eq(ds['ensemble' + tag].values[ks], ks + lo + 1, mech + ':ensemble', 'ensemble' + tag)
            tt = ds[t].values
            ctx.check((np.diff(tt).astype('int64') > -5 * 10 ** 6).all(), mech + ':time-order', lambda: '%s goes back' % t)
            if i == E.BURST and E.B5 in c.ids and lo <= c.gap.get(i, -1) < n:
                # all that is known of this ping is what the fifth beam's record says
                g = c.gap[i]
                o = E.expected(c, c.S[E.B5], dict(R[E.B5])[g])
                for q in MERGED + ANGLES:
                    close(ctx, ds[q], q, '', np.array([g - lo]), np.array([o[q]], float), mech + ':skipped', angle=q in ANGLES)
            if i in c.gap and lo <= c.gap[i] < n:
                ctx.check(ds['status' + tag].values[c.gap[i] - lo] == 0, mech + ':skipped', 'a skipped ping has a status')
        if i in (E.BURST, E.AVG, E.B5, E.ECHO):
            r = (np.arange(s.nc) + 1) * s.cell * .001 + s.blank * (.001 if i == E.ECHO else .01)
            ctx.close(ds['range' + tag], r, mech + ':range', 'range' + tag, rtol=1e-6, atol=1e-6)
        at = dict(cell_size=s.cell * .001, blank_dist=s.blank * (.001 if i == E.ECHO else .01), nominal_corr=s.nomcorr, power_level_dB=s.power, SerialNum=c.serial, ambig_vel=s.ambig * .001)
        if i != E.ECHO:
            at.update(n_beams=s.nb)
        if i != E.BT or not c.btcells:
            at.update(n_cells=s.nc)
        sfx = {E.ALTRAW: '_alt', E.ALTRAW_AVG: '_alt_avg'}.get(i, tag)
        for a, w in at.items():
            if raw and a == 'blank_dist':
                continue
            ctx.check(a + sfx in ds.attrs, mech + ':attr-' + a, 'no attribute %s' % (a + sfx))
            ctx.close(float(ds.attrs[a + sfx]), w, mech + ':attr-' + a, a + sfx, rtol=1e-6, atol=1e-9)
        if i not in (E.BT, E.ECHO) and i != (E.BURST if E.BURST in c.ids else E.AVG):
            ctx.check(ds.attrs.get('coord_sys_axes' + sfx) == E.AXES[s.axes], mech + ':attr-axes', lambda: '%s: %s, recorded %s' % ('coord_sys_axes' + sfx, ds.attrs.get('coord_sys_axes' + sfx), E.AXES[s.axes]))
        bc = ds.attrs['burst_config' + sfx]
        bc = json.loads(bc) if isinstance(bc, str) else dict(bc)

        def bits(table):
            z = {v: bool(s.valid >> q & 1) for q, v in enumerate(('press_valid', 'temp_valid', 'compass_valid', 'tilt_valid'))}
            z.update({f: bool(E.config(s) >> q & 1) for f, q in table.items()})
            return z
        if i == E.BT and bc == bits(E.BITS):
            if ctx.prop == 'C06':       # (a known finding there; other checks share this comparison)
                ctx._report('ad2cp:burst_config_bt-decoded-as-burst', 'the attribute burst_config_bt is decoded with the bits of a burst record: %s' % sorted(k for k in bc if bc[k]), 'files', {}, {})
        else:
            ctx.check(bc == bits(E.BTBITS if i == E.BT else E.BITS), mech + ':burst_config', lambda: 'burst_config%s: %s, recorded %s' % (sfx, bc, sorted(s.flags)))
        if raw:
            sfx = sfx[4:]
            for a in ('tilt_over_5deg', 'tilt_over_10deg', 'multibeam_alt', 'power'):
                g = ds.attrs.get('power_level_alt' + sfx if a == 'power' else a + sfx)
                w = ('high', 'med-high', 'med-low', 'low')[c.alt['power']] if a == 'power' else c.alt[a]
                ctx.check(g == w, mech + ':attr-altimeter', lambda: '%s%s: %r, recorded %r' % (a, sfx, g, w))
        if i == (E.BURST if E.BURST in c.ids else E.AVG) and dual != 2:
            for q, a in enumerate(('proc_idle_less_3pct', 'proc_idle_less_6pct', 'proc_idle_less_12pct')):
                w = c.status0 >> q & 1 if c.status0 else None
                ctx.check(ds.attrs.get(a) == w, mech + ':attr-proc-idle', lambda: '%s: %r, recorded %r' % (a, ds.attrs.get(a), w))
    m = E.BURST if E.BURST in c.ids else E.AVG
    ctx.check(dual == 2 or (ds['time'].values == ds[TIME[m]].values).all(), mech + ':time', 'time is not %s' % TIME[m])
    P = dict(inst_model=c.model, inst_make='Nortek', inst_type='ADCP', coord_sys=E.CS[E.AXES[c.S[m].axes]], beam_angle=c.theta, has_imu=int('ahrs' in c.S[m].flags),
             orientation={4: 'up', 5: 'down', 7: 'AHRS'}.get(c.orient, 'horizontal'), orient_status={0: 'fixed', 1: 'auto_UD', 3: 'AHRS-3D'}[c.auto], wakeup_state={0: 'bad power', 1: 'power on', 2: 'break', 3: 'clock'}[c.wake])
    if dual == 2:
        P.pop('wakeup_state')
        P['avg_interval_sec'] = c.ai
    elif dual:
        if ds.attrs['fs'] == c.mi:
            ctx._report('ad2cp:dual-profile-fs', 'fs of the burst dataset of a dual-profile recording is the averaging plan\'s measurement interval', 'dual', {}, {})
        else:
            P['fs'] = c.fs
    elif m == E.BURST:
        P['fs'] = c.fs
    else:
        P.update(avg_interval_sec=c.ai, bandwidth=c.bw)
    for a, w in P.items():
        g = ds.attrs.get(a)
        ctx.check((g.strip('"') if isinstance(g, str) else g) == w, mech + ':attr-' + a, lambda: 'attribute %s: %r, recorded %r' % (a, ds.attrs.get(a), w))
    ctx.close(ds['beam2inst_orientmat'], c.T, mech + ':beam2inst', 'beam2inst_orientmat', rtol=1e-6, atol=1e-6)
    if dual != 2:
        head(ctx, c, ds, mech)
    fl = c.S[m].flags
    want = {'vel' + E.TAG[m]} | ({'vel_bt'} if E.BT in c.ids else set())
    for i in c.ids:
        if i not in RAW:
            want |= {'accel' + E.TAG[i], 'mag' + E.TAG[i]} | ({'angrt' + E.TAG[i]} if 'ahrs' in c.S[i].flags else set())
    ctx.check(set(ds.attrs['rotate_vars']) == want, mech + ':rotate_vars', lambda: 'rotate_vars %s, expected %s' % (sorted(ds.attrs['rotate_vars']), sorted(want)))
    if dual == 2:
        return
    f = [i for i in c.ids if i not in RAW and i != E.BT][0]
    n = N[f]
    rs = [(k - lo, e) for k, e in R[f] if lo <= k < n]
    ks = [k for k, _ in rs]
    for v, q in dict(low_volt_skip='low', active_config='act', telemetry_data='tel', boost_running='boost').items():
        ctx.eq(ds[v].values[ks].astype(int), np.array([e[q] for _, e in rs]), mech + ':' + v, v)
    if 'ahrs' not in fl:
        h = {a: ds[a + ('' if m == E.BURST else '_avg')].values for a in ANGLES}
        ctx.check('orientmat' in ds, mech + ':missing', 'orientmat is not in the dataset')
        x = ds[['orientmat']].copy()
        y = x.drop_vars('orientmat')
        for a in ANGLES:
            y[a] = (('time',), h[a])
        y.attrs.update(ds.attrs)
        ax = rotmodel.axes(y)
        ctx.close(ds['orientmat'], ax, mech + ':orientmat', 'orientmat', rtol=0, atol=5e-6)


def head(ctx, c, ds, mech):
    h, w = json.loads(ds.attrs['filehead_config']), E.head_expected(c)
    if 'CHO' in h and 'ECHO' not in h and 'ECHO' in w:
        if ctx.prop == 'C06':
            ctx._report('ad2cp:filehead-key-GETECHO', "GETECHO of the file header is stored as 'CHO'", 'files', {}, {})
        h['ECHO'] = h.pop('CHO')
    ctx.check(h == w, mech + ':filehead_config', lambda: 'filehead_config: %s differs' % [k for k in set(h) | set(w) if h.get(k) != w.get(k)])


def blocks(c, b, n):
    """Bytes of every ensemble."""
    return [sum(len(x[2]) for x in b if x[0] == k) for k in range(n)]


def whole(c, b, n):
    """Whether the last ensemble is as long as most are (None: cannot be told)."""
    z = blocks(c, b, n)
    u, m = np.unique(z[:-1], return_counts=True)
    if (m == m.max()).sum() > 1:
        return None
    return z[-1] == u[m.argmax()]


def desc(c, R):
    return dict(n=c.n, ids=list(c.ids), flags={E.TAG[i]: sorted(s.flags) for i, s in c.S.items()}, cells=[s.nc for s in c.S.values()], gap=dict(c.gap), t0=str(R[c.ids[0]][0][1]['t']))


def read(ctx, f, **kw):
    return ctx.call(dolfyn.read, f, **kw)


def checked(ctx, c, R, b, f, mech, tail=0):
    """Read the file and compare it; the last ensemble is only left out if it differs in length from the others."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        ds = read(ctx, f)
    m = [str(x.message) for x in ws if 'kipped ping' in str(x.message)]
    ctx.check(bool(m) == bool(c.gap), mech + ':skip-warning', lambda: 'skipped pings %s, warnings %s' % (c.gap, m))
    w = whole(c, b, c.n)
    t = TIME[E.BURST if E.BURST in c.ids else E.AVG]
    n = ds.sizes[t]
    ctx.check(n == c.n or n == c.n - 1 and not w, mech + ':count', lambda: '%d ensembles, recorded %d' % (n, c.n))
    compare(ctx, ds, c, R, n, mech=mech)
    ctx.count('ensembles-compared', n)
    ctx.count('last-left-out', int(n < c.n))


def renumber(r, k):
    """The record with another ensemble counter."""
    body = r[10:82] + struct.pack('<I', k) + r[86:]
    return E.rec(E.BURST, body)


def run(ctx):
    for rng in ctx.cases('files', ctx.n(140, 2200)):
        c, R, b = E.rand_file(rng)
        f = write(ctx, E.filehead(c) + b''.join(x[2] for x in b), '.ad2cp')
        with ctx.observe('files', desc(c, R)):
            checked(ctx, c, R, b, f, 'sig')
    for rng in ctx.cases('between', ctx.n(40, 500)):
        # strings and unknown records between the pings
        c, R, b = E.rand_file(rng, n=int(rng.integers(4, 20)))
        for _ in range(int(rng.integers(1, 4))):
            j = int(rng.integers(1, len(b)))
            b.insert(j, (b[j - 1][0], 0, E.ignored(rng, 1)))
        f = write(ctx, E.filehead(c) + b''.join(x[2] for x in b), '.ad2cp')
        with ctx.observe('between', desc(c, R)):
            checked(ctx, c, R, b, f, 'between')
    for rng in ctx.cases('skipped', ctx.n(40, 500)):
        P = E.pick(rng)
        c, R, b = E.rand_file(rng, n=int(rng.integers(6, 20)), ids=P([E.BURST, E.B5], [E.BURST, E.B5, E.ECHO], [E.BURST, E.BT], [E.BURST, E.B5, E.ECHO, E.BT], [E.BURST, E.B5, E.ALTRAW]), skip=True)
        f = write(ctx, E.filehead(c) + b''.join(x[2] for x in b), '.ad2cp')
        with ctx.observe('skipped', desc(c, R)):
            checked(ctx, c, R, b, f, 'skipped')
    for rng in ctx.cases('sizes', ctx.n(6, 40)):
        # as many cells as the record can state
        P = E.pick(rng)
        c = E.rand_cfg(rng, P([E.BURST, E.ECHO], [E.BURST, E.B5, E.ECHO], [E.AVG]))
        for s in c.S.values():
            s.nc = int(rng.integers(1024, 4096)) if s.id == E.ECHO else int(P(511, 512, 1023, int(rng.integers(100, 1024))))
        c, R, b = E.rand_file(rng, c=c, n=4)
        f = write(ctx, E.filehead(c) + b''.join(x[2] for x in b), '.ad2cp')
        with ctx.observe('sizes', desc(c, R)):
            checked(ctx, c, R, b, f, 'sizes')
    for rng in ctx.cases('majority', ctx.n(12, 100)):
        # one attribute differs in a few pings: the most common value stands
        P = E.pick(rng)
        c, R, b = E.rand_file(rng, n=int(rng.integers(7, 14)), ids=P([E.BURST], [E.AVG], [E.BURST, E.BT]))
        m = c.ids[0]
        what = P('orient', 'auto', 'wake', 'power', 'nomcorr', 'cell')
        where = c if what in ('orient', 'auto', 'wake') else c.S[m]
        v = getattr(where, what)
        other = {'orient': [0, 1, 2, 3, 4, 5, 7], 'auto': [0, 1, 3], 'wake': [0, 1, 2, 3]}.get(what) or [v + 1, v - 1]
        other = [o for o in other if o != v and o != 0 and o >= (-128 if what == 'power' else 0)]
        few = set(rng.choice(c.n - 1, int(rng.integers(1, 3)), replace=False)) | ({0} if rng.random() < .4 else set())
        shift = {'orient': 25, 'auto': 22, 'wake': 28}.get(what)
        z = []
        for k, i, r in b:
            if k in few and i == m:
                e = dict(R)[m][k][1]
                o = int(P(*other))
                if shift:
                    e['status'] += (o - v) << shift
                    r = E.encode(c, c.S[m], e)
                else:
                    setattr(where, what, o)
                    r = E.encode(c, c.S[m], e)
                    setattr(where, what, v)
            z.append((k, i, r))
        f = write(ctx, E.filehead(c) + b''.join(x[2] for x in z), '.ad2cp')
        with ctx.observe('majority', dict(desc(c, R), what=what, pings=sorted(int(q) for q in few))):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                ds = read(ctx, f)
            compare(ctx, ds, c, R, ds.sizes[TIME[m]], mech='majority')
            ctx.check(len(few) > 1 or any('uniform' in str(w.message) for w in ws), 'majority:warned', lambda: '%s changed in pings %s, and no warning' % (what, few))
    for rng in ctx.cases('changed', ctx.n(6, 40)):
        # the layout of the records changes within the file: refused, never misread
        P = E.pick(rng)
        c, R, b = E.rand_file(rng, n=int(rng.integers(6, 12)), ids=P([E.BURST], [E.AVG], [E.BURST, E.B5]))
        s = c.S[c.ids[-1]]
        k0 = int(rng.integers(2, c.n - 2))
        flags, nc = set(s.flags), s.nc
        z = []
        what = P('amp', 'cells')
        for k, i, r in b:
            if k >= k0 and i == s.id:
                e = R[i][k][1]
                if what == 'cells':
                    s.nc = max(nc - 1, 1) if nc > 1 else 2
                    e = E.rand_rec(rng, c, s, e['t'], e['number'])
                else:
                    s.flags = flags ^ {'amp'}
                r = E.encode(c, s, e)
                s.flags, s.nc = flags, nc
            z.append((k, i, r))
        f = write(ctx, E.filehead(c) + b''.join(x[2] for x in z), '.ad2cp')
        with ctx.observe('changed', dict(desc(c, R), what=what, at=k0)):
            try:
                ds = dolfyn.read(f)
            except Exception as ex:
                ctx.count('layout-change-refused')
            else:
                compare(ctx, ds, c, R, ds.sizes[TIME[c.ids[0]]], mech='changed')
    for rng in ctx.cases('long', ctx.n(1, 1)):
        # more ensembles than 16 bits can count
        c = E.rand_cfg(rng, [E.BURST])
        s = c.S[E.BURST]
        s.flags, s.nc = {'vel'}, 1
        c, R, b = E.rand_file(rng, c=c, n=5, first=1)
        n = 65536 + int(rng.integers(3, 40))
        r = [x[2] for x in b]
        f = write(ctx, E.filehead(c) + b''.join(renumber(r[k % 5], k + 1) for k in range(n)), '.ad2cp')
        with ctx.observe('long', dict(desc(c, R), n=n)):
            ds = ctx.call(dolfyn.read, f)
            ctx.check(ds.sizes['time'] in (n, n - 1), 'long:count', lambda: '%d ensembles, recorded %d' % (ds.sizes['time'], n))
            ctx.check((ds['ensemble'].values == np.arange(ds.sizes['time']) + 1).all(), 'long:ensemble', 'the ensemble numbers do not count on')
            w = array([E.expected(c, s, e)['vel'] for _, e in R[E.BURST]])
            close(ctx, ds['vel'], 'vel', '', np.arange(n - 5, n - 1), w[..., np.arange(n - 5, n - 1) % 5], 'long')
    for rng in ctx.cases('dual', ctx.n(25, 300)):
        # averages and bursts by turns: two datasets
        P = E.pick(rng)
        c = E.rand_cfg(rng, [E.AVG] + P([E.BURST], [E.BURST, E.B5], [E.BURST, E.ECHO], [E.BURST, E.B5, E.ECHO]))
        c.other, c.Tother = True, c.T
        c.S[E.AVG].flags.add('ahrs'), c.S[E.BURST].flags.add('ahrs')
        R, out, first, k = {i: [] for i in c.ids}, [], int(P(1, 1, 7, 5000)), {i: 0 for i in c.ids}
        t = E.rand_times(rng, 1)[0]
        for _ in range(int(rng.integers(2, 5))):
            for ids, m in (([E.AVG], int(P(1, 1, 2, 4))), (c.ids[1:], int(P(4, int(rng.integers(2, 9)))))):
                for _ in range(m):
                    t += D.timedelta(milliseconds=500)
                    e0 = None
                    for i in ids:
                        e = E.rand_rec(rng, c, c.S[i], t, first + k[i])
                        for a in ANGLES:
                            e[a] = e0[a] if e0 else e[a]
                        e0 = e0 or e
                        R[i].append((k[i], e))
                        k[i] += 1
                        out.append(E.encode(c, c.S[i], e))
        f = write(ctx, E.filehead(c) + b''.join(out), '.ad2cp')
        with ctx.observe('dual', dict(ids=c.ids, n=list(k.values()), flags={E.TAG[i]: sorted(s.flags) for i, s in c.S.items()})):
            r = read(ctx, f)
            ctx.check(isinstance(r, tuple) and len(r) == 2, 'dual:two', lambda: 'a %s is returned' % type(r))
            a, b = r
            for q, (ds, ids) in enumerate(((a, c.ids[1:]), (b, [E.AVG]))):
                z = copy.copy(c)
                z.ids, z.gap = ids, {}
                n = {i: ds.sizes.get(TIME[i], 0) for i in ids}
                # (the file's last ping may be left out)
                ctx.check(all(k[i] - (q == 0) <= n[i] <= k[i] for i in ids), 'dual:count', lambda: 'records along time: %s, recorded %s' % (n, k))
                compare(ctx, ds, z, R, n, mech='dual', dual=q + 1)
                other = [v for v in ds.variables if v.endswith('_avg') != (q == 1) and v not in ('orientmat', 'beam2inst_orientmat', 'dir', 'dirIMU', 'beam', 'earth', 'inst', 'q', 'x1', 'x2') ]
                ctx.check(len(set(ds.attrs['rotate_vars'])) == len(ds.attrs['rotate_vars']) and set(ds.attrs['rotate_vars']) <= set(ds.variables), 'dual:rotate_vars', lambda: 'rotate_vars %s' % ds.attrs['rotate_vars'])
                to = [x for x in ('inst', 'earth', 'beam') if x != ds.attrs['coord_sys']][int(rng.integers(2))]
                z = ctx.call(dolfyn.rotate2, ds, to, inplace=False)
                ctx.check(z.attrs['coord_sys'] == to, 'dual:rotate', 'coord_sys after rotate2')
                z = ctx.call(dolfyn.rotate2, z, ds.attrs['coord_sys'], inplace=False)
                for v in ds.attrs['rotate_vars']:
                    w = ds[v].values
                    ctx.close(z[v], w, 'dual:rotate', v, rtol=0, atol=1e-3 * np.abs(w).max())
                ctx.check(not other, 'dual:mixed', lambda: 'dataset %d has %s' % (q + 1, other))
    for rng in ctx.cases('partial', ctx.n(40, 500)):
        # the recording ends within an ensemble
        P = E.pick(rng)
        c, R, b = E.rand_file(rng, n=int(rng.integers(4, 14)), ids=P([E.BURST], [E.BURST, E.B5], [E.BURST, E.ECHO], [E.BURST, E.B5, E.ECHO, E.BT], [E.AVG]))
        k = int(rng.integers(3, c.n))
        z = b''.join(x[2] for x in b if x[0] == k)
        cut = int(rng.integers(0, len(z)))
        f = write(ctx, E.filehead(c) + b''.join(x[2] for x in b if x[0] < k) + z[:cut], '.ad2cp')
        with ctx.observe('partial', dict(desc(c, R), kept=k, cut=cut)):
            ds = read(ctx, f)
            t = TIME[E.BURST if E.BURST in c.ids else E.AVG]
            # (a few bytes after it, and the last ensemble is not known to be whole)
            ctx.check(ds.sizes[t] == k or cut < 88 and ds.sizes[t] == k - 1, 'partial:count', lambda: '%d ensembles, complete ones %d' % (ds.sizes[t], k))
            compare(ctx, ds, c, R, ds.sizes[t], mech='partial')
