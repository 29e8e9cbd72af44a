"""C07: partial reads equal the same slice of the full read; the Signature index and crop_ensembles."""
import os
import resource
import numpy as np
import dolfyn
from dolfyn.io import nortek2_lib
from .. import enc_rdi as ER, enc_nortek as EN, enc_sig as ES
from .c01 import write, add_gps
from . import c01, c03, c04, c06

RULE = ('Random recordings of every family (RDI with and without navigation data, Vector continuous and burst with four IMU kinds, AWAC, Signature in 14 stream combinations) read in full and with random nens (count, (start, stop), beyond the end); '
        'Signature read with a fresh, a cached and a rebuilt index, after an indexing cut short by a full disk, and after crop_ensembles. Non-trivial: the window is a proper part of the recording.')
FILES = ['dolfyn/io/rdi.py', 'dolfyn/io/nortek.py', 'dolfyn/io/nortek2.py', 'dolfyn/io/nortek2_lib.py']


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == 'M' and b.dtype == a.dtype:
        a, b = a.view('i8'), b.view('i8')      # (a NaT equals a NaT)
    if a.dtype.kind == 'M' and b.dtype == a.dtype:
        a, b = a.view('i8'), b.view('i8')      # (a NaT equals a NaT)
    return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, b))


def same_attr(a, b):
    if isinstance(a, (dict,)) or isinstance(b, dict):
        return a == b
    return np.array_equal(np.asarray(a), np.asarray(b))


def identical(ctx, g, w, mech, lo=0, hi=None, skip=(), attrs=True, tol={}):
    """Everything of g is the [lo:hi] part of w."""
    for v in w.variables:
        if v in skip:
            continue
        ctx.check(v in g.variables, mech + ':missing', lambda: '%s is missing' % v)
        a, b = g[v], w[v]
        ctx.check(a.dims == b.dims, mech + ':dims', lambda: '%s has dimensions %s and %s' % (v, a.dims, b.dims))
        for d in b.dims:
            if d.startswith('time'):
                b = b.isel({d: slice(lo, hi)})
        a, b = a.values, b.values
        if v in tol:
            ctx.check(a.shape == b.shape, mech + ':shape', lambda: '%s has shape %s, that part of the whole %s' % (v, a.shape, b.shape))
            ctx.check((np.abs((a - b).astype(float)) <= tol[v]).all(), mech + ':' + v, lambda: '%s differs by up to %s' % (v, np.abs((a - b).astype(float)).max()))
            continue
        ctx.check(same(a, b), '%s:%s' % (mech, v), lambda: '%s differs from that part of the whole: shape %s and %s, %s..., %s...' % (v, a.shape, b.shape, np.ravel(a)[:4], np.ravel(b)[:4]))
    for v in g.variables:
        ctx.check(v in w.variables or v in skip, mech + ':extra', lambda: '%s is not in the whole' % v)
    if attrs:
        ctx.check(set(g.attrs) == set(w.attrs), mech + ':attrs', lambda: 'attributes differ: %s' % (set(g.attrs) ^ set(w.attrs)))
        for k in w.attrs:
            if k == 'n_cells_bt':      # (bottom track has no cells; the number may vary)
                continue
            ctx.check(same_attr(g.attrs[k], w.attrs[k]), mech + ':attr-' + k, lambda: 'attribute %s: %r and %r' % (k, g.attrs[k], w.attrs[k]))
    ctx.count('variables-compared', len(w.variables))


def rdi(ctx):
    for rng in ctx.cases('rdi', ctx.n(50, 700)):
        P = EN.pick(rng)
        kind = P(None, None, 'vmdas', 'wr2', 'cells')
        c = ER.rand_cfg(rng)
        if kind == 'cells':
            c.sl, c.types = False, [t for t in c.types if not t.endswith('_sl')]
            n = int(rng.integers(4, 14))
            ts = ER.rand_times(rng, n, ER.century_clock(c))
            k = [int(x) for x in rng.integers(1, 30, n)]
            c.n_cells = k[0]
            es = [ER.rand_ens(rng, c, i + 1, ts[i], n_cells=k[i]) for i in range(n)]
        else:
            c, es = ER.rand_file(rng, n=int(rng.integers(4, 16)), cfg=c)
        if kind in ('vmdas', 'wr2'):
            c.types = [t for t in c.types if t not in ('unknown',)]
            add_gps(rng, c, es, kind)
            if kind == 'wr2' and es[0]['t'].year < 2000 and not ER.century_clock(c):
                continue
        f = write(ctx, b''.join(ER.encode(c, e) for e in es), '.000')
        full = ctx.call(dolfyn.read, f)
        N = full.sizes['time']
        k = int(rng.integers(1, N + 1))
        if kind in ('vmdas', 'wr2'):
            k = max(k, 2)
        with ctx.observe('rdi', dict(n=N, nens=k, kind=kind, types=list(c.types), cells=sorted({e['n'] for e in es})), nontrivial=k < N):
            more = int(P(0, 0, 1, 5, 40)) if k == N else 0
            part = ctx.call(dolfyn.read, f, nens=P(k + more, np.int64(k + more)))
            ctx.check(part.sizes['time'] == k, 'rdi:count', lambda: '%d ensembles, asked for %d' % (part.sizes['time'], k))
            c01.compare(ctx, part, c, es[:k], 'rdi-values')
            if kind in ('vmdas', 'wr2'):
                c01.compare_gps(ctx, part, c, es[:k])
                g = [v for v in full.variables if v.endswith('_gps')]
                part, full = part.drop_vars(g), full.drop_vars(g)
                part.attrs['fs'] = full.attrs['fs']         # the average rate of what was read
            if kind != 'cells':
                identical(ctx, part, full, 'rdi', 0, k)


def vector(ctx):
    for rng in ctx.cases('vector', ctx.n(40, 500)):
        P = EN.pick(rng)
        c, S, sy, b = EN.rand_vector(rng)
        f = write(ctx, b''.join(b), '.VEC')
        full = ctx.call(dolfyn.read, f)
        N = len(S)
        lo = 0 if rng.random() < .4 else int(rng.integers(0, N))
        hi = int(P(N, N + 7, int(rng.integers(lo + 1, N + 1)), int(rng.integers(lo + 1, N + 1))))
        nens = P((lo, hi), [lo, hi], np.array([lo, hi])) if lo or rng.random() < .3 else hi
        if c.imu and lo == 0 and hi == 1:
            continue        # nothing tells that there is an IMU
        h = min(hi, N)
        with ctx.observe('vector', dict(c03.desc(c, S), nens=str(nens)), nontrivial=h - lo < N):
            part = ctx.call(dolfyn.read, f, nens=nens)
            ctx.check(part.sizes['time'] == h - lo, 'vector:count', lambda: '%d samples, expected %d' % (part.sizes['time'], h - lo))
            # the times are fitted, and the slow sensors interpolated, to what was read
            fitted = ['time', 'heading', 'pitch', 'roll', 'temp', 'c_sound', 'batt', 'error', 'status', 'orientation_down', 'orientmat']
            if c.imu in ('ahrs195', 'ahrs204'):
                fitted.remove('orientmat')
            identical(ctx, part.drop_vars('time'), full.drop_vars('time'), 'vector', lo, h, skip=fitted, attrs=False)
            c03.compare(ctx, part, c, S[:h], [x for x in sy if x[0] < h], 'vector', lo=lo)


def awac(ctx):
    for rng in ctx.cases('awac', ctx.n(30, 400)):
        P = EN.pick(rng)
        c, S, b = EN.rand_awac(rng)
        f = write(ctx, b''.join(b), '.wpr')
        full = ctx.call(dolfyn.read, f)
        N = len(S)
        lo = 0 if rng.random() < .4 else int(rng.integers(0, N))
        hi = int(P(N, N + 3, int(rng.integers(lo + 1, N + 1))))
        nens = P((lo, hi), [lo, hi]) if lo or rng.random() < .3 else hi
        h = min(hi, N)
        with ctx.observe('awac', dict(c04.desc(c, S), nens=str(nens)), nontrivial=h - lo < N):
            part = ctx.call(dolfyn.read, f, nens=nens)
            identical(ctx, part, full, 'awac', lo, h)


def raw_of(R, i, lo, hi):
    ks = [k for k, _ in R[i]]
    return sum(k < lo for k in ks), sum(k < hi for k in ks)


def sig_part(ctx, g, w, c, R, lo, hi, mech, skip=()):
    """g is ensembles lo..hi of the whole w."""
    drop = []
    for i in c.ids:
        if i in c06.RAW:
            t = ES.TAG[i]
            a, b = raw_of(R, i, lo, hi)
            mine = [v for v in w.variables if 'time' + t in w[v].dims or v == 'n' + t]
            drop += mine
            if a == b:
                continue
            identical(ctx, g[[v for v in mine]], w[mine], mech, a, b, attrs=False)
    ren = [v for v in drop if v in g.variables]
    # reported from the raw altimeter where there is one in the window
    skip = list(skip) + ['status_alt', 'status_alt_avg']
    at = not any(i in c06.RAW for i in c.ids)
    identical(ctx, g.drop_vars(ren), w.drop_vars(drop), mech, lo, hi, skip=skip, attrs=at)


def signature(ctx):
    for rng in ctx.cases('signature', ctx.n(60, 900)):
        P = EN.pick(rng)
        ids = P([ES.AVG, ES.ALTRAW_AVG], [ES.BURST, ES.ALTRAW], [ES.BURST, ES.B5, ES.ALTRAW]) if rng.random() < .25 else None
        c, R, b = ES.rand_file(rng, n=int(rng.integers(4, 16)), skip=rng.random() < .2, ids=ids)
        f = write(ctx, ES.filehead(c) + b''.join(x[2] for x in b), '.ad2cp')
        full = ctx.call(dolfyn.read, f)
        t = c06.TIME[ES.BURST if ES.BURST in c.ids else ES.AVG]
        N = full.sizes[t]
        lo = 0 if rng.random() < .4 else int(rng.integers(0, N))
        hi = int(P(N, N + 3, int(rng.integers(lo + 1, N + 1)), int(rng.integers(lo + 1, N + 1))))
        nens = P((lo, hi), [lo, hi]) if lo or rng.random() < .3 else hi
        if c06.RAW[0] in c.ids or c06.RAW[1] in c.ids:
            # often a window without any raw altimeter record
            lo = int(rng.integers(0, N))
            hi = min(N, lo + int(rng.integers(1, 4)))
            nens = (lo, hi)
        h = min(hi, N)
        if c.gap and (h - lo < 3 or any(k in (lo, h - 1) for k in c.gap.values())):
            continue
        with ctx.observe('signature', dict(c06.desc(c, R), nens=str(nens)), nontrivial=h - lo < N):
            ctx.check(os.path.exists(f + '.index'), 'signature:index', 'no index file')
            idx = open(f + '.index', 'rb').read()
            part = ctx.call(dolfyn.read, f, nens=nens)
            skip = [v for v in full.variables if v.startswith('time')] if c.gap else ()
            sig_part(ctx, part, full, c, R, lo, h, 'signature', skip=skip)
            c06.compare(ctx, part, c, R, h, lo=lo, mech='signature')
            again = ctx.call(dolfyn.read, f)
            identical(ctx, again, full, 'cached')
            rebuilt = ctx.call(dolfyn.read, f, rebuild_index=True)
            identical(ctx, rebuilt, full, 'rebuilt')
            ctx.check(open(f + '.index', 'rb').read() == idx, 'rebuilt:index', 'the rebuilt index differs')
            if rng.random() < .3:
                # another recording under the same name: rebuilding is what makes it readable
                c2, R2, b2 = ES.rand_file(rng, n=int(rng.integers(4, 12)))
                z = ES.filehead(c2) + b''.join(x[2] for x in b2)
                new = ctx.call(dolfyn.read, write(ctx, z, '.ad2cp'))
                with open(f, 'wb') as fh:
                    fh.write(z)
                identical(ctx, ctx.call(dolfyn.read, f, rebuild_index=True), new, 'replaced')
                ctx.count('recordings-replaced')


def crop(ctx):
    for rng in ctx.cases('crop', ctx.n(40, 500)):
        c, R, b = ES.rand_file(rng, n=int(rng.integers(6, 20)))
        f = write(ctx, ES.filehead(c) + b''.join(x[2] for x in b), '.ad2cp')
        full = ctx.call(dolfyn.read, f)
        t = c06.TIME[ES.BURST if ES.BURST in c.ids else ES.AVG]
        lo = int(rng.integers(0, c.n - 3))
        hi = int(EN.pick(rng)(c.n, int(rng.integers(lo + 3, c.n + 1)), int(rng.integers(lo + 3, c.n + 1))))
        out = ctx.tmp('.ad2cp')
        with ctx.observe('crop', dict(c06.desc(c, R), lo=lo, hi=hi), nontrivial=hi - lo < c.n):
            ctx.call(nortek2_lib.crop_ensembles, f, out, [lo, hi])
            ctx.check(open(f, 'rb').read() == ES.filehead(c) + b''.join(x[2] for x in b), 'crop:source', 'cropping changed its source')
            want = ES.filehead(c) + b''.join(x[2] for x in b if lo <= x[0] < hi)
            got = open(out, 'rb').read()
            ctx.check(got == want, 'crop:bytes', lambda: 'the cropped file has %d bytes, header and ensembles have %d' % (len(got), len(want)))
            bb = [x for x in b if lo <= x[0] < hi]
            w = c06.whole(c, [(x[0] - lo,) + x[1:] for x in bb], hi - lo)
            part = ctx.call(dolfyn.read, out)
            n = part.sizes[t]
            ctx.check(n == hi - lo or n == hi - lo - 1 and not w, 'crop:count', lambda: '%d ensembles, cropped to %d' % (n, hi - lo))
            if lo + n <= full.sizes[t]:
                sig_part(ctx, part, full, c, R, lo, lo + n, 'crop', skip=[v for v in full.variables if v.startswith('ensemble')])


def interrupted(ctx):
    """The disk is full while the index is written: the next read is not affected."""
    for rng in ctx.cases('interrupted', ctx.n(15, 150)):
        c, R, b = ES.rand_file(rng, n=int(rng.integers(10, 30)), ids=EN.pick(rng)([ES.BURST], [ES.BURST, ES.B5], [ES.AVG]))
        f = write(ctx, ES.filehead(c) + b''.join(x[2] for x in b), '.ad2cp')
        full = ctx.call(dolfyn.read, f)
        size = os.path.getsize(f + '.index')
        os.unlink(f + '.index')
        limit = int(EN.pick(rng)(int(rng.integers(12, size)), 12 + 37 * int(rng.integers(1, (size - 12) // 37))))
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        failed = False
        with ctx.observe('interrupted', dict(c06.desc(c, R), limit=limit, size=size)):
            try:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                dolfyn.read(f)
            except OSError:
                failed = True
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            ctx.count('indexings-interrupted', int(failed))
            identical(ctx, ctx.call(dolfyn.read, f), full, 'interrupted')
            for x in (f + '.index.tmp',):
                if os.path.exists(x):
                    os.unlink(x)


def run(ctx):
    rdi(ctx)
    vector(ctx)
    awac(ctx)
    signature(ctx)
    crop(ctx)
    interrupted(ctx)
