"""C28: ADCP cleaning."""
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adp import clean
from .. import synth
from ..core import _copy

RULE = ('Random profiler datasets of every family (fifth beam, echo sounder, bottom track, deployment height, int/float variables, NaNs): surface from echo or pressure, blanking beyond it, '
        'correlation screening in every frame, value limits, range offsets, orientation median filters and gap filling, each compared cell by cell with a direct evaluation. Non-trivial: some but not all cells are affected.')
FILES = ['dolfyn/adp/clean.py']


def dataset(rng, nt, nr, kind=None, b5=None, echo=None, **kw):
    kind = kind or str(rng.choice(['signature', 'signature_ahrs', 'rdi', 'awac']))
    ds = synth.make(rng, kind, nt=nt, nr=nr, nan_frac=float(rng.choice([0, .05])), **kw)
    ds.attrs['cell_size'] = float(np.round(rng.uniform(.2, 2), 2))
    ds['range'] = ds.attrs['cell_size'] * (np.arange(nr) + 1) + float(np.round(rng.uniform(.1, 1), 2))
    if kind == 'awac':
        ds.attrs['beam_angle'] = 25
    if kind == 'awac' and rng.random() < .5:
        ds['amp'] = ds['amp'].astype('uint8')
    ds['corr'].attrs['units'] = '%'
    if b5 is None:
        b5 = kind.startswith('sig') and rng.random() < .5
    if b5:
        nr5 = nr if rng.random() < .5 else int(rng.integers(2, nr + 4))
        r5 = ds['range'].values.copy() if nr5 == nr and rng.random() < .4 else .4 * (np.arange(nr5) + 1) * rng.uniform(.5, 2)
        ds['range_b5'] = ('range_b5', r5)
        ds['time_b5'] = ('time_b5', ds['time'].values)
        for k, x in (('vel', rng.normal(0, 1, (nr5, nt)).astype('f4')), ('amp', rng.uniform(0, 99, (nr5, nt)).astype('f4')), ('corr', rng.integers(0, 100, (nr5, nt)).astype('u1'))):
            ds[k + '_b5'] = (('range_b5', 'time_b5'), x)
    if echo is None:
        echo = kind.startswith('sig') and rng.random() < .4
    if echo:
        ne = int(rng.integers(3, 40))
        ds['range_echo'] = ('range_echo', (np.arange(ne) + 1) * rng.uniform(.1, 1))
        ds['time_echo'] = ('time_echo', ds['time'].values)
        ds['echo'] = (('range_echo', 'time_echo'), rng.uniform(0, 99, (ne, nt)).astype('f4'))
    return ds, kind


def run(ctx):
    # -------------------------------------------------------------- range offset
    for rng in ctx.cases('offset', ctx.n(30, 400)):
        ds, kind = dataset(rng, 4, int(rng.integers(2, 9)))
        hs = [float(np.round(rng.normal(0, 5), 3)) for _ in range(int(rng.integers(1, 4)))]
        with ctx.observe('offset', dict(kind=kind, h=hs, r=ds['range'].values)):
            b = _copy(ds)
            for i, h in enumerate(hs):
                r = ctx.call(clean.set_range_offset, ds, h)
                for d in [d for d in b.dims if 'range' in d]:
                    ctx.close(ds[d], b[d].values + sum(hs[:i + 1]), 'range_offset:coordinate', d, rtol=1e-9, atol=1e-9)
                    ctx.eq(ds[d].attrs.get('units'), 'm', 'range_offset:units', d)
                ctx.close(ds.attrs['h_deploy'], sum(hs[:i + 1]), 'range_offset:h_deploy', rtol=1e-9, atol=1e-9)
            for k in b.variables:
                if 'range' not in k:
                    ctx.eq(ds[k].values, b[k].values, 'range_offset:other-variable', k)

    # -------------------------------------------------------------- surface from echo
    for rng in ctx.cases('echo-surface', ctx.n(80, 1200)):
        nr = int(rng.integers(5, 40)) if rng.random() < .85 else int(rng.integers(258, 400))
        nt = int(rng.integers(1, 60))
        ds, kind = dataset(rng, nt, nr)
        nb = ds['amp'].shape[0]
        thresh = int(rng.choice([5, 10, 20]))
        amp = np.zeros((nb, nr, nt))
        exp = np.zeros(nt)
        decided = np.ones(nt, bool)
        r = ds['range'].values
        for t in range(nt):
            weak_all = rng.random() < .25
            # or: only some beams see the surface
            some = not weak_all and rng.random() < .2
            rr = []
            base = int(rng.integers(3, nr)) if nr < 300 else int(rng.integers(2, nr))
            strong = int(rng.integers(nb))
            for b in range(nb):
                weak = weak_all or (some and b != strong)
                s = int(np.clip(base + rng.integers(-1, 2), 2, nr - 1))     # the surface cell of this beam
                p = 100. - 60 * np.linspace(0, 1, nr)                        # decays away from the instrument
                p = np.floor(p) - (np.arange(nr) % 2 if nr < 40 else 0)
                trough = s - 1
                p[:s] = np.sort(p[:s])[::-1]
                for i in range(1, s):
                    p[i] = min(p[i], p[i - 1] - (1 if nr < 40 else 0))
                if weak:        # no surface echo anywhere: an increase smaller than the threshold
                    p[:s] += 5
                    up = int(rng.integers(1, thresh))
                    p[s:] = p[s - 1] + up
                    pk = int(np.argmax(p))
                else:
                    up = p[0] - p[s - 1] + int(rng.integers(1, 30 if rng.random() < .8 else 160)) + thresh
                    p[s:] = p[s - 1] + up
                    if p[s] > 255:
                        p -= p[s] - 255
                    p[s + 1:] = p[s]                                         # saturated beyond
                    pk = s
                amp[b, :, t] = p
                dn = [k for k in range(nr - 1) if p[k + 1] < p[k]]
                rr += [r[pk], r[dn[-1] + 1] if dn else np.nan]
            exp[t] = np.median(rr)
            if weak_all:
                exp[t] = np.nan
                if any(np.isnan(rr)):
                    decided[t] = True
            elif any(np.isnan(rr)):
                decided[t] = False
        amp = np.clip(amp, -30000, 30000)
        lo = amp.min()
        amp = amp - min(lo, 0)
        dt = 'uint8' if amp.max() < 256 and rng.random() < .5 else 'float32'
        ds['amp'] = (ds['amp'].dims, amp.astype(dt))
        with ctx.observe('echo-surface', dict(kind=kind, nr=nr, nt=nt, thresh=thresh, amp=amp)):
            b = _copy(ds)
            ctx.call(clean.find_surface, ds, thresh=thresh)
            ctx.check(ds['depth'].dims == ('time',), 'find_surface:dims', '%s' % (ds['depth'].dims,))
            ctx.close(ds['depth'].values[decided], exp[decided], 'find_surface:depth', 'surface of %d pings, %d cells' % (nt, nr), rtol=1e-5)
            for k in b.variables:
                ctx.eq(ds[k].values, b[k].values, 'find_surface:other-variable', k)
            if nt >= 9 and nr < 40:
                c = _copy(b)
                nf = int(rng.choice([3, 5, 7]))
                ctx.call(clean.find_surface, c, thresh=thresh, nfilt=nf)
                h = nf // 2
                ctx.check(not (c['depth'].values == 0).any(), 'find_surface:filter', 'depth of zero')
                for t in range(h, nt - h):
                    w = exp[t - h:t + h + 1]
                    if decided[t - h:t + h + 1].all() and not np.isfinite(w).any():
                        ctx.check(np.isnan(c['depth'].values[t]), 'find_surface:filter', 'depth %g at ping %d, none found around it' % (c['depth'].values[t], t))
                    if decided[t - h:t + h + 1].all() and np.isfinite(w).all():
                        ctx.close(c['depth'].values[t], np.median(w), 'find_surface:filter', 'median filter of %d at ping %d' % (nf, t), rtol=1e-5)

    # -------------------------------------------------------------- surface from pressure
    for rng in ctx.cases('pressure-surface', ctx.n(40, 500)):
        nt = int(rng.integers(1, 20))
        ds, kind = dataset(rng, nt, 3)
        ds['pressure'].values = rng.uniform(0, 300, nt).astype('f4')
        ds['temp'].values = rng.uniform(-2, 30, nt).astype('f4')
        kw = dict(salinity=float(rng.choice([rng.uniform(0, 40), 0.]))) if rng.random() < .7 else {}
        h = None
        if rng.random() < .5:
            h = ds.attrs['h_deploy'] = float(rng.uniform(-2, 4))
        with ctx.observe('pressure-surface', dict(kind=kind, P=ds['pressure'].values, kw=kw, h=h)):
            b = _copy(ds)
            ctx.call(clean.find_surface_from_P, ds, **kw)
            P, T = b['pressure'].values.astype(float), b['temp'].values.astype(float)
            rho = 1027 - .15 * (T - 10) + .78 * (kw.get('salinity', 35) - 35) + 4.5e-3 * P
            ctx.close(ds['water_density'], rho, 'pressure-surface:density', rtol=1e-6)
            ctx.close(ds['depth'], P * 1e4 / (9.81 * rho) + (h or 0), 'pressure-surface:depth', rtol=2e-6, atol=1e-6)
            for k in b.variables:
                ctx.eq(ds[k].values, b[k].values, 'pressure-surface:other-variable', k)

    # -------------------------------------------------------------- exactly at the limit
    for rng in ctx.cases('at-limit', ctx.n(20, 200)):
        nt, nr = int(rng.integers(1, 9)), int(rng.integers(3, 12))
        ds, kind = dataset(rng, nt, nr, b5=False, echo=False)
        ds.attrs['cell_size'] = cs = float(rng.choice([.25, .5, 1]))
        ds['range'] = r = cs * (np.arange(nr) + 1)
        c = rng.integers(0, nr, nt)
        ds['depth'] = ('time', r[c] + cs)        # vertical beams: a cell at the depth less one cell
        with ctx.observe('at-limit', dict(kind=kind, c=c, cs=cs)):
            out = ctx.call(clean.nan_beyond_surface, ds, beam_angle=0, val=-9., pure=True)
            for k in ('vel', 'corr' if ds['corr'].dtype.kind == 'f' else 'vel'):
                want = np.where(np.arange(nr)[:, None] > c, np.float32(-9), ds[k].values)
                ctx.eq(out[k].values, want.astype(ds[k].dtype), 'beyond:at-limit', '%s with a cell exactly at the limit' % k)
    # -------------------------------------------------------------- beyond the surface
    for rng in ctx.cases('beyond', ctx.n(60, 900)):
        nt, nr = int(rng.integers(1, 20)), int(rng.integers(2, 25))
        ds, kind = dataset(rng, nt, nr)
        rmax = float(ds['range'].values[-1])
        depth = rng.uniform(.3, 1.3, nt) * rmax
        if rng.random() < .3:
            depth[rng.random(nt) < .3] = np.nan
        ds['depth'] = ('time', depth.astype('f4'))
        ds['prcnt_gd'] = (('beam', 'range', 'time'), rng.integers(1, 100, ds['vel'].shape).astype('u1'))
        h = None
        if rng.random() < .4:
            h = ds.attrs['h_deploy'] = float(np.round(rng.uniform(.1, 2), 2))
        kw = {}
        ang = float(ds.attrs['beam_angle'])
        if rng.random() < .5:
            ang = kw['beam_angle'] = float(rng.choice([15, 20, 25, 30]))
            if rng.random() < .3:
                del ds.attrs['beam_angle']
        val = np.nan
        if rng.random() < .3:
            val = kw['val'] = float(rng.choice([0, -9, 99]))
        inp = bool(rng.integers(2))
        d = ds['depth'].values.astype(float)
        lim = (d - (h or 0)) * np.cos(np.deg2rad(ang)) - ds.attrs['cell_size'] + (h or 0)
        with ctx.observe('beyond', dict(kind=kind, depth=d, h=h, kw=kw, inplace=inp, r=ds['range'].values)):
            b = _copy(ds)
            if inp:
                out = ds
                ctx.check(ctx.call(clean.nan_beyond_surface, ds, inplace=True, **kw) is None, 'beyond:inplace', 'returned something')
            else:
                out = ctx.call(clean.nan_beyond_surface, ds, pure=True, **kw)
            hit = 0
            for k in b.data_vars:
                rd = [x for x in b[k].dims if 'range' in x]
                if not rd:
                    ctx.eq(out[k].values, b[k].values, 'beyond:other-variable', k)
                    continue
                r = b[rd[0]].values
                L = d if k == 'echo' else lim
                with np.errstate(all='ignore'):
                    cut = r[:, None] > L[None]
                    sure = ~(np.abs(r[:, None] - L[None]) < 1e-5 * rmax)
                cutb, sureb = np.broadcast_to(cut, b[k].shape), np.broadcast_to(sure, b[k].shape)
                x, o = b[k].values, out[k].values
                ctx.check(o.dtype == x.dtype, 'beyond:dtype', '%s became %s' % (k, o.dtype))
                v = val
                if x.dtype.kind in 'iu' and (np.isnan(v) or v < 0):
                    v = 0 if np.isnan(v) else o[cutb & sureb][:1]      # negative value in an unsigned variable: not judged
                    if np.size(v) == 0:
                        continue
                ctx.eq(o[~cutb & sureb], x[~cutb & sureb], 'beyond:blanks-too-much', '%s within the limit' % k)
                ctx.eq(o[cutb & sureb], np.full((cutb & sureb).sum(), v).astype(x.dtype), 'beyond:blanks-too-little', '%s beyond the limit' % k)
                hit += int((cutb & sureb).any())
            ctx.count('variables-cut', hit)
            if 'beam_angle' not in b.attrs:
                ctx.expect_raises('beyond:no-beam-angle', Exception, clean.nan_beyond_surface, b)

    # -------------------------------------------------------------- correlation filter
    for rng in ctx.cases('corr', ctx.n(50, 700)):
        nt, nr = int(rng.integers(1, 12)), int(rng.integers(1, 8))
        cs = str(rng.choice(['beam', 'inst', 'earth', 'principal']))
        ds, kind = dataset(rng, nt, nr, coord_sys=cs, echo=False)
        if ds.attrs.get('inst_make') == 'TRDI' and rng.random() < .3:
            ds['amp'] = ds['amp'].astype('uint8')
        th = int(rng.choice([0, 20, 50, 64, 99]))
        kw = {} if rng.random() < .2 else dict(thresh=th)
        th = kw.get('thresh', 50)
        inp = bool(rng.integers(2))
        with ctx.observe('corr', dict(kind=kind, cs=cs, thresh=th, inplace=inp, vel=ds['vel'].values)):
            b = _copy(ds)
            if inp:
                out = ds
                ctx.call(clean.correlation_filter, ds, inplace=True, **kw)
            else:
                out = ctx.call(clean.correlation_filter, ds, pure=True, **kw)
            ctx.check(out.attrs['coord_sys'] == cs, 'corr:coord_sys', 'left in %s' % out.attrs['coord_sys'])
            vb = dolfyn.rotate2(b, 'beam', inplace=False) if cs != 'beam' else b
            m = b['corr'].values <= th
            exp = _copy(vb)
            exp['vel'].values[m] = np.nan
            if cs != 'beam':
                exp = dolfyn.rotate2(exp, cs, inplace=False)
            sc = 1 + np.nanmax(np.abs(b['vel'].values), initial=0)
            ctx.close(out['vel'], exp['vel'].values, 'corr:velocity', 'velocity with correlation <= %d removed (%s)' % (th, cs), rtol=0, atol=1e-4 * sc)
            if cs != 'beam':
                clean_cells = ~m.any(0)
                ctx.close(out['vel'].values[:, clean_cells], b['vel'].values[:, clean_cells], 'corr:kept-velocity', 'cells with good correlation', rtol=0, atol=1e-4 * sc)
            for k in ('corr', 'amp') + (('vel_b5', 'corr_b5', 'amp_b5') if 'vel_b5' in b else ()):
                mm = m if not k.endswith('b5') else b['corr_b5'].values <= th
                x = b[k].values.copy()
                ctx.eq(out[k].values[~mm], x[~mm], 'corr:kept', k)
                ctx.eq(out[k].values[mm], np.full(mm.sum(), np.nan if x.dtype.kind == 'f' else 0), 'corr:removed', k)
            for k in b.variables:
                if k not in ('vel', 'corr', 'amp', 'vel_b5', 'corr_b5', 'amp_b5') and k not in b.attrs['rotate_vars']:
                    ctx.eq(out[k].values, b[k].values, 'corr:other-variable', k)

    # -------------------------------------------------------------- limits, gaps
    for rng in ctx.cases('limit', ctx.n(40, 400)):
        ds, kind = dataset(rng, int(rng.integers(1, 9)), int(rng.integers(1, 9)))
        th = float(np.float32(rng.uniform(.2, 3)))
        kw = dict(thresh=th)
        if rng.random() < .4:
            kw['val'] = float(rng.choice([0, -9]))
        u = ds['vel'] * rng.uniform(.5, 10)
        for q in (th, -th, 5, -5):
            u.values[rng.random(u.shape) < .05] = q
        with ctx.observe('limit', dict(kw=kw, u=u.values)):
            out = ctx.call(clean.val_exceeds_thresh, u, pure=True, **kw)
            x = u.values
            bad = np.abs(x) > th
            ctx.eq(out.values[~bad], x[~bad], 'val_exceeds:kept')
            ctx.eq(out.values[bad], np.full(bad.sum(), kw.get('val', np.nan)), 'val_exceeds:removed')
            out = ctx.call(clean.val_exceeds_thresh, u)
            ctx.eq(np.isnan(out.values), (np.abs(x) > 5) | np.isnan(x), 'val_exceeds:default')

    for rng in ctx.cases('gaps', ctx.n(80, 1200)):
        nt, nr = int(rng.integers(8, 40)), int(rng.integers(8, 20))
        ax = str(rng.choice(['time', 'depth']))
        b5 = rng.random() < .25
        nb = int(rng.integers(1, 5))
        method = str(rng.choice(['linear', 'linear', 'cubic', 'nearest']))
        n = nt if ax == 'time' else nr
        t = np.cumsum(rng.uniform(.5, 2, n)) if ax == 'time' and rng.random() < .5 else np.arange(n) * 1.
        tt = (t - t[0]) / (t[-1] - t[0])
        shape = (nb, nr, nt)
        lin = rng.random() < .5
        if lin:
            deg = dict(linear=1, cubic=3, nearest=0)[method]
            x = sum(rng.normal(0, 1, (nb, nr if ax == 'time' else nt, 1)) * tt ** k for k in range(deg + 1))
            x = x if ax == 'time' else np.moveaxis(x, -1, 1)
        else:
            x = rng.normal(0, 1, shape)
        x = x.astype(rng.choice(['f4', 'f8']))
        m = rng.random(shape) < .05
        for _ in range(6):
            i, j, k = (int(rng.integers(s)) for s in shape)
            w = int(rng.integers(1, 6))
            if ax == 'time':
                m[i, j, k:k + w] = True
            else:
                m[i, j:j + w, k] = True
        x[m] = np.nan
        tms = synth.times(1, 1.)[0] + np.round((t if ax == 'time' else np.arange(nt)) * 1e9).astype('int64').astype('timedelta64[ns]')
        s5 = '_b5' if b5 else ''
        u = xr.DataArray(x, dims=['dir', 'range' + s5, 'time' + s5], coords={'dir': np.arange(nb), 'range' + s5: .5 * np.arange(nr) + 1, 'time' + s5: tms})
        if b5:
            u = u[0]
        maxgap = None if rng.random() < .3 else int(rng.integers(1, 6))
        lines = u.values.reshape((-1,) + u.shape[-2:])
        lines = (lines if ax == 'time' else np.swapaxes(lines, 1, 2)).reshape(-1, n)
        if (np.isfinite(lines).sum(1) < 5).any():
            continue
        with ctx.observe('gaps', dict(ax=ax, method=method, maxgap=maxgap, poly=lin, u=u.values)):
            f = clean.fillgaps_time if ax == 'time' else clean.fillgaps_depth
            out = ctx.call(f, u, method=method, maxgap=maxgap, pure=True)
            ctx.check(set(out.dims) == set(u.dims), 'fillgaps:dims', '%s' % (out.dims,))
            o = out.transpose(*u.dims).values
            o = o.reshape((-1,) + u.shape[-2:])
            o = (o if ax == 'time' else np.swapaxes(o, 1, 2)).reshape(-1, n)
            from .c27 import runs
            for a, b in zip(lines, o):
                g = np.isnan(a)
                ctx.eq(b[~g], a[~g], 'fillgaps:changed-valid', 'valid cells')
                good = np.flatnonzero(~g)
                for s, e in runs(g):
                    y = b[s:e]
                    fin = np.isfinite(y)
                    ctx.check(maxgap is None or fin.sum() <= maxgap, 'fillgaps:beyond-maxgap', '%d cells filled in a gap of %d, maxgap %s' % (fin.sum(), e - s, maxgap))
                    if s < good[0] or e > good[-1]:
                        continue
                    if maxgap is None or e - s <= maxgap:
                        ctx.check(fin.all(), 'fillgaps:not-filled', 'gap of %d, maxgap %s' % (e - s, maxgap))
                    l, r = float(a[s - 1]), float(a[e])
                    w = (t[s:e] - t[s - 1]) / (t[e] - t[s - 1])
                    if method == 'linear':
                        ctx.close(y[fin], (l + (r - l) * w)[fin], 'fillgaps:value:linear', rtol=0, atol=1e-4 * (1 + abs(l) + abs(r)))
                    elif method == 'nearest':
                        ctx.check(np.isin(y[fin], np.array([l, r], a.dtype)).all(), 'fillgaps:value:nearest', 'neither neighbour')
                    elif lin:
                        p = np.polyfit(tt[~g], a[~g].astype(float), 3)
                        ctx.close(y[fin], np.polyval(p, tt[s:e])[fin], 'fillgaps:value:cubic', 'exact cubic', rtol=0, atol=2e-3 * (1 + np.nanmax(np.abs(a))))

    # -------------------------------------------------------------- orientation filter
    for rng in ctx.cases('orient', ctx.n(30, 300)):
        nt = int(rng.integers(16, 40))
        ds, kind = dataset(rng, nt, 2)
        nf = int(rng.choice([3, 5, 7]))
        if kind == 'signature_ahrs':
            q = rng.normal(0, 1, (4, 1)) + rng.normal(0, .02, (4, nt))
            q = np.where(np.abs(q) < .1, .1, q)
            q[:, int(rng.integers(7, nt - 7))] = rng.normal(0, 1, 4)     # (the filter pads with zeros: the ends stay clear of them)
            q /= np.sqrt((q ** 2).sum(0))
            ds['quaternions'] = (('q', 'time'), q.astype('f4'))
            ds['q'] = ['w', 'x', 'y', 'z']
        kw = {} if nf == 7 else dict(nfilt=nf)

        def med(x):
            p = np.pad(np.asarray(x, float), nf // 2)
            return np.array([np.median(p[i:i + nf]) for i in range(len(x))])
        with ctx.observe('orient', dict(kind=kind, nfilt=nf, heading=ds['heading'].values)):
            b = _copy(ds)
            out = ctx.call(clean.medfilt_orient, ds, pure=True, **kw)
            if kind == 'signature_ahrs':
                for i in range(4):
                    ctx.close(out['quaternions'].values[i], med(b['quaternions'].values[i]), 'medfilt_orient:quaternions', rtol=1e-6, atol=1e-7)
                ctx.close(out['orientmat'], dolfyn.rotate.base.quaternion2orient(out['quaternions']).values, 'medfilt_orient:orientmat', rtol=1e-6, atol=1e-6)
                rest = {'quaternions', 'orientmat'}
            else:
                for k in ('pitch', 'roll', 'heading'):
                    ctx.close(out[k], med(b[k].values), 'medfilt_orient:' + k, rtol=1e-6)
                ctx.check('orientmat' not in out, 'medfilt_orient:stale-orientmat', 'the unfiltered orientation matrix is kept')
                rest = {'pitch', 'roll', 'heading', 'orientmat'}
            for k in b.data_vars:
                if k not in rest:
                    ctx.eq(out[k].values, b[k].values, 'medfilt_orient:other-variable', k)
