"""C08: file-type detection and user metadata on read."""
import io
import json
import os
import struct
import numpy as np
import dolfyn
from scipy.spatial.transform import Rotation
from .. import enc_rdi as ER, enc_nortek as EN, enc_sig as ES
from .c01 import add_gps
from .c07 import identical

RULE = ('Recordings of the four families under random (also misleading) file names; random files that are none of them; metadata files found by either naming rule or given by name, with random keys, declinations and head matrices, compared with '
        'reading without metadata and setting them afterwards; userdata=False. Non-trivial: the file has metadata or a misleading name.')
FILES = ['dolfyn/io/api.py', 'dolfyn/io/base.py', 'dolfyn/io/rdi.py', 'dolfyn/io/nortek.py', 'dolfyn/io/nortek2.py']

FAMILIES = ('rdi', 'vector', 'awac', 'signature')


def recording(rng, fam=None):
    fam = fam or FAMILIES[int(rng.integers(4))]
    if fam == 'rdi':
        c, es = ER.rand_file(rng, n=int(rng.integers(4, 9)))
        return fam, b''.join(ER.encode(c, e) for e in es)
    if fam == 'vector':
        c, S, sy, b = EN.rand_vector(rng, n_sec=3)
        return fam, b''.join(b)
    if fam == 'awac':
        c, S, b = EN.rand_awac(rng, n=4)
        return fam, b''.join(b)
    c, R, b = ES.rand_file(rng, n=5)
    return fam, ES.filehead(c) + b''.join(x[2] for x in b)


MODEL = dict(vector=lambda a: a['inst_model'] == 'Vector', awac=lambda a: a['inst_model'] == 'AWAC', signature=lambda a: a['inst_model'].startswith('Signature'),
             rdi=lambda a: a['inst_make'] == 'TRDI')
EXTS = ['.VEC', '.vec', '.wpr', '.ad2cp', '.000', '.PD0', '.ENR', '.nc', '.mat', '.txt', '', '.json', '.a.b', '.userdata', '.VEC.ad2cp', '.index']


def folder(ctx, rng, name=None):
    d = ctx.tmp('')
    os.makedirs(d)
    base = name or EN.pick(rng)('data', 'my data', 'vector.000', 'x.ad2cp.copy', 'été', 'a_' + str(int(rng.integers(1000))), '.hidden')
    return d, base


def put(d, name, b):
    f = os.path.join(d, name)
    with open(f, 'wb' if isinstance(b, bytes) else 'w') as h:
        h.write(b)
    return f


def names(ctx):
    for rng in ctx.cases('names', ctx.n(50, 600)):
        P = EN.pick(rng)
        fam, b = recording(rng)
        d, base = folder(ctx, rng)
        if fam == 'rdi' and rng.random() < .3:
            w = bytes(rng.integers(0, 0x7f, int(rng.integers(4, 60)), 'uint8'))
            b = b'\x7f\x79' + struct.pack('<H', len(w) + 4) + w + b      # a waves packet first
        f = put(d, base + P(*EXTS), b)
        ref = put(ctx_dir(ctx), 'ref' + dict(rdi='.000', vector='.VEC', awac='.wpr', signature='.ad2cp')[fam], b)
        with ctx.observe('names', dict(family=fam, name=os.path.basename(f))):
            want = ctx.call(dolfyn.read, ref)
            ctx.check(MODEL[fam](want.attrs), 'names:family', lambda: 'a %s file read as %s %s' % (fam, want.attrs['inst_make'], want.attrs['inst_model']))
            identical(ctx, ctx.call(dolfyn.read, f), want, 'names')
            fn = dict(rdi=dolfyn.io.api.read_rdi, vector=dolfyn.io.api.read_nortek, awac=dolfyn.io.api.read_nortek, signature=dolfyn.io.api.read_signature)[fam]
            identical(ctx, ctx.call(fn, f), want, 'direct')
            cwd = os.getcwd()
            os.chdir(d)
            try:
                identical(ctx, ctx.call(dolfyn.read, os.path.basename(f)), want, 'relative')
            finally:
                os.chdir(cwd)
            if fam != 'signature' and rng.random() < .5:       # another recording under the same name
                b2 = recording(rng, fam)[1]
                put(d, os.path.basename(f), b2)
                ref = put(ctx_dir(ctx), 'other', b2)
                identical(ctx, ctx.call(dolfyn.read, f), ctx.call(dolfyn.read, ref), 'replaced')


def ctx_dir(ctx):
    d = ctx.tmp('')
    os.makedirs(d)
    return d


def refused(ctx):
    for rng in ctx.cases('refused', ctx.n(60, 600)):
        P = EN.pick(rng)
        kind = P('random', 'empty', 'lfs', 'one', 'text', 'shifted', 'netcdf')
        fam, b = recording(rng)
        x = bytes(rng.integers(0, 256, int(rng.integers(2, 3000)), 'uint8'))
        if x[:2] in (b'\xa5\x05', b'\xa5\x0a', b'\x7f\x7f', b'\x7f\x79'):
            x = b'\0' + x
        x = dict(random=x, empty=b'', lfs=b'version https://git-lfs.github.com/spec/v1\noid sha256:%064x\nsize 1234\n' % int(rng.integers(2 ** 60)), one=P(b'\xa5', b'\x7f', b'a'), text=b'time, u, v\n1,2,3\n', shifted=b'\n' + b,
                 netcdf=b'\x89HDF\r\n\x1a\n' + x)[kind]
        f = put(ctx_dir(ctx), 'x' + P(*EXTS), x)
        with ctx.observe('refused', dict(kind=kind, name=os.path.basename(f), start=x[:4].hex())):
            for fn, nm in ((dolfyn.read, f), (dolfyn.load, f + '.nc')) if kind in ('lfs', 'text', 'random', 'empty') else ((dolfyn.read, f),):
                with open(nm, 'wb') as h:
                    h.write(x)
                try:
                    fn(nm)
                except (OSError, ValueError) if fn is dolfyn.load else OSError as e:
                    ctx.count('expected-refusals')
                    ctx.check(kind != 'lfs' or 'lfs' in str(e).lower(), 'refused:lfs', lambda: 'the message does not mention git-lfs: %s' % e)
                else:
                    ctx.check(False, 'refused:accepted', '%s accepted what it must refuse' % fn.__name__)


KEYS = ['latlon', 'deck_height', 'principal heading', 'motion accel_filtfreq Hz', 'site', 'decimation', 'description', 'depth_m', 'hub_height', 'operator', 'index', 'codec']


def meta(rng, fam):
    P = EN.pick(rng)
    m = {}
    for k in rng.permutation(KEYS)[:int(rng.integers(0, 5))]:
        m[str(k)] = P(float(np.round(rng.normal(), 3)), int(rng.integers(100)), 'text %d' % int(rng.integers(10)), [1.5, -2.0, float(np.round(rng.normal(), 2))], 'été')
    if rng.random() < .6:
        m['declination' if fam == 'rdi' else P('declination', 'declination', 'dec')] = P(0.0, 15.83, -8.28, 12, float(np.round(rng.uniform(-180, 180), 2)))
    if fam == 'vector' and rng.random() < .6:
        m[P('inst2head_rotmat', 'inst2head_rotmat', 'body2head_rotmat')] = P('identity', 'eye', 1, Rotation.random(random_state=int(rng.integers(2 ** 31))).as_matrix().tolist(), [[0, 0, -1], [0, -1, 0], [-1, 0, 0]])
    if rng.random() < .4:
        m[P('inst2head_vec', 'body2head_vec')] = [-1.0, 0.5, 0.2]
    ks = list(m)
    rng.shuffle(ks)
    return {k: m[k] for k in ks}


def applied(ctx, plain, m):
    """Reading without metadata, then setting what it says."""
    ds = plain.copy(deep=True)
    for k, v in m.items():
        k = {'body2head_rotmat': 'inst2head_rotmat', 'body2head_vec': 'inst2head_vec'}.get(k, k)
        if k not in ('declination', 'dec', 'inst2head_rotmat'):
            ds.attrs[k] = v
    r = m.get('inst2head_rotmat', m.get('body2head_rotmat'))
    if r is not None:
        ctx.call(dolfyn.set_inst2head_rotmat, ds, np.eye(3) if r in ('identity', 'eye', 1) else np.array(r))
    if 'dec' in m:
        ctx.call(dolfyn.set_declination, ds, m['dec'])
    if 'declination' in m:
        ctx.call(dolfyn.set_declination, ds, m['declination'])
    return ds


def agree(ctx, g, w, mech):
    ctx.check(set(g.variables) == set(w.variables), mech + ':variables', lambda: 'variables differ: %s' % (set(g.variables) ^ set(w.variables)))
    for v in w.variables:
        a, b = g[v].values, w[v].values
        if a.dtype.kind == 'f':
            ctx.close(a, b, '%s:%s' % (mech, v), v, rtol=2e-6, atol=2e-6)
        else:
            ctx.eq(a, b, '%s:%s' % (mech, v), v)
    for k in set(g.attrs) | set(w.attrs):
        ctx.check(k in g.attrs, mech + ':attr', lambda: 'attribute %s is missing' % k)
        ctx.check(k in w.attrs, mech + ':attr-extra', lambda: 'attribute %s: %r' % (k, g.attrs[k]))
        ctx.check(np.array_equal(np.asarray(g.attrs[k]), np.asarray(w.attrs[k])), mech + ':attr-value', lambda: 'attribute %s: %r, expected %r' % (k, g.attrs[k], w.attrs[k]))


def metadata(ctx):
    for rng in ctx.cases('metadata', ctx.n(100, 1200)):
        P = EN.pick(rng)
        fam, b = recording(rng)
        m = meta(rng, fam)
        d, base = folder(ctx, rng, P('data', 'my.data', 'x_1'))
        ext = dict(rdi='.000', vector='.VEC', awac='.wpr', signature='.ad2cp')[fam]
        f = put(d, base + ext, b)
        where = P('base', 'base', 'full', 'path', 'path+beside', 'both')
        js = json.dumps(m)
        other = json.dumps(dict(wrong=1, declination=77.))
        if where in ('base', 'both'):
            put(d, base + '.userdata.json', js)
        if where in ('full',):
            put(d, base + ext + '.userdata.json', js)
        if where == 'both':         # the documented name takes precedence
            put(d, base + ext + '.userdata.json', other)
        u = True
        if where.startswith('path'):
            u = put(d, 'about.json', js)
        if where == 'path+beside':
            put(d, base + '.userdata.json', other)
        with ctx.observe('metadata', dict(family=fam, where=where, meta=m), nontrivial=bool(m)):
            plain = ctx.call(dolfyn.read, f, userdata=False)
            for k in m:
                if k != 'declination':
                    ctx.check(k not in plain.attrs, 'plain:applied', lambda: '%s is set although userdata=False' % k)
            ctx.check('inst2head_rotmat' not in plain, 'plain:applied', 'a head matrix is set although userdata=False')
            clean = put(ctx_dir(ctx), 'data' + ext, b)
            identical(ctx, plain, ctx.call(dolfyn.read, clean), 'plain')
            got = ctx.call(dolfyn.read, f, **({} if u is True and rng.random() < .5 else dict(userdata=u)))
            want = applied(ctx, plain, m)
            agree(ctx, got, want, 'metadata')
            if 'declination' in m:
                ctx.check(got.attrs['declination'] == m['declination'], 'metadata:declination', lambda: 'declination %r' % got.attrs['declination'])
                ctx.count('declinations-applied')
            # what is in the file now counts, not what an earlier read found or what its caller did with it
            if rng.random() < .5:
                for v in got.attrs.values():
                    if isinstance(v, list):
                        v.reverse()
                agree(ctx, ctx.call(dolfyn.read, f, userdata=u), want, 'read-again')
                m2 = meta(rng, fam)
                at = u if u is not True else os.path.join(d, base + ('' if where in ('base', 'both') else ext) + '.userdata.json')
                put(d, os.path.basename(at), json.dumps(m2))
                agree(ctx, ctx.call(dolfyn.read, f, userdata=u), applied(ctx, plain, m2), 'edited')
                os.remove(at)
                if where == 'base' or u is True and where != 'both':
                    agree(ctx, ctx.call(dolfyn.read, f, userdata=u), plain, 'removed')
                put(d, os.path.basename(at), js)
                ctx.count('metadata-edited')
            if where.startswith('path'):
                with open(u) as h:
                    agree(ctx, ctx.call(dolfyn.read, f, userdata=h), want, 'open-file')
            if where == 'path+beside':
                ctx.expect_raises('metadata:missing-file', OSError, dolfyn.read, f, userdata=os.path.join(d, 'missing.json'))


def invalid(ctx):
    """A head matrix that is no rotation, or for an instrument without a separate head, is refused."""
    for rng in ctx.cases('invalid', ctx.n(8, 60)):
        P = EN.pick(rng)
        fam, b = recording(rng, P('vector', 'awac'))
        R = Rotation.random(random_state=int(rng.integers(2 ** 31))).as_matrix()
        m = dict(inst2head_rotmat=R.tolist())
        if fam == 'vector':
            m = dict(inst2head_rotmat=P((R * 1.1).tolist(), (-R).tolist(), R[:2].tolist(), [1, 2, 3]))
        d = ctx_dir(ctx)
        f = put(d, 'a.VEC', b)
        put(d, 'a.userdata.json', json.dumps(m))
        with ctx.observe('invalid', dict(family=fam, meta=m)):
            ctx.expect_raises('invalid:accepted', Exception, dolfyn.read, f)
            ctx.call(dolfyn.read, f, userdata=False)


def run(ctx):
    names(ctx)
    refused(ctx)
    metadata(ctx)
    invalid(ctx)
