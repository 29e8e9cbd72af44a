"""C02: the RDI reader resynchronises after damage and never invents samples."""
import struct
import numpy as np
import dolfyn
from dolfyn.io.rdi import read_rdi
from .. import enc_rdi as E
from . import c01

RULE = ('Random PD0 recordings with damage: junk runs (random bytes, runs of 7f, fake headers, pieces of ensembles, zeros) between ensembles or before the first, bytes deleted from or inserted into an ensemble, '
        'whole ensembles replaced, truncation at every kind of position, several faults per file. Oracle: the ensembles that are intact and followed by another header, in file order, with exactly their values. '
        'Non-trivial: at least one fault and one surviving ensemble.')
FILES = ['dolfyn/io/rdi.py']


def headers(b):
    """Positions that look like an ensemble: 7f7f + length leading to 7f7f / 7f79."""
    out, p = [], b.find(b'\x7f\x7f')
    while p >= 0:
        if p + 4 <= len(b):
            n = struct.unpack_from('<h', b, p + 2)[0]
            q = p + n + 2
            if n > 0 and q + 2 <= len(b) and b[q] == 127 and b[q + 1] in (127, 121):
                out.append(p)
        p = b.find(b'\x7f\x7f', p + 1)
    return out


def junk(rng, encs):
    P = lambda *a: a[int(rng.integers(len(a)))]
    n = int(P(1, 2, 3, 7, int(rng.integers(4, 300)), int(rng.integers(300, 5000))))
    k = P('random', 'random', '7f', '7f-rich', 'header', 'prefix', 'suffix', 'zeros', 'ends7f', '7f79', 'waves')
    if k == 'random':
        return k, bytes(rng.integers(0, 256, n, 'uint8'))
    if k == '7f':
        return k, b'\x7f' * n
    if k == '7f-rich':
        return k, bytes(np.where(rng.random(n) < .6, 127, rng.integers(0, 256, n)).astype('u1'))
    if k == 'header':
        return k, b'\x7f\x7f' + struct.pack('<h', int(rng.integers(-32768, 32768))) + bytes(rng.integers(0, 256, n, 'uint8'))
    if k == 'waves':        # a waves packet: the ensemble before it is complete
        return k, b'\x7f\x79' + bytes(rng.integers(0, 127, n, 'uint8'))
    e = encs[int(rng.integers(len(encs)))]
    if k == 'prefix':
        return k, e[:int(rng.integers(1, len(e)))]
    if k == 'suffix':
        return k, e[-int(rng.integers(1, len(e))):]
    if k == 'zeros':
        return k, bytes(n)
    if k == 'ends7f':
        return k, bytes(rng.integers(0, 256, n, 'uint8')) + b'\x7f' * int(rng.integers(1, 4))
    return k, bytes(rng.integers(0, 256, n, 'uint8')) + b'\x7f\x79'


def damage(rng, encs):
    """-> (bytes, [index of ensemble, start, intact], faults)"""
    P = lambda *a: a[int(rng.integers(len(a)))]
    n = len(encs)
    nf = int(P(1, 1, 2, 3, 4))
    what = {}
    for _ in range(nf):
        what[int(rng.integers(n))] = P('junk', 'junk', 'junk', 'delete', 'insert', 'replace', 'head')
    b, pos, faults = b'', [], []
    for i, e in enumerate(encs):
        w = what.get(i)
        ok = True
        if w == 'junk':
            k, j = junk(rng, encs)
            b += j
            faults.append('%s(%d) before %d' % (k, len(j), i))
        elif w == 'delete':
            a = int(rng.integers(0, len(e)))
            m = int(rng.integers(1, min(len(e) - a, 200) + 1))
            e = e[:a] + e[a + m:]
            ok = False
        elif w == 'insert':
            a = int(rng.integers(4, len(e)))
            e = e[:a] + bytes(rng.integers(0, 256, int(rng.integers(1, 60)), 'uint8')) + e[a:]
            ok = False
        elif w == 'replace':
            e = bytes(rng.integers(0, 256, len(e), 'uint8'))
            ok = False
        elif w == 'head':
            e = bytes(rng.integers(0, 127, 2, 'uint8')) + e[2:]
            ok = False
        if not ok:
            faults.append('%s in %d' % (w, i))
        pos.append((i, len(b), ok))
        b += e
    if rng.random() < .35 or not faults:
        t = int(P(len(b) - 1, len(b) - 2, int(rng.integers(len(b) // 2, len(b))), int(rng.integers(1, len(b)))))
        if rng.random() < .4:
            t = min(len(b), pos[int(rng.integers(n))][1] + int(rng.integers(0, 9)))
        b = b[:t]
        faults.append('cut at %d' % t)
    elif rng.random() < .3:
        j = bytes(rng.integers(0, 256, int(rng.integers(1, 2000)), 'uint8'))
        b += j
        faults.append('%d bytes at the end' % len(j))
    return b, pos, faults


def run(ctx):
    for rng in ctx.cases('damage', ctx.n(250, 5000)):
        c, es = E.rand_file(rng, n=int(rng.integers(3, 24)), small=bool(rng.random() < .7))
        encs = [E.encode(c, e) for e in es]
        b = None
        for _ in range(20):
            t, pos, faults = damage(rng, encs)
            h = headers(t)
            good = [(i, p) for i, p, ok in pos if ok and p in h and t[p:p + len(encs[i])] == encs[i]]
            if sorted(p for _, p in good) != h:
                continue        # the junk happens to look like an ensemble: nothing tells it apart
            g = [0] + [p + len(encs[i]) for i, p in good]
            if max((p - q for q, p in zip(g, [p for _, p in good] + [len(t)])), default=0) > 29000:
                continue
            b = t
            break
        if b is None:
            ctx.count('skipped')
            continue
        f = c01.write(ctx, b)
        want = [es[i] for i, _ in good]
        ctx.count('faults', len(faults))
        with ctx.observe('damage', dict(c01.desc(c, es), faults=faults, kept=len(want)), nontrivial=bool(want)):
            if not want:
                # nothing readable: an ordinary exception, or an empty dataset
                try:
                    n = ctx.call(read_rdi, f).sizes['time']
                except Exception:
                    n = 0
                ctx.check(n == 0, 'resync:invented', 'ensembles from a file without a complete one')
                continue
            ds = ctx.call(read_rdi, f)
            got = [int(x) for x in ds['number'].values]
            ctx.check(got == [e['number'] for e in want], 'resync:ensembles',
                      lambda: 'ensembles %s reported, intact and followed by a header are %s' % (got, [e['number'] for e in want]))
            c01.compare(ctx, ds, c, want, 'resync')
            ctx.count('ensembles-compared', len(want))
