"""C05: verification of Nortek record checksums."""
import numpy as np
import dolfyn
from .. import core, enc_nortek as E
from .c01 import write
from . import c03, c04

RULE = ('Recordings of the three classic Nortek families with right checksums (any content, so any 16-bit sum) read with and without verification, and the same with one byte changed in a record that has a checksum '
        '(configuration records, data, sensor, IMU, header records): the change must be reported as an error. Non-trivial: each damaged recording.')
FILES = ['dolfyn/io/nortek.py']


def rand_any(rng):
    k = E.pick(rng)('vec', 'vec', 'awac', 'vno')
    if k == 'vec':
        c = E.rand_cfg(rng, 'ADV')
        if c.fs > 16:
            c.fs, c.avg = 16, 32
        c, S, sy, b = E.rand_vector(rng, c=c, n_sec=3)
        return k, c, S, sy, b
    c, S, b = E.rand_awac(rng, n=int(rng.integers(2, 8))) if k == 'awac' else E.rand_vectrino(rng, n=int(rng.integers(2, 40)))
    return k, c, S, None, b


def records(b):
    """(start, end, id) of every record of the chunks."""
    out, o = [], 0
    whole = b''.join(b)
    for ch in b:
        e = o + len(ch)
        p = o
        while p < e:
            i = whole[p + 1]
            n = {0x10: 24, 0x51: 22}.get(i) or 2 * int.from_bytes(whole[p + 2:p + 4], 'little')
            out.append((p, p + n, i))
            p += n
        assert p == e
        o = e
    return whole, out


def run(ctx):
    for rng in ctx.cases('intact', ctx.n(60, 800)):
        k, c, S, sy, b = rand_any(rng)
        f = write(ctx, b''.join(b))
        with ctx.observe('intact', dict(kind=k, n=len(S), records=len(b))):
            a = ctx.call(dolfyn.io.nortek.read_nortek, f)
            v = ctx.call(dolfyn.io.nortek.read_nortek, f, do_checksum=True)
            if k != 'vno':
                (c03.compare if k == 'vec' else c04.compare)(ctx, v, *((c, S, sy) if k == 'vec' else (c, S)), mech='verified')
            ctx.check(a.identical(v), 'checksum:changes-data', 'reading with verification gives other data')
            ctx.count('records-verified', len(b))
    for rng in ctx.cases('damaged', ctx.n(150, 4000)):
        k, c, S, sy, b = rand_any(rng)
        whole, recs = records(b)
        u = rng.random()
        if u < .6:
            # every kind of record as often
            j = sorted({x[2] for x in recs})
            j = j[int(rng.integers(len(j)))]
            a, e, i = E.pick(rng)(*[x for x in recs if x[2] == j])
        else:
            a, e, i = recs[int(rng.integers(len(recs)))] if u < .9 else recs[-1 - int(rng.integers(3))]
        # sync, id and size words steer the walk itself; the rest is payload and checksum
        p = int(rng.integers(a + (2 if i in (0x10, 0x51) else 4), e))
        if i == 0x71 and p < a + 6:
            p = a + 6           # (the IMU's record type)
        if i == 7 and p < a + 8:
            p = a + 8           # (the number of check samples)
        if i == 5 and p < a + 12:
            p = a + 16          # (the serial number names the instrument)
        bad = bytearray(whole)
        old = bad[p]
        bad[p] = (old + int(rng.integers(1, 256))) % 256
        if i == 0 and (12 <= p - a < 44 or 384 <= p - a < 390 or p - a == 72 or p - a == 73 or 452 <= p - a < 454):
            continue            # layout of what follows
        f = write(ctx, bytes(bad))
        with ctx.observe('damaged', dict(kind=k, n=len(S), id=i, at=p - a, record=e - a, old=old, new=bad[p])):
            ctx.expect_raises('checksum:accepts-damage-%02x' % i, Exception, dolfyn.io.nortek.read_nortek, f, do_checksum=True)
            ctx.count('damaged-id-%02x' % i)
