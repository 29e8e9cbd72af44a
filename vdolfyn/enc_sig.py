"""Independent encoder of Nortek Signature .ad2cp recordings (data format 3, from the
integrator's guide) and the values a correct decoder must report for them."""
import datetime as D
import struct
import numpy as np
from .enc_nortek import pick, checksum

BURST, AVG, BT, B5, ALTRAW, ECHO, ALTRAW_AVG, STRING = 0x15, 0x16, 0x17, 0x18, 0x1a, 0x1c, 0x1f, 0xa0
TAG = {BURST: '', AVG: '_avg', BT: '_bt', B5: '_b5', ECHO: '_echo', ALTRAW: '_altraw', ALTRAW_AVG: '_altraw_avg'}
AXES = ['ENU', 'XYZ', 'beam']
CS = dict(ENU='earth', XYZ='inst', beam='beam')


class Cfg:
    pass


def rec(id, body, fam=16):
    fill = len(body) % 2
    cs = checksum(body + bytes(fill))
    h = struct.pack('<BBBBHH', 0xa5, 10, id, fam, len(body), cs)
    return h + struct.pack('<H', checksum(h)) + body


def stream(rng, c, id):
    """Configuration of one stream."""
    P = pick(rng)
    s = Cfg()
    s.id = id
    s.nb = {BURST: c.nb, AVG: c.nb, BT: c.nb}.get(id, 1)
    s.nc = {BT: 0, ECHO: int(P(1, 3, int(rng.integers(2, 60)))), ALTRAW: 0, ALTRAW_AVG: 0}.get(id, int(P(1, 2, 3, int(rng.integers(4, 30)))))
    s.axes = {B5: 2, ALTRAW: 2, ALTRAW_AVG: 2}.get(id, c.axes)
    s.cell, s.blank = int(rng.integers(100, 5000)), int(rng.integers(1, 2000))
    s.nomcorr, s.power = int(rng.integers(0, 101)), int(rng.integers(-100, 1))
    s.scale = int(P(-3, -3, -4, -5)) if id != BT else -6
    s.scales = P([s.scale], [s.scale], [-5, -4, -3])      # the instrument chooses it per ping
    s.ambig = int(rng.integers(0, 32768))
    s.valid = int(P(15, 15, int(rng.integers(16))))
    s.flags = set()
    if id in (BURST, AVG, B5):
        s.flags |= {f for f in ('amp', 'corr') if rng.random() < .8} | {'vel'}
    if (id, ALTRAW) == (BURST, ALTRAW if ALTRAW in c.ids else 0) or id == AVG and ALTRAW_AVG in c.ids:
        s.flags |= {'le', 'ast'}
    if id in (BURST, AVG):
        s.flags |= {f for f in ('le', 'ast', 'std') if rng.random() < .3}
        if id == AVG and rng.random() < .5 or rng.random() < .1:
            s.flags.add('p_gd')
    if id == ECHO:
        s.flags |= {'echo'}
    if id in (ALTRAW, ALTRAW_AVG):
        s.flags |= {'altraw', 'le', 'ast'}
        s.nsamp = int(rng.integers(1, 30))
    if id == BT:
        s.flags |= {'vel'} | {f for f in ('dist', 'fom') if rng.random() < .8}
    if c.ahrs and id in (BURST, AVG, B5, ECHO, BT) and (id in (BURST, AVG) or rng.random() < .3):
        s.flags.add('ahrs')
    return s


BITS = dict(vel=5, amp=6, corr=7, le=8, altraw=9, ast=10, echo=11, ahrs=12, p_gd=13, std=14)
BTBITS = dict(vel=5, dist=8, fom=9, ahrs=10)


def config(s):
    b = BTBITS if s.id == BT else BITS
    return s.valid + sum(1 << b[f] for f in s.flags)


def rand_cfg(rng, ids=None):
    P = pick(rng)
    c = Cfg()
    c.ids = ids or P([BURST], [BURST, B5], [BURST, B5, ECHO], [BURST, BT], [BURST, ECHO], [BURST, B5, ECHO, BT], [BURST, B5, BT], [BURST, ALTRAW], [BURST, B5, ALTRAW], [AVG], [AVG, BT], [AVG, ALTRAW_AVG])
    c.nb = 4
    c.axes = int(rng.integers(3))
    c.ahrs = bool(rng.random() < .6)
    c.model = P('Signature1000', 'Signature500', 'Signature250')
    c.serial = int(rng.integers(100000, 999999))
    c.fs = int(P(1, 2, 4, 8, 16))
    c.mi, c.ai, c.bw = int(P(60, 600)), int(P(10, 60)), P('BROAD', 'NARROW')
    c.theta = int(P(20, 25))
    c.T = np.round(rng.normal(size=(c.nb, c.nb)), 4)
    c.T[range(c.nb), range(c.nb)] += 3
    c.Tother = np.round(rng.normal(size=(c.nb, c.nb)), 4) + 5
    c.head_order, c.other = rng.permutation(20), bool(rng.random() < .8)
    c.hf = [float(x) for x in np.round(rng.uniform(.1, 30, 3), 2)]
    c.btcells = bool(rng.random() < .3)      # (has no meaning for bottom track, and may change)
    c.S = {i: stream(rng, c, i) for i in c.ids}
    c.orient = int(P(4, 4, 5, 5, 7, 7, 0, 1, 2, 3))
    c.auto = int(P(0, 1, 3))
    c.wake = int(rng.integers(4))
    c.status0 = 0x8000 | int(rng.integers(8)) if rng.random() < .8 else 0
    c.alt = dict(tilt_over_5deg=int(rng.integers(2)), tilt_over_10deg=int(rng.integers(2)), multibeam_alt=int(rng.integers(2)), power=int(rng.integers(4)))
    return c


def head_items(c):
    """[(key, {name: value} or str)] of the file header, in the order written."""
    m = 'AVG' if BURST not in c.ids else 'BURST'
    T = lambda t: dict([('ROWS', c.nb), ('COLS', c.nb)] + [('M%d%d' % (i + 1, j + 1), round(float(t[i, j]), 4)) for i in range(c.nb) for j in range(c.nb)])
    it = [('PLAN', dict(MIAVG=c.mi, AVG=1, MIBURST=120, BURST=1, FN='"Data.ad2cp"', SA=c.hf[0])),
          ('AVG', dict(NC=20, CS=c.hf[1], AI=c.ai, BW='"%s"' % c.bw)),
          ('BURST', dict(NC=20, NB=4, CS=c.hf[2], SR=c.fs)),
          ('XF' + m, T(c.T))]
    if c.other:
        it.append(('XFAVG' if m == 'BURST' else 'XFBURST', T(c.Tother)))
    if ECHO in c.ids:
        it.append(('ECHO', dict(NC=c.S[ECHO].nc, FREQ=500)))
    return [it[k] for k in c.head_order if k < len(it)]


def beamcfg(c):
    return ['BEAM=%d,THETA=%d.00,PHI=%.2f,FREQ=1000,BW=25' % (i + 1, c.theta, [0, -90, 180, 90][i % 4]) for i in range(c.nb)]


def filehead(c):
    lines = ['ID,STR="%s",SN=%d' % (c.model, c.serial)]
    for k, d in head_items(c):
        lines.append('GET' + k + ',' + ','.join('%s=%s' % (a, '%.4f' % b if a[0] == 'M' and a[1:].isdigit() else '%.2f' % b if isinstance(b, float) else b) for a, b in d.items()))
    lines += ['BEAMCFGLIST,' + x for x in beamcfg(c)]
    return rec(STRING, b'\x10' + '\r\n'.join(lines).encode() + b'\0')


def head_expected(c):
    """The attribute filehead_config."""
    x = dict(head_items(c))
    x['ID'] = 'STR="%s",SN=%d' % (c.model, c.serial)
    x['BEAMCFGLIST'] = beamcfg(c)
    return x


def rand_rec(rng, c, s, t, number):
    P = pick(rng)
    e = dict(t=t, number=number)
    e['c_sound'], e['temp'], e['pressure'] = int(rng.integers(14000, 16001)), int(rng.integers(-500, 4001)), int(P(int(rng.integers(0, 2 ** 16)), int(rng.integers(2 ** 16, 6 * 10 ** 6))))
    e['heading'], e['pitch'], e['roll'] = int(rng.integers(0, 36000)), int(rng.integers(-8999, 9000)), int(rng.integers(-18000, 18000))
    e['temp_press'], e['batt'] = int(rng.integers(0, 256)), int(rng.integers(80, 250))
    e['mag'], e['accel'] = rng.integers(-32768, 32768, 3), rng.integers(-32768, 32768, 3)
    e['scale'] = int(P(*s.scales)) if s.id != BT else s.scale
    e['xmit'], e['tclock'], e['error'] = int(rng.integers(0, 65536)), int(rng.integers(-500, 5000)), int(rng.integers(0, 65536))
    e['low'], e['act'], e['tel'], e['boost'] = (int(rng.integers(2)) for _ in range(4))
    e['status'] = c.wake << 28 | c.orient << 25 | c.auto << 22 | e['low'] << 17 | e['act'] << 16 | e['tel'] << 11 | e['boost'] << 10
    nb, nc, f = s.nb, s.nc, s.flags
    if s.id == BT:
        if c.btcells:
            e['nc'] = int(rng.integers(0, 40))
        e['vel'] = rng.integers(-2 ** 31, 2 ** 31, nb)
        e['dist'] = rng.integers(0, 2 ** 20, nb)
        e['fom'] = rng.integers(0, 65536, nb)
    else:
        e['vel'] = rng.integers(-32768, 32768, (nb, nc))
        e['amp'], e['corr'] = rng.integers(0, 256, (nb, nc)), rng.integers(0, 101, (nb, nc))
    e['le'] = (np.float32(rng.uniform(0, 100)), int(rng.integers(0, 65536)), c.alt['tilt_over_5deg'] | c.alt['tilt_over_10deg'] << 1 | c.alt['multibeam_alt'] << 2 | 1 << 3 | c.alt['power'] << 7)
    e['ast'] = (np.float32(rng.uniform(0, 100)), int(rng.integers(0, 65536)), int(rng.integers(-32768, 32768)), np.float32(rng.uniform(0, 100)))
    if s.id in (ALTRAW, ALTRAW_AVG):
        e['samp'] = rng.integers(-32768, 32768, s.nsamp)
        e['dsamp'] = int(rng.integers(1, 1000))
    e['echo'] = rng.integers(0, 65536, nc)
    e['R'] = np.linalg.qr(rng.normal(size=(3, 3)))[0].astype('f4')
    e['q'], e['gyro'] = rng.normal(size=4).astype('f4'), rng.normal(size=3).astype('f4')
    e['pg'] = rng.integers(0, 101, nc)
    e['std'] = [int(x) for x in rng.integers(-3000, 3000, 4)]
    return e


def body(c, s, e):
    t = e['t']
    bc = s.nc if s.id == ECHO else s.nb << 12 | s.axes << 10 | e.get('nc', s.nc)
    h = struct.pack('<BBHI', 1 if s.id == BT else 3, 78 if s.id == BT else 76, config(s), c.serial)
    h += bytes([t.year - 1900, t.month - 1, t.day, t.hour, t.minute, t.second]) + struct.pack('<H', t.microsecond // 100)
    h += struct.pack('<HhIHhhHHHBBH', e['c_sound'], e['temp'], e['pressure'], e['heading'], e['pitch'], e['roll'], bc, s.cell, s.blank, s.nomcorr,
                     e['temp_press'], e['batt'])
    A = lambda a, d: np.ascontiguousarray(a, d).tobytes()
    h += A(e['mag'], '<i2') + A(e['accel'], '<i2')
    if s.id == BT:
        h += struct.pack('<IHHbbhhII', s.ambig, 0x4321, e['xmit'], e['scale'], s.power, 0, e['tclock'], e['error'], e['status'])
    else:
        h += struct.pack('<HHHbbhhHHI', s.ambig, 0x4321, e['xmit'], e['scale'], s.power, 0, e['tclock'], e['error'], c.status0, e['status'])
    h += struct.pack('<I', e['number'])
    f, b = s.flags, b''
    if s.id == BT:
        if 'vel' in f:
            b += A(e['vel'], '<i4')
        if 'dist' in f:
            b += A(e['dist'], '<i4')
        if 'fom' in f:
            b += A(e['fom'], '<u2')
    else:
        if 'vel' in f:
            b += A(e['vel'], '<i2')
        if 'amp' in f:
            b += A(e['amp'], 'u1')
        if 'corr' in f:
            b += A(e['corr'], 'u1')
        if 'le' in f:
            b += struct.pack('<fHH', *e['le'])
        if 'ast' in f:
            b += struct.pack('<fHhf8x', *e['ast'])
        if 'altraw' in f:
            b += struct.pack('<IH', s.nsamp, e['dsamp']) + A(e['samp'], '<i2')
        if 'echo' in f:
            b += A(e['echo'], '<u2')
    if 'ahrs' in f:
        b += A(e['R'], '<f4') + A(e['q'], '<f4') + A(e['gyro'], '<f4')
    if 'p_gd' in f:
        b += A(e['pg'], 'u1')
    if 'std' in f:
        b += struct.pack('<4h', *e['std']) + bytes(24)
    return h + b


def encode(c, s, e):
    return rec(s.id, body(c, s, e))


def expected(c, s, e):
    """Values of one record, by dataset name (with the stream's tag)."""
    f = s.flags
    x = dict(c_sound=e['c_sound'] * .1, temp=e['temp'] * .01, pressure=e['pressure'] * .001, heading=e['heading'] * .01, pitch=e['pitch'] * .01, roll=e['roll'] * .01,
             batt=e['batt'] * .1, temp_clock=e['tclock'] * .01, error=e['error'], mag=e['mag'] * .1, accel=e['accel'] / 16384. * 9.81, status=e['status'])
    if s.id != BT:
        x['temp_press'] = (e['temp_press'] - 20) * .2
    x['xmit_energy'] = e['xmit']
    if 'vel' in f:
        x['vel'] = e['vel'] * 10. ** e['scale']
    if 'amp' in f:
        x['amp'] = e['amp'] * .5
    if 'corr' in f:
        x['corr'] = e['corr']
    if 'dist' in f:
        x['dist'] = e['dist'] * .001
    if 'fom' in f:
        x['fom'] = e['fom']
    if 'le' in f:
        x['le_dist_alt'], x['le_quality_alt'] = e['le'][0], e['le'][1] * .01
    if 'ast' in f:
        x['ast_dist_alt'], x['ast_quality_alt'], x['ast_offset_time_alt'], x['pressure_alt'] = e['ast'][0], e['ast'][1] * .01, e['ast'][2] * 1e-4, e['ast'][3]
    if 'altraw' in f:
        x['samp_alt'], x['dsamp_alt'], x['nsamp_alt'] = e['samp'] / 256., e['dsamp'] * 1e-4, s.nsamp
    if 'echo' in f:
        x['echo'] = e['echo'] * .01
    if 'ahrs' in f:
        # the instrument's matrix turns instrument into earth; the dataset's the other way
        x['orientmat'], x['quaternions'], x['angrt'] = e['R'].T, e['q'], np.deg2rad(e['gyro'].astype(float))
    if 'p_gd' in f:
        x['prcnt_gd'] = e['pg']
    if 'std' in f:
        x['pitch_std'], x['roll_std'], x['heading_std'], x['press_std'] = (a * k for a, k in zip(e['std'], (.01, .01, .01, .1)))
    return x


def rand_times(rng, n):
    P = pick(rng)
    t = P(D.datetime(2024, 2, 28, 23, 59, 58), D.datetime(2019, 12, 31, 23, 59, 59), D.datetime(2016, 2, 29, 0, 0), D.datetime(1999, 12, 31, 23, 59, 59))
    if rng.random() < .6:
        t = D.datetime(2000, 1, 1) + D.timedelta(seconds=int(rng.integers(0, 99 * 365 * 86400)))
    step = int(P(625, 1250, 2500, 5000, 10000, 600000, 6000000))
    return [t + D.timedelta(microseconds=100 * step * i) for i in range(n)]


def rand_file(rng, c=None, n=None, ids=None, first=None, skip=False):
    """-> cfg, {id: [(ensemble, record)]}, [(ensemble, id, bytes)]"""
    P = pick(rng)
    c = c or rand_cfg(rng, ids)
    n = n or int(rng.integers(3, 20))
    first = first or int(P(1, 1, 2, 5000, 2 ** 31))
    ts = rand_times(rng, n)
    R = {i: [] for i in c.ids}
    out = []
    every = int(P(1, 2, 3, 5))
    # at most one ping of a stream is missing, and not at either end
    gap = {}
    pings = [i for i in c.ids if i not in (ALTRAW, ALTRAW_AVG)]
    if skip and len(pings) > 1 and n > 4:
        gap[int(P(*pings))] = int(rng.integers(1, n - 2))
    for k in range(n):
        e0 = None
        for i in c.ids:
            e = rand_rec(rng, c, c.S[i], ts[k] + D.timedelta(microseconds=100 * int(rng.integers(0, 50))), first + k)
            if e0 is not None:
                # one instrument: no two of its sensors look in opposite directions
                for a, lo, hi in (('heading', 0, 36000), ('pitch', -18000, 18000), ('roll', -18000, 18000)):
                    e[a] = (e0[a] + int(rng.integers(-3000, 3001)) - lo) % (hi - lo) + lo
            e0 = e0 or e
            if gap.get(i) == k or i in (ALTRAW, ALTRAW_AVG) and k % every:
                continue
            R[i].append((k, e))
            out.append((k, i, encode(c, c.S[i], e)))
    c.n, c.gap = n, gap
    return c, R, out


def ignored(rng, number, ts=None):
    """A record of an id that is not decoded (27, 29, 30, 35, 36) or not known at all."""
    P = pick(rng)
    if rng.random() < .5:
        return rec(int(P(0x40, 0x51, 0x60, 0x2a)), bytes(rng.integers(0, 256, int(rng.integers(0, 60)), 'uint8')))
    b = b'\x10' + bytes(rng.integers(32, 127, int(rng.integers(0, 60)), 'uint8')) + b'\0'
    return rec(STRING, b)
