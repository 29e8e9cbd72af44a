"""Independent encoder of Teledyne RDI PD0 ensembles (written from the PD0 record
layout), and the values a correct decoder must report for them."""
import datetime as D
import struct
import numpy as np

FREQ = [75, 150, 300, 600, 1200, 2400, 38]
CS = ['beam', 'inst', 'ship', 'earth']
MODEL = {(16, 5): 'Workhorse', (16, 21): 'Workhorse', (16, 27): 'Workhorse', (16, 30): 'Workhorse', (50, 40): 'Workhorse', (51, 40): 'Workhorse',
         (10, 16): 'Rio Grande', (23, 0): 'Ocean Surveyor', (23, 19): 'Ocean Surveyor', (5, 58): 'Broadband', (5, 20): 'Broadband',
         (44, 14): 'RiverRay', (31, 12): 'StreamPro', (56, 3): 'RiverPro', (41, 1): 'DVS', (47, 5): 'SentinelV', (9, 10): 'unrecognized firmware version',
         (4, 11): 'Broadband', (11, 9): 'H-ADCP', (14, 10): 'Ocean Surveyor', (19, 2): 'Navigator', (28, 30): 'ChannelMaster', (34, 15): 'Explorer', (37, 0): 'Navigator', (43, 1): 'Workhorse',
         (52, 40): 'Workhorse', (53, 1): 'Navigator', (55, 2): 'DVS', (59, 2): 'Meridian', (61, 1): 'Pinnacle', (66, 0): 'SentinelV', (67, 1): 'Pathfinder', (73, 0): 'Pioneer',
         (74, 1): 'Tasman', (76, 0): 'WayFinder', (77, 2): 'Workhorse', (78, 3): 'Workhorse', (6, 2): 'Navigator', (63, 7): 'unrecognized firmware version'}


class Cfg:
    pass


def pick(rng):
    return lambda *a: a[int(rng.integers(len(a)))]


def rand_cfg(rng, ver=None, small=False):
    P = lambda *a: a[int(rng.integers(len(a)))]
    c = Cfg()
    c.ver = ver or P(*MODEL)
    c.model = MODEL[c.ver]
    if ver is None and rng.random() < .3:
        # revisions at which the record layout changes, and next to them
        c.ver = (8, P(12, 13, 14, 18, 23, 24, 25)) if rng.random() < .5 else (16, P(4, 5, 6, 19, 20, 21, 26, 27, 28))
        c.model = {8: 'unrecognized firmware version', 16: 'Workhorse'}[c.ver[0]]
    c.v = round(c.ver[0] + c.ver[1] / 100., 4)
    c.beam5 = int(c.model == 'SentinelV')
    c.sensorcfg = int(rng.integers(3)) << 4 | (0x40 if rng.random() < .7 else 0)    # sensor configuration and "transducer attached"
    c.angcode = int(rng.integers(3))
    c.beam_angle = [15, 20, 30][c.angcode]
    if c.v >= 16.27:
        c.beam_angle = int(P(15, 20, 25, 30))
    c.freqcode = int(rng.integers(6)) if c.model != 'Ocean Surveyor' else int(P(0, 1, 6))
    c.convex, c.up = bool(rng.integers(2)), bool(rng.integers(2))
    c.cs = int(rng.integers(4))
    c.tilts, c.beam3, c.binmap = (bool(rng.integers(2)) for _ in range(3))
    c.n_cells = int(P(1, 2, 3, 4, int(rng.integers(5, 40)), 3 if small else 128))
    c.pings = int(P(1, 2, 45, 1000))
    c.cell_cm, c.blank_cm, c.bin1_cm, c.xmit_cm, c.lag_cm = (int(rng.integers(1, 6000)) for _ in range(5))
    c.mode, c.corrthr, c.reps, c.pgmin = (int(rng.integers(0, 256)) for _ in range(4))
    c.evmax = int(rng.integers(0, 6000))
    c.tpp = [int(rng.integers(0, 60)), int(rng.integers(0, 60)), int(rng.integers(1, 100))]
    c.ea, c.eb = int(rng.integers(-17999, 18000)), int(P(0, 0, int(rng.integers(-17999, 18000))))
    c.src, c.avail = int(rng.integers(0, 256)), int(rng.integers(0, 256))
    c.ref = [int(x) for x in rng.integers(0, 256, 2)]
    c.false = int(rng.integers(0, 256))
    c.bw, c.power, c.serial = int(rng.integers(0, 2 ** 16)), int(rng.integers(0, 256)), int(rng.integers(0, 2 ** 32))
    c.pad = int(P(0, 0, 1, 7))                  # undocumented trailing bytes of the fixed leader
    c.types = [t for t in ('vel', 'corr', 'amp', 'prcnt_gd', 'status') if t == 'vel' or rng.random() < .75]
    if rng.random() < .5:
        c.types.append('bt')
    if rng.random() < .2:
        c.types.append('alt')
    if rng.random() < .3:
        c.types.append('unknown')
    if rng.random() < .4:
        c.types.append('skip')
    c.sl = bool(c.model in ('RiverPro', 'StreamPro') and rng.random() < .7)
    if c.sl:
        c.n_sl = int(rng.integers(1, c.n_cells + 1))
        c.sl_cell, c.sl_bin1 = int(rng.integers(1, 100)), int(rng.integers(1, 400))
        c.types += [t for t in ('vel_sl', 'corr_sl', 'amp_sl', 'prcnt_gd_sl', 'status_sl') if t == 'vel_sl' or rng.random() < .7]
    rng.shuffle(c.types)
    c.gps = None
    return c


def make_cfg_attrs(c):
    a = dict(inst_make='TRDI', inst_type='ADCP', inst_model=c.model, prog_ver=c.v, freq=FREQ[c.freqcode], beam_angle=c.beam_angle,
             beam_pattern='convex' if c.convex else 'concave', orientation='up' if c.up else 'down', n_beams=4 + c.beam5,
             pings_per_ensemble=c.pings, cell_size=c.cell_cm * .01, blank_dist=c.blank_cm * .01, profiling_mode=c.mode,
             min_corr_threshold=c.corrthr, n_code_reps=c.reps, min_prcnt_gd=c.pgmin, max_error_vel=c.evmax / 1000.,
             sec_between_ping_groups=c.tpp[0] * 60 + c.tpp[1] + c.tpp[2] * .01, coord_sys=CS[c.cs],
             use_pitchroll='yes' if c.tilts else 'no', use_3beam='yes' if c.beam3 else 'no', bin_mapping='yes' if c.binmap else 'no',
             heading_misalign_deg=c.ea * .01, magnetic_var_deg=c.eb * .01, bin1_dist_m=c.bin1_cm * .01, transmit_pulse_m=c.xmit_cm * .01,
             water_ref_cells=c.ref, false_target_threshold=c.false, transmit_lag_m=c.lag_cm * .01,
             sensors_src=format(c.src, '08b'), sensors_avail=format(c.avail, '08b'))
    if c.v >= 8.24:
        a['bandwidth'] = c.bw
    if c.v >= 16.05:
        a['power_level'] = c.power
    if c.v >= 16.27:
        a['serialnum'] = c.serial
    return a


def fixed_leader(c, n_cells):
    b = struct.pack('<HBBBBBBBB', 0, c.ver[0], c.ver[1], c.freqcode | (8 if c.convex else 0) | (128 if c.up else 0) | c.sensorcfg,
                    c.angcode | 0x40 | c.beam5 << 4, 0, 5, 4, n_cells)
    b += struct.pack('<HHHBBBBHBBB', c.pings, c.cell_cm, c.blank_cm, c.mode, c.corrthr, c.reps, c.pgmin, c.evmax, *c.tpp)
    b += struct.pack('<BhhBBHHBBBBH', c.cs << 3 | (4 if c.tilts else 0) | (2 if c.beam3 else 0) | (1 if c.binmap else 0),
                     c.ea, c.eb, c.src, c.avail, c.bin1_cm, c.xmit_cm, c.ref[0], c.ref[1], c.false, 0, c.lag_cm)
    if c.v >= 8.14:
        b += bytes([1, 2, 3, 4, 5, 6, 7, 8])
    if c.v >= 8.24:
        b += struct.pack('<H', c.bw)
    if c.v >= 16.05:
        b += struct.pack('<B', c.power)
    if c.v >= 16.27:
        b += struct.pack('<BIB', 0, c.serial, c.beam_angle)
    return b + bytes(c.pad)


def century_clock(c):
    return (c.model == 'Broadband' and c.v >= 5.55) or (c.model not in ('Broadband', 'Ocean Surveyor') and c.v >= 16.05)


def var_leader(c, e):
    t = e['t']
    rtc = e.get('badclock') or [t.year % 100, t.month, t.day, t.hour, t.minute, t.second, t.microsecond // 10000]
    cent = [t.year // 100]
    b = struct.pack('<HH7BB', 0x80, e['number'] & 0xffff, *(rtc if not century_clock(c) or e.get('rtc_ok', True) else rtc), e['number'] >> 16)
    b += struct.pack('<HHHHhhhh3BBBB8B', e['bit'], e['c_sound'], e['depth'], e['heading'], e['pitch'], e['roll'], e['salinity'], e['temp'],
                     *e['mpt'], e['hstd'], e['pstd'], e['rstd'], *e['adc'])
    if c.model == 'Broadband':
        if c.v >= 5.55:
            b += bytes(15) + bytes(cent + rtc)
    elif c.model == 'Ocean Surveyor':
        b += bytes(16) + (bytes(2) if c.v > 23 else b'')
    else:
        b += struct.pack('<I', e['esw'])
        if c.v >= 8.13:
            b += bytes(2) + struct.pack('<iI', e['pressure'], e['pvar'])
        if c.v >= 8.24:
            b += bytes(1)
        if c.v >= 16.05:
            b += bytes(cent + rtc)
        if c.v >= 56:
            b += bytes(1)
    return b


ID = dict(vel=0x100, corr=0x200, amp=0x300, prcnt_gd=0x400, status=0x500, vel_sl=0x110, corr_sl=0x210, amp_sl=0x310, prcnt_gd_sl=0x410, status_sl=0x510)
# blocks without a variable of their own: (id, fixed bytes, bytes per cell)
SKIP = [(0x7001, 14, 0), (0x3200, 32, 0), (0x30d0, 24, 0), (0x5803, 68, 0), (0x4401, 82, 0), (0x30d8, 48, 0), (0x103, 74, 0), (0x203, 186, 0), (0x403, 6, 0), (0x303, 18, 0), (0x20c, 4, 0),
        (0xbb8, 32, 0), (0x3000, 32, 0), (0x2013, 83, 0), (0x4400, 28, 0), (0x5804, 21, 0), (0x5901, 65, 0), (0x5902, 105, 0), (0xf01, 38, 0), (0x302, 0, 2), (0x701, 0, 4), (0x702, 0, 8), (0x703, 0, 4),
        (0xa00, 0, 2), (0xb00, 0, 1), (0xc00, 0, 1), (0xd00, 0, 1)]


def rand_ens(rng, c, number, t, n_cells=None):
    P = lambda *a: a[int(rng.integers(len(a)))]
    n = n_cells or c.n_cells
    e = dict(number=number, t=t, n=n)
    e['bit'] = int(P(0, 0, 0, int(rng.integers(0, 2 ** 16))))
    e['c_sound'], e['depth'], e['heading'] = int(rng.integers(1400, 1601)), int(P(0, int(rng.integers(1, 10000)), 65535)), int(rng.integers(0, 36000))
    e['pitch'], e['roll'] = int(rng.integers(-2000, 2001)), int(P(int(rng.integers(-2000, 2001)), int(rng.integers(-18000, 18000))))
    e['salinity'], e['temp'] = int(rng.integers(0, 41)), int(rng.integers(-500, 4001))
    e['mpt'] = [int(rng.integers(0, 60)), int(rng.integers(0, 60)), int(rng.integers(0, 100))]
    e['hstd'], e['pstd'], e['rstd'] = (int(x) for x in rng.integers(0, 181, 3))
    e['adc'] = [int(x) for x in rng.integers(0, 256, 8)]
    e['esw'], e['pressure'], e['pvar'] = int(rng.integers(0, 2 ** 32)), int(P(int(rng.integers(0, 6 * 10 ** 6)), -int(rng.integers(1, 1000)), 0)), int(rng.integers(0, 10000))
    v = rng.integers(-32768, 32768, (n, 4))
    v[rng.random((n, 4)) < .2] = -32768
    e['vel'] = v
    for k in ('corr', 'amp', 'prcnt_gd', 'status'):
        e[k] = rng.integers(0, 256, (n, 4))
    if c.sl:
        w = rng.integers(-32768, 32768, (c.n_sl, 4))
        w[rng.random((c.n_sl, 4)) < .2] = -32768
        e['vel_sl'] = w
        for k in ('corr_sl', 'amp_sl', 'prcnt_gd_sl', 'status_sl'):
            e[k] = rng.integers(0, 256, (c.n_sl, 4))
    e['bt_vel'] = rng.integers(-32767, 32768, 4)
    if rng.random() < .2:
        e['bt_vel'][rng.integers(4)] = -32768
    e['bt_dist'] = rng.integers(0, 2 ** 24 if c.v >= 5.3 and rng.random() < .5 else 2 ** 16, 4)
    for k in ('bt_corr', 'bt_amp', 'bt_pg'):
        e[k] = rng.integers(0, 256, 4)
    e['alt'] = [int(rng.integers(256)), int(rng.integers(256)), int(rng.integers(0, 100000)), int(rng.integers(256))]
    e['blob'] = bytes(rng.integers(0, 127, int(rng.integers(0, 40)) * 2, 'uint8'))      # never a header
    e['unk'] = int(P(0x30fc, 0x3040, 0x0340, 0x5555, 0x30, 0x6101))
    s = SKIP[int(rng.integers(len(SKIP)))]
    e['skip'] = s[0], s[1] + s[2] * n
    return e


def bottom(c, e):
    d = np.asarray(e['bt_dist'])
    b = struct.pack('<HHHBBBBHI', 0x600, 10, 0, 120, 0, 1, 0, 500, 0)
    b += np.asarray(d & 0xffff, '<u2').tobytes() + np.asarray(e['bt_vel'], '<i2').tobytes()
    b += bytes(list(map(int, e['bt_corr'])) + list(map(int, e['bt_amp'])) + list(map(int, e['bt_pg'])))
    b += bytes(26)
    if c.v >= 5.3:
        b += bytes(7) + bytes([int(x >> 16) for x in d])
    if c.v >= 16.2:
        b += bytes(4)
    if c.v >= 56.1:
        b += bytes(4)
    return b


def nmea(e, id, m):
    # ids 4-7 and 104-107: the two generations of the format
    return struct.pack('<HHHd', 0x2022, id + e.get('nmea_gen', 100), len(m), .25) + m


def empty(e, id, n, head):
    return nmea(e, id, head + bytes(n - len(head)))


def gga(e):
    g = e['gga']
    if g is None:
        return empty(e, 4, e.get('sz', {}).get('gga', 40), b'$GPGGA,,,,,')
    u = g['t']
    s = '%02d%02d%02d.%02d' % (u.hour, u.minute, u.second, u.microsecond // 10000)
    m = b'$GPGGA,' + s.encode() + b'\0' + struct.pack('<dcdcBBffcfcfh', abs(g['lat']), b'N' if g['lat'] >= 0 else b'S', abs(g['lon']), b'E' if g['lon'] >= 0 else b'W',
                                                   g['fix'], g['nsat'], g['hdop'], g['elev'], b'M', 12.5, b'M', g['age'], 7)
    return nmea(e, 4, m)


def vtg(e):
    g = e['vtg']
    if g is None:
        return empty(e, 5, e.get('sz', {}).get('vtg', 20), b'$GPVTG,,,')
    m = b'$GPVTG,' + struct.pack('<fcfcfcfcc', g['dir'], b'T', (g['dir'] + 17.25) % 360, b'M', g['kn'], b'N', g['kn'] * 1.852, b'K', b'A')
    return nmea(e, 5, m)


def dbt(e):
    if e['dbt'] is None:
        return empty(e, 6, e.get('sz', {}).get('dbt', 16), b'$SDDBT,,,')
    m = b'$SDDBT,' + struct.pack('<fcfcfc', e['dbt'] * 3.28, b'f', e['dbt'], b'M', e['dbt'] / 1.83, b'F')
    return nmea(e, 6, m)


def hdt(e):
    if e['hdt'] is None:
        return empty(e, 7, e.get('sz', {}).get('hdt', 12), b'$GPHDT,,')
    m = b'$GPHDT,' + struct.pack('<dc', e['hdt'], b'T')
    return nmea(e, 7, m)


BAM32, BAM16 = 180. / 2 ** 31, 180. / 2 ** 15


def vmdas(e):
    g = e['nav']
    u = g['t']
    ms = lambda t: ((t.hour * 60 + t.minute) * 60 + t.second) * 10000 + t.microsecond // 100
    b = struct.pack('<HBBHIiiiIii', 0x2000, u.day, u.month, u.year, max(ms(u) - 20000, 0), g['off'], g['lat'] - 1, g['lon'] - 1, ms(u), g['lat'], g['lon'])
    b += struct.pack('<HHHHHHHHI', g['avs'], g['avd'], 0, g['smg'], g['dmg'], 0, g['flags'], 0, e['number'] & 0xffffffff)
    t = e['t']
    b += struct.pack('<HBBIHHH', t.year, t.day, t.month, ms(t), g['pitch'], g['roll'], g['heading']) + bytes(10)
    assert len(b) == 78, len(b)
    return b


def block(c, e, t):
    if t == 'bt':
        return bottom(c, e)
    if t == 'alt':
        return struct.pack('<HBBIB', 0x4100, *e['alt'])
    if t == 'unknown':
        return struct.pack('<H', e['unk']) + e['blob']
    if t == 'skip':
        return struct.pack('<H', e['skip'][0]) + bytes(e['skip'][1])
    if t in ('gga', 'vtg', 'dbt', 'hdt', 'nav'):
        return dict(gga=gga, vtg=vtg, dbt=dbt, hdt=hdt, nav=vmdas)[t](e)
    a = e[t]
    return struct.pack('<H', ID[t]) + np.ascontiguousarray(a, '<i2' if t.startswith('vel') else 'u1').tobytes()


def encode(c, e):
    parts = [fixed_leader(c, e['n']), var_leader(c, e)]
    if c.sl:
        parts.append(struct.pack('<HBHH', 0x10, c.n_sl, c.sl_cell, c.sl_bin1))
    parts += [block(c, e, t) for t in e.get('types', c.types)]
    if 'second' in e:
        # a second profile: leader and data with the low byte of their ids set
        c2, e2 = e['second']
        two = [fixed_leader(c2, e2['n'])] + ([var_leader(c2, e2)] if c2.own_leader else []) + [block(c2, e2, t) for t in c2.types]
        two = [struct.pack('<H', struct.unpack('<H', p[:2])[0] + 1) + p[2:] for p in two]
        parts = parts[:1] + two[:1] + parts[1:] + two[1:] if c2.together else parts + two
    off, o = [], 6 + 2 * len(parts)
    for p in parts:
        off.append(o)
        o += len(p)
    nbyte = o + 2
    b = struct.pack('<BBHBB', 0x7f, 0x7f, nbyte, 0, len(parts)) + struct.pack('<%dH' % len(off), *off) + b''.join(parts) + b'\0\0'
    assert len(b) == nbyte
    return b + struct.pack('<H', sum(b) & 0xffff)


def expected(c, e):
    """name -> value of one ensemble, in documented units."""
    types = e.get('types', c.types)
    x = dict(number=e['number'], builtin_test_fail=bool(e['bit']), c_sound=float(e['c_sound']), depth=e['depth'] * .1, heading=e['heading'] * .01,
             pitch=e['pitch'] * .01, roll=e['roll'] * .01, salinity=float(e['salinity']), temp=e['temp'] * .01,
             min_preping_wait=e['mpt'][0] * 60 + e['mpt'][1] + e['mpt'][2] * .01, heading_std=float(e['hstd']), pitch_std=e['pstd'] * .1, roll_std=e['rstd'] * .1)
    if c.model not in ('Broadband', 'Ocean Surveyor') and c.v >= 8.13:
        x['pressure'], x['pressure_std'] = e['pressure'] / 1000., e['pvar'] / 1000.
    nanv = lambda v: np.where(np.asarray(v) == -32768, np.nan, np.asarray(v) * .001)
    for t in types:
        if t in ('vel', 'vel_sl'):
            x[t] = nanv(e[t]).T
        elif t in ID:
            x[t] = np.asarray(e[t], float).T
        elif t == 'bt':
            x['vel_bt'], x['dist_bt'] = nanv(e['bt_vel']), np.asarray(e['bt_dist']) * .01
            x['corr_bt'], x['amp_bt'], x['prcnt_gd_bt'] = (np.asarray(e[k], float) for k in ('bt_corr', 'bt_amp', 'bt_pg'))
        elif t == 'alt':
            x['alt_eval'], x['alt_rssi'], x['alt_dist'], x['alt_status'] = e['alt'][0], e['alt'][1], e['alt'][2] / 1000., e['alt'][3]
    return x


def rand_times(rng, n, cent=True):
    P = lambda *a: a[int(rng.integers(len(a)))]
    t0 = P(D.datetime(2024, 2, 28, 23, 59, 55), D.datetime(2012, 6, 12, 12), D.datetime(2019, 12, 31, 23, 59, 30), D.datetime(2000, 2, 29, 0, 0, 0, 10000))
    if cent and rng.random() < .3:
        t0 = P(D.datetime(1999, 12, 31, 23, 59, 50), D.datetime(1993, 3, 1, 4, 5, 6))
    elif rng.random() < .5:
        t0 = D.datetime(int(rng.integers(2000, 2090)), 1, 1) + D.timedelta(seconds=int(rng.integers(0, 365 * 86400)))
    step = int(P(1, 25, 50, 100, 150, 6000, 360000, 8640000))      # 10 ms
    out, k = [], 0
    for i in range(n):
        out.append(t0 + D.timedelta(milliseconds=10 * k))
        k += step + (int(rng.integers(0, 5)) if rng.random() < .3 else 0)
    return out


def add_second(rng, c, es):
    """Give the recording a second (broadband) profile."""
    c2 = rand_cfg(rng, small=True)
    c2.ver, c2.v, c2.model, c2.beam5, c2.sl = c.ver, c.v, c.model, c.beam5, False
    c2.types = [t for t in ('vel', 'corr', 'amp', 'prcnt_gd', 'status') if t == 'vel' or rng.random() < .7]
    c2.own_leader, c2.together = bool(rng.integers(2)), bool(rng.integers(2))
    for e in es:
        # the same ping: what the second leader says of the sensors is what the first says
        x = rand_ens(rng, c2, e['number'], e['t'])
        e['second'] = c2, {**e, 'n': c2.n_cells, **dict((k, x[k]) for k in c2.types)}
    return c2


def rand_file(rng, n=None, cfg=None, second=True, **kw):
    P = lambda *a: a[int(rng.integers(len(a)))]
    c = cfg or rand_cfg(rng, **kw)
    n = n or int(rng.integers(3, 14))
    num0 = int(P(1, 1, int(rng.integers(1, 60000)), 65530, 131070 - 3, 2 ** 24 - n - 1))
    ts = rand_times(rng, n, century_clock(c))
    es = [rand_ens(rng, c, num0 + i, ts[i]) for i in range(n)]
    if second and rng.random() < .06:
        add_second(rng, c, es)
    return c, es
