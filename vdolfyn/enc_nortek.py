"""Independent encoder of classic Nortek (Vector, AWAC, Vectrino) recordings, from the
record layouts of the System Integrator manual, and the values a correct decoder
must report for them."""
import datetime as D
import struct
import numpy as np


class Cfg:
    pass


def pick(rng):
    return lambda *a: a[int(rng.integers(len(a)))]


def checksum(b):
    return (0xb58c + sum(struct.unpack('<%dH' % (len(b) // 2), b))) & 0xffff


def rec(id, body, size=True):
    """A record: sync, id, [size in words], body, checksum."""
    if size:
        n = 6 + len(body)
        fill = n % 2
        b = b'\xa5' + bytes([id]) + struct.pack('<H', (n + fill) // 2) + body + bytes(fill)
    else:
        b = b'\xa5' + bytes([id]) + body
    return b + struct.pack('<H', checksum(b))


def bcd(x):
    return (x // 10) << 4 | x % 10


def clock(t):
    return bytes(bcd(x) for x in (t.minute, t.second, t.day, t.hour, t.year % 100, t.month))


AXES = ['ENU', 'XYZ', 'beam']
CS = dict(ENU='earth', XYZ='inst', beam='beam')


def rand_cfg(rng, kind):
    P = pick(rng)
    c = Cfg()
    c.kind = kind
    c.axes = int(rng.integers(3))
    c.scale = int(rng.integers(2))           # 0: mm/s, 1: 0.1 mm/s
    c.timctrl, c.mode0, c.mode1 = int(rng.integers(0, 2 ** 16)), int(rng.integers(0, 2 ** 16)) & ~16 | c.scale << 4, int(rng.integers(0, 2 ** 16))
    if kind != 'ADV':
        c.scale = 0
        c.mode0 &= ~16
    c.pwr, c.test = int(rng.integers(0, 2 ** 16)), int(rng.integers(0, 2 ** 16))
    c.headcfg, c.hwstatus = int(rng.integers(0, 2 ** 16)), int(rng.integers(0, 2 ** 16))
    c.freq = dict(ADV=int(P(6000, 10000)), AWAC=int(P(400, 600, 1000, 2000)), VNO=10000)[kind]
    c.serial = dict(ADV='VEC', AWAC='WPR', VNO='VNO')[kind] + ' %04d' % rng.integers(0, 10000)
    nb = c.nb = 4 if kind == 'VNO' else 3
    m = rng.integers(-6000, 6001, (nb, nb))
    m[range(nb), range(nb)] += 12000         # well conditioned
    c.T = m
    c.fs = dict(ADV=int(P(1, 2, 4, 8, 16, 32, 64)), AWAC=None, VNO=int(P(1, 8, 10, 25, 50, 100, 200)))[kind]
    c.avg = dict(ADV=512 // (c.fs or 1), AWAC=int(P(1, 2, 10, 60, 600)), VNO=50000 // (c.fs or 1))[kind]
    c.nbins = int(P(1, 2, 3, int(rng.integers(4, 40)), 128)) if kind == 'AWAC' else 1
    c.binlen, c.blank = int(rng.integers(100, 5000)), int(rng.integers(5, 200))
    c.npings, c.compass, c.ana = int(rng.integers(0, 100)), int(rng.integers(1, 10)), int(rng.integers(0, 2 ** 16))
    c.sw, c.sal = int(rng.integers(10000, 19999)), int(rng.integers(0, 400))
    c.wproc, c.dyn, c.wcell, c.nwave = int(rng.integers(5)), int(rng.integers(0, 32768)), int(rng.integers(0, 2 ** 16)), int(rng.integers(0, 2 ** 16))
    c.name, c.comment = P('', 'dep1', 'abcdef'), P('', 'a comment', 'x' * 80)
    c.wrap = int(rng.integers(2))
    c.n_burst, c.meas = 0, int(P(60, 600, 3600))
    c.pic, c.hwrev, c.recsz = (int(x) for x in rng.integers(0, 2000, 3))
    c.fw, c.prolog = P('3.40', '1.13'), P('4.0 ', '1.31')
    c.imu = None
    return c


def head(c):
    """The three configuration records."""
    hw = rec(5, c.serial.encode() + bytes([7, 0]) + c.prolog.encode() + struct.pack('<6H', 4, 128, c.pic, c.hwrev, c.recsz, c.hwstatus) + bytes(12) + c.fw.encode())
    assert len(hw) == 48
    system = bytearray(176)
    system[8:8 + 2 * c.nb ** 2] = np.ascontiguousarray(c.T, '<i2').tobytes()
    hd = rec(4, struct.pack('<3H', c.headcfg, c.freq, 1) + b'HEAD00000001' + bytes(system) + bytes(22) + struct.pack('<H', c.nb))
    assert len(hd) == 224
    u = bytearray(512)

    def put(o, fmt, *a):
        struct.pack_into('<' + fmt, u, o, *a)
    put(0, 'BBH', 0xa5, 0, 256)
    put(4, '5H', 11, c.blank, 13, 14, 15)
    put(14, '6H', c.npings, c.avg, c.nb, c.timctrl, c.pwr, 1)
    put(26, '6H', 2, 3, c.compass, c.axes, c.nbins, c.binlen)
    put(38, 'H6sH', c.meas, c.name.encode(), c.wrap)
    put(48, '6s', clock(D.datetime(2020, 1, 2, 3, 4, 5)))
    put(54, 'I', 123456)
    put(58, '9H', c.mode0, 17, 18, 19, 20, c.test, c.ana, c.sw, c.sal)
    put(76, '90H', *range(1000, 1090))
    put(256, '80s', c.comment.encode())
    put(384, 'H', c.wproc)
    put(436, '6H', c.mode1, c.dyn, 21, 22, c.wcell, c.nwave)
    put(452, 'H', c.n_burst)
    put(456, '2H', 23, 24)
    put(462, 'H', 25)
    put(494, '8H', *range(8))
    put(510, 'H', checksum(bytes(u[:510])))
    return hw + hd + bytes(u)


def attrs(c):
    bit = lambda v, i: v >> i & 1
    yn = ['no', 'yes']
    a = dict(inst_make='Nortek', inst_model=dict(ADV='Vector', AWAC='AWAC', VNO='Vectrino')[c.kind], inst_type='ADCP' if c.kind == 'AWAC' else 'ADV',
             coord_sys=CS[AXES[c.axes]], n_beams=c.nb, profile_mode=['single', 'continuous'][bit(c.timctrl, 1)], burst_mode=str(not bit(c.timctrl, 2)),
             power_level=bit(c.timctrl, 5) + 2 * bit(c.timctrl, 6) + 1, sync_out_pos=['middle', 'end'][bit(c.timctrl, 7)],
             sample_on_sync=str(bool(bit(c.timctrl, 8))), start_on_sync=str(bool(bit(c.timctrl, 9))), compass_update_rate=c.compass, n_bins=c.nbins,
             deployment_name=c.name, wrap_mode=str(bool(c.wrap)), analog_in=c.ana, software_version='%s.%s.%s' % (str(c.sw)[0], str(c.sw)[1:3], str(c.sw)[3:]),
             salinity=c.sal / 10, comments=c.comment, user_specified_sound_speed=str(bool(bit(c.mode0, 0))), analog_output=str(bool(bit(c.mode0, 2))),
             output_format=['Vector', 'ADV'][bit(c.mode0, 3)], serial_output=str(bool(bit(c.mode0, 5))), power_output_analog=str(bool(bit(c.mode0, 8))),
             pressure_sensor=yn[bit(c.headcfg, 0)], compass=yn[bit(c.headcfg, 1)], tilt_sensor=yn[bit(c.headcfg, 2)], carrier_freq_kHz=c.freq,
             serial_number=c.serial, ProLogFWver=c.prolog, PIC_version=c.pic, hardware_rev=c.hwrev, recorder_size_bytes=c.recsz * 65536,
             vel_range=['normal', 'high'][bit(c.hwstatus, 0)], firmware_version=c.fw)
    if c.kind == 'AWAC':
        a.update(avg_interval=c.avg, wave_mode=['Disabled', 'Enabled'][bit(c.mode0, 1)], wave_processing_method=['PUV', 'SUV', 'MLM', 'MLMST', 'None'][c.wproc],
                 prc_dyn_wave_cell_pos=int(c.dyn / 32767 * 100), wave_cell_size=c.wcell, n_samples_wave=c.nwave, wave_fs=['1 Hz', '2 Hz'][bit(c.mode1, 0)],
                 wave_cell_position=['fixed', 'dynamic'][bit(c.mode1, 1)], fs=1. / c.avg)
    else:
        a.update(n_pings_per_burst=c.npings, fs=float(c.fs))
    if c.n_burst:
        a.update(duty_cycle_n_burst=c.n_burst, duty_cycle_interval=c.meas)
    return a


# ---------------------------------------------------------------- Vector
def vec_sample(rng, i):
    P = pick(rng)
    return dict(count=i & 255, ana=[int(x) for x in rng.integers(0, 256, 2)], ana1=int(rng.integers(0, 2 ** 16)),
                p=int(P(int(rng.integers(0, 65536)), int(rng.integers(65536, 2 ** 24)))), vel=rng.integers(-32768, 32768, 3), amp=rng.integers(0, 256, 3), corr=rng.integers(0, 101, 3))


def vec_data(s):
    return rec(0x10, struct.pack('<4B2H', s['ana'][0], s['count'], s['p'] >> 16, s['ana'][1], s['p'] & 0xffff, s['ana1'])
               + np.asarray(s['vel'], '<i2').tobytes() + np.asarray(s['amp'], 'u1').tobytes() + np.asarray(s['corr'], 'u1').tobytes(), size=False)


def vec_sys(s):
    return rec(0x11, clock(s['t']) + struct.pack('<2H4h2BH', s['batt'], s['c'], s['heading'], s['pitch'], s['roll'], s['temp'], s['error'], s['status'], s['ana']))


def vec_check(rng, n=None):
    n = n or 2 * int(rng.integers(1, 30))
    return rec(7, struct.pack('<2H', n, 3) + bytes(rng.integers(0, 256, 3 * n, 'uint8')))


def vec_hdr(t, n):
    return rec(0x12, clock(t) + struct.pack('<H7B', n, 1, 2, 3, 0, 4, 5, 6) + bytes(21))


def imu_rand(rng, kind):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                  [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    f = lambda: rng.normal(size=3).astype('f4')
    return dict(accel=f(), angrt=f(), mag=f(), R=R.astype('f4'))


IMU = {'ahrs195': 195, 'ahrs204': 204, 'ahrs211': 211}


def imu_rec(kind, i, m):
    F = lambda *a: np.concatenate([np.ravel(x) for x in a]).astype('<f4').tobytes()
    b = struct.pack('<BB', i & 255, IMU[kind])
    if kind == 'ahrs195':
        b += F(m['angrt'], m['accel'], m['R']) + bytes(4)
    elif kind == 'ahrs204':
        b += F(m['accel'], m['angrt'], m['mag'], m['R']) + bytes([1, 2, 3, 4, 5, 6])
    else:
        b += F(m['angrt'], m['accel'], m['mag']) + bytes([1, 2, 3, 4, 5, 6])
    return rec(0x71, b)


def imu_expected(kind, m, fs):
    """The Microstrain unit sits with its axes (-z, y, x) along the Vector's x, y, z and
    reports north-east-down; the dataset is in the Vector's axes and east-north-up."""
    S = np.array([[0, 0, -1.], [0, 1, 0], [1, 0, 0]])
    NED = np.array([[0, 1., 0], [1, 0, 0], [0, 0, -1]])
    k = fs if kind in ('ahrs195', 'ahrs211') else 1.
    x = dict(accel=S @ m['accel'].astype(float) * 9.80665 * k, angrt=S @ m['angrt'].astype(float) * k)
    if kind != 'ahrs195':
        x['mag'] = S @ m['mag'].astype(float)
    if kind != 'ahrs211':
        x['orientmat'] = S @ m['R'].astype(float) @ NED.T
    return x


def sys_rand(rng, t, last=None):
    P = pick(rng)
    walk = P(0, 1)
    s = dict(t=t, batt=int(rng.integers(80, 160)), c=int(rng.integers(14000, 16000)), heading=int(rng.integers(0, 3600)), pitch=int(rng.integers(-899, 900)),
             roll=int(rng.integers(-1800, 1801)), temp=int(rng.integers(-400, 4000)), error=int(rng.integers(0, 256)), status=int(rng.integers(0, 256)), ana=int(rng.integers(0, 2 ** 16)))
    if last is not None and walk:
        s['heading'] = (last['heading'] + int(rng.integers(-100, 101))) % 3600
        s['status'] = last['status']
    if last is not None and abs(s['heading'] - last['heading']) == 1800:
        s['heading'] = (s['heading'] + 1) % 3600     # either way around is as short
    return s


def rand_clock(rng):
    P = pick(rng)
    if rng.random() < .4:
        return P(D.datetime(2024, 2, 28, 23, 59, 50), D.datetime(1999, 12, 31, 23, 59, 55), D.datetime(2012, 2, 29, 23, 59, 55), D.datetime(2000, 2, 28, 23, 59, 57))
    return D.datetime(1990, 1, 1) + D.timedelta(seconds=int(rng.integers(0, 99 * 365 * 86400)))


def rand_vector(rng, n=None, imu=None, c=None, n_sec=None):
    """-> cfg, samples (each with time), system records as (sample index, rec), bytes chunks."""
    P = pick(rng)
    c = c or rand_cfg(rng, 'ADV')
    c.imu = imu if imu is not None else P(None, None, 'ahrs195', 'ahrs204', 'ahrs211')
    c.n_burst = int(P(0, 0, c.fs * int(rng.integers(4, 12)))) if c.fs >= 2 else 0
    t0 = rand_clock(rng)
    c.n_check = 2 * int(rng.integers(1, 30))
    samples, systems, chunks = [], [], []
    if c.n_burst:
        nb = int(rng.integers(1, 4))
        bursts = [(t0 + D.timedelta(seconds=k * (c.n_burst // c.fs + int(rng.integers(0, 100)) * 0 + 60)), c.n_burst) for k in range(nb)]
    else:
        bursts = [(t0, n or c.fs * (n_sec or int(rng.integers(4, 20))) + int(rng.integers(0, c.fs)))]
    last = None
    for tb, ns in bursts:
        chunks.append(vec_check(rng, c.n_check))
        chunks.append(vec_hdr(tb, ns & 0xffff))
        for j in range(ns):
            i = len(samples)
            if j % c.fs == 0:
                last = sys_rand(rng, tb + D.timedelta(seconds=j // c.fs), last)
                systems.append((i, last))
                chunks.append(vec_sys(last))
            s = vec_sample(rng, i)
            s['t'] = tb + D.timedelta(seconds=j / c.fs)
            b = vec_data(s)
            if c.imu:
                s['imu'] = imu_rand(rng, c.imu)
                b += imu_rec(c.imu, i, s['imu'])
            samples.append(s)
            chunks.append(b)
    return c, samples, systems, [head(c)] + chunks


# ---------------------------------------------------------------- AWAC
def awac_rand(rng, c, t):
    P = pick(rng)
    n = c.nb * c.nbins
    return dict(t=t, error=int(rng.integers(0, 2 ** 16)), ana=int(rng.integers(0, 2 ** 16)), batt=int(rng.integers(80, 160)), c=int(rng.integers(14000, 16000)),
                heading=int(rng.integers(0, 3600)), pitch=int(rng.integers(-899, 900)), roll=int(rng.integers(-1800, 1801)),
                p=int(P(int(rng.integers(0, 65536)), int(rng.integers(65536, 2 ** 24)))), status=int(rng.integers(0, 256)), temp=int(rng.integers(-400, 4000)),
                vel=rng.integers(-32768, 32768, (c.nb, c.nbins)), amp=rng.integers(0, 256, (c.nb, c.nbins)))


def awac_rec(c, s):
    b = clock(s['t']) + struct.pack('<4H3hBBHh', s['error'], s['ana'], s['batt'], s['c'], s['heading'], s['pitch'], s['roll'], s['p'] >> 16, s['status'], s['p'] & 0xffff, s['temp'])
    b += bytes(88) + np.ascontiguousarray(s['vel'], '<i2').tobytes() + np.ascontiguousarray(s['amp'], 'u1').tobytes()
    return rec(0x20, b)


def awac_range(c):
    coef = {2000: .0239, 1000: .0478, 600: .0797, 400: .1195}[c.freq]
    cs = round(c.binlen / 256. * coef * np.cos(np.deg2rad(25)), 2)
    bd = round(c.blank * .0229 * np.cos(np.deg2rad(25)) - cs, 2)
    return cs, bd, (np.arange(c.nbins) + 1) * cs + bd


def rand_awac(rng, n=None):
    P = pick(rng)
    c = rand_cfg(rng, 'AWAC')
    if rng.random() < .3:
        c.n_burst = int(rng.integers(1, 100))
    n = n or int(P(1, 2, 3, int(rng.integers(4, 20)), 60))
    t0, step = rand_clock(rng), int(P(1, 60, 600, 3600, 86400))
    S = [awac_rand(rng, c, t0 + D.timedelta(seconds=i * step)) for i in range(n)]
    return c, S, [head(c)] + [awac_rec(c, s) for s in S]


# ---------------------------------------------------------------- Vectrino
def vno_rand(rng, i):
    return dict(status=int(rng.integers(0, 256)), count=i & 255, vel=rng.integers(-32768, 32768, 4), amp=rng.integers(0, 256, 4), corr=rng.integers(0, 101, 4))


def vno_rec(s):
    return rec(0x51, bytes([s['status'], s['count']]) + np.asarray(s['vel'], '<i2').tobytes() + np.asarray(s['amp'], 'u1').tobytes() + np.asarray(s['corr'], 'u1').tobytes(), size=False)


def vno_event(t):
    return rec(0x0f, clock(t) + bytes(14))


def vno_hdr(rng=None):
    if rng is not None:
        return rec(0x50, bytes(rng.integers(0, 256, 36, 'uint8')))
    return rec(0x50, struct.pack('<Hh2H8BhH16B', 100, 1, 2, 3, *range(8), 2000, 15000, *range(16)))


def vno_check(rng):
    n = int(rng.integers(20, 80))
    return rec(7, struct.pack('<5H', n, 1, 0, 0, 0) + bytes(rng.integers(0, 256, 4 * n, 'uint8')))


def rand_vectrino(rng, n=None):
    c = rand_cfg(rng, 'VNO')
    t0 = rand_clock(rng)
    n = n or int(rng.integers(2, 200))
    S = [vno_rand(rng, i) for i in range(n)]
    for i, s in enumerate(S):
        s['t'] = t0 + D.timedelta(seconds=i / c.fs)
    R = [vno_rec(s) for s in S]
    if rng.random() < .4:
        # a probe check, at the start or between samples
        j = int(rng.integers(0, n)) if rng.random() < .5 else 0
        R[j] = vno_check(rng) + R[j]
    return c, S, [head(c), vno_event(t0), vno_hdr()] + R
