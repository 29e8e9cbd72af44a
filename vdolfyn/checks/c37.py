"""C37: concurrent use.

Several threads read recordings, load MATLAB files, rotate and analyse.  What each job gives alone is recorded first; then
the jobs run at once under a scheduler that hands the interpreter over at entries to (and, in part of the cases, at lines of)
the code under test, chosen by a seeded generator, and every result is compared with the one recorded.  The order in which the
threads entered the code under test is the observed interleaving."""
import hashlib
import os
import sys
import threading
import time
import warnings
import numpy as np
import dolfyn
from dolfyn.adp.api import ADPBinner
from dolfyn.adv.api import ADVBinner
from .. import synth, enc_nortek as EN
from ..core import digest, same_value, describe_change, _copy, REPO
from .c09 import recording
from .c31 import build_ops

RULE = ('2-6 threads run 1-4 jobs each (reading recordings of five families, own or shared files, with and without the index of a Signature file; loading MATLAB files; walks through the frames; '
        'analyses of one shared dataset with one shared binner) with the interpreter handed over at seeded points; every result is that of the same job run alone, shared datasets and binners stay as they were. '
        'Non-trivial: the threads alternated at least 10 times.')
FILES = ['dolfyn/io/api.py', 'dolfyn/io/base.py', 'dolfyn/io/rdi.py', 'dolfyn/io/nortek.py', 'dolfyn/io/nortek2.py', 'dolfyn/io/nortek2_lib.py',
         'dolfyn/rotate/api.py', 'dolfyn/velocity.py', 'dolfyn/binned.py', 'dolfyn/tools/psd.py']
EXT = dict(rdi='.000', vector='.VEC', awac='.wpr', signature='.ad2cp', vectrino='.vno')
LIMIT = 240


class Sched:
    """Hands the interpreter over while threads are in the code under test."""

    def __init__(self, seed, p, lines):
        self.p, self.lines, self.seed = p, lines, seed
        self.log = []
        self.root = os.path.join(REPO, 'dolfyn') + os.sep

    def tracer(self, k):
        r = np.random.default_rng([self.seed, k])
        pool = iter(r.random(4096))
        root, log, p = self.root, self.log, self.p

        def draw():
            nonlocal pool
            x = next(pool, None)
            if x is None:
                pool = iter(r.random(4096))
                x = next(pool)
            return x

        def line(frame, ev, arg):
            if ev == 'line' and draw() < p * .2:
                log.append(k)
                time.sleep(0 if draw() < .7 else 1e-5)
            return line

        def call(frame, ev, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            log.append(k)
            if draw() < p:
                time.sleep(0 if draw() < .5 else 5e-5)
            return line if self.lines else None
        return call

    def switches(self):
        x = np.array(self.log)
        return int((np.diff(x) != 0).sum()) if len(x) > 1 else 0

    def order(self):
        x = np.array(self.log, 'u1')
        if len(x):
            x = x[np.r_[True, np.diff(x.astype(int)) != 0]]
        return hashlib.blake2b(x.tobytes(), digest_size=8).hexdigest()


def outcome(f):
    try:
        return f()
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e)


def alike(a, b):
    return type(a) is type(b) and (a == b if isinstance(a, str) else digest(a) == digest(b) or same_value(a, b))


def at_once(ctx, lists, seed, p, lines):
    """lists: per thread the list of jobs -> per thread the list of results"""
    S = Sched(seed, p, lines)
    res = [[None] * len(l) for l in lists]
    gate = threading.Barrier(len(lists))

    def work(k):
        gate.wait()
        sys.settrace(S.tracer(k))
        try:
            for j, f in enumerate(lists[k]):
                res[k][j] = outcome(f)
        finally:
            sys.settrace(None)
    T = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(lists))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    end = time.monotonic() + LIMIT
    try:
        for t in T:
            t.start()
        for t in T:
            t.join(max(0., end - time.monotonic()))
    finally:
        sys.setswitchinterval(old)
    ctx.check(not any(t.is_alive() for t in T), 'threads:blocked', lambda: 'threads had not ended after %d s' % LIMIT)
    ctx.count('entries-into-the-code', len(S.log))
    ctx.count('thread-switches', S.switches())
    ctx.interleavings.add(S.order())
    ctx.events += len(S.log)
    return res, S


def judge(ctx, lists, alone, mech, rng, lines=None):
    names = [[n for n, _ in l] for l in lists]
    seed, p = int(rng.integers(2 ** 31)), float(rng.choice([.05, .3, 1.]))
    lines = bool(rng.random() < .4) if lines is None else lines
    res, S = at_once(ctx, [[f for _, f in l] for l in lists], seed, p, lines)
    for k, l in enumerate(lists):
        for j, (n, _) in enumerate(l):
            a, b = alone[k][j], res[k][j]
            why = lambda: '' if isinstance(a, str) or isinstance(b, str) else describe_change(a, b)
            ctx.check(alike(a, b), mech + ':' + n.split(':')[0], lambda: '%s in a thread beside %s: %s, alone %s %s' % (
                n, [x for i, y in enumerate(names) for x in y if i != k], b if isinstance(b, str) else type(b).__name__, a if isinstance(a, str) else type(a).__name__, str(why())[:300]))
    ctx.count('results-compared', sum(map(len, lists)))
    return S




def run(ctx):
    ctx.interleavings = set()
    warnings.simplefilter('ignore')
    # ------------------------------------------------------------------ readers
    for rng in ctx.cases('read', ctx.n(28, 400)):
        P = EN.pick(rng)
        nth = int(rng.integers(2, 6))
        same = bool(rng.random() < .35)
        fams, files = [], []
        bases = []
        one = P('rdi', 'vector', 'awac', 'signature') if rng.random() < .5 else None
        for k in range(1 if same else nth):
            fam = one or P('rdi', 'vector', 'awac', 'signature', 'vectrino')
            b = b''.join(EN.rand_vectrino(rng)[2]) if fam == 'vectrino' else recording(rng, fam)[1]
            f = ctx.tmp(EXT[fam])
            with open(f, 'wb') as h:
                h.write(b)
            fams.append(fam)
            files.append(f)
            bases.append(b)
        if same:
            fams, files = fams * nth, files * nth
        indexed = bool(rng.random() < .4)
        kws = [dict(nens=int(rng.integers(1, 5))) if rng.random() < .2 else {} for _ in files]
        with ctx.observe('read', dict(families=fams, same=same, indexed=indexed, options=kws, head=[b[:24].hex() for b in bases])):
            lists = [[('read:%s' % fam, lambda f=f, kw=kw: dolfyn.read(f, userdata=False, **kw))] for fam, f, kw in zip(fams, files, kws)]
            alone = [[outcome(l[0][1])] for l in lists]
            if not indexed:
                for f in set(files):
                    if os.path.exists(f + '.index'):
                        os.unlink(f + '.index')
            judge(ctx, lists, alone, 'read' + ('-same' if same else ''), rng, lines=bool(rng.random() < .15))
            for f, b in zip(files, bases):
                with open(f, 'rb') as h:
                    ctx.check(h.read() == b, 'read:file-changed', 'the recording was changed')
            if 'signature' in fams:
                # whatever index is there now is a good one
                again = [[outcome(l[0][1])] for l in lists]
                ctx.check(all(alike(a[0], b[0]) for a, b in zip(alone, again)), 'read:index-left-behind', 'after the threads, reading alone gives another result')
    # ------------------------------------------------------------------ loading (netCDF's library and scipy's writer of MATLAB files are not made for threads)
    for rng in ctx.cases('load', ctx.n(10, 150)):
        nth = int(rng.integers(2, 5))
        lists = []
        for k in range(nth):
            ds = synth.make(rng, str(rng.choice(synth.KINDS)), nt=int(rng.integers(5, 40)), nr=4)
            f = ctx.tmp('.mat')
            dn = bool(rng.random() < .6)

            dolfyn.save_mat(ds, f, datenum=dn)
            lists.append([('load:mat', lambda f=f, dn=dn: dolfyn.load_mat(f, datenum=dn))] * int(rng.integers(1, 3)))
        with ctx.observe('load', dict(jobs=[l[0][0] for l in lists], n=nth, s=int(rng.integers(1e9)))):
            alone = [[outcome(f) for _, f in l] for l in lists]
            judge(ctx, lists, alone, 'load', rng, lines=False)
    # ------------------------------------------------------------------ walks of separate datasets
    for rng in ctx.cases('rotate', ctx.n(30, 500)):
        nth = int(rng.integers(2, 7))
        lists = []
        for k in range(nth):
            kind = str(rng.choice(synth.KINDS))
            ds = synth.make(rng, kind, nt=int(rng.integers(2, 60)), nr=3, coord_sys='inst', orientmat=bool(rng.random() < .5) or kind == 'awac')
            walk = [str(f) for f in rng.choice(['beam', 'inst', 'earth', 'principal'], int(rng.integers(2, 6)))]
            dec = float(rng.uniform(-30, 30))
            how = str(rng.choice(['inplace', 'copy', 'accessor']))

            def job(ds=ds, walk=walk, dec=dec, how=how):
                d = _copy(ds)
                for i, fr in enumerate(walk):
                    if i == 1:
                        dolfyn.set_declination(d, dec)
                    if how == 'inplace':
                        dolfyn.rotate2(d, fr)
                    elif how == 'copy':
                        d = dolfyn.rotate2(d, fr, inplace=False)
                    else:
                        d.velds.rotate2(fr)
                return d
            lists.append([('walk:' + kind, job)] * int(rng.integers(1, 3)))
        with ctx.observe('rotate', dict(jobs=[l[0][0] for l in lists], s=int(rng.integers(1e9)))):
            alone = [[outcome(f) for _, f in l] for l in lists]
            judge(ctx, lists, alone, 'rotate', rng)
    # ------------------------------------------------------------------ analyses of a shared dataset with a shared binner
    for rng in ctx.cases('shared', ctx.n(36, 600)):
        adv = bool(rng.integers(2))
        kind = str(rng.choice(['vector_imu', 'vector'] if adv else ['signature', 'rdi', 'awac']))
        nb, k = int(rng.integers(24, 64)), int(rng.integers(2, 5))
        nt = nb * k + int(rng.integers(nb))
        fs = 8.
        ds = synth.make(rng, kind, nt=nt, nr=6, coord_sys=str(rng.choice(['inst', 'earth', 'beam'])), fs=fs)
        ds.attrs['beam_angle'] = 25
        ds.attrs['cell_size'] = .5
        ds['depth'] = ('time', rng.uniform(1, 4, nt))
        ds['corr'].attrs['units'] = '%'
        if adv:
            ds.attrs['inst2head_vec'] = [.1, .2, .3]
        ds = _copy(ds)
        b = (ADVBinner if adv else ADPBinner)(nb, fs, **(dict(n_fft=int(rng.integers(8, nb + 1))) if rng.random() < .5 else {}))
        nth = int(rng.integers(2, 6))
        jobs = [build_ops(rng, ds, nb, fs, adv) for _ in range(nth)]
        lists = []
        for o in jobs:
            pick = [o[int(i)] for i in rng.integers(0, len(o), int(rng.integers(1, 4)))]
            if rng.random() < .3 and lists:
                lists.append(list(lists[0]))
                continue
            lists.append([(n, lambda f=f: f(ds, b)) for n, f in pick])
        with ctx.observe('shared', dict(kind=kind, nb=nb, nt=nt, jobs=[[n for n, _ in l] for l in lists], vel=ds['vel'].values)):
            d0, b0 = digest(ds), digest(vars(b))
            alone = [[outcome(f) for _, f in l] for l in lists]
            judge(ctx, lists, alone, 'analysis', rng)
            ctx.check(digest(ds) == d0, 'analysis:dataset-changed', 'the shared dataset was changed')
            ctx.check(digest(vars(b)) == b0, 'analysis:binner-changed', 'the shared binner was changed')
    ctx.count('distinct-interleavings', len(ctx.interleavings))
