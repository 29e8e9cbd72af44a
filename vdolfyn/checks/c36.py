"""C36: the installed command-line scripts do what the library does."""
import contextlib
import hashlib
import io
import json
import os
import runpy
import subprocess
import sys
import numpy as np
import dolfyn
from dolfyn.adv.motion import correct_motion
from .. import enc_nortek as EN
from .c08 import recording
from .c10 import same_dataset
from .c11 import compare

RULE = ('binary2mat.py is run on recordings of four families and motcorrect_vector.py on Vector recordings, with every option, one or several files, names that end in letters of the extension, with several dots or none, relative and absolute paths; '
        'the files written are compared with what read, correct_motion, save_mat and save give, the angles with the orientation matrix and the file names with the recording\'s; the folder is watched for any other change. Non-trivial: more than one file or an option.')
FILES = ['dolfyn/io/api.py', 'dolfyn/adv/motion.py', 'scripts/binary2mat.py', 'scripts/motcorrect_vector.py']
SCRIPTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(dolfyn.__file__))), 'scripts')
EXT = dict(rdi=['.000', '.PD0', '.ENX'], vector=['.VEC', '.vec'], awac=['.wpr', '.WPR'], signature=['.ad2cp'])
NAMES = ['tidal', 'CV', 'vec', 'wpr', 'pp.PD0', 'a.b', 'mcrl.2020-08-13.1500', 'E.V', '\u00e9t\u00e9', 'my data', 'dec', 'mat', 'ctd2cpa', 'x', '0', '000', 'a_b-c', 'cve.vec', 'nc']


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h:
                out[os.path.relpath(os.path.join(p, f), d)] = hashlib.blake2b(h.read()).hexdigest()
    return out


def script(ctx, name, args, cwd, real=False):
    """Run the script; in this interpreter, or as a process of its own."""
    f = os.path.join(SCRIPTS, name)
    ctx.events += 2
    ctx.count('script:' + name)
    if real:
        p = subprocess.run([sys.executable, '-W', 'ignore', f] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode:
            raise RuntimeError('exit status %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-400:]))
        return
    was, argv = os.getcwd(), sys.argv
    os.chdir(cwd)
    sys.argv = [f] + args
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) as err:
            runpy.run_path(f, run_name='__main__')
    except SystemExit as e:
        if e.code:
            raise RuntimeError('exit status %s: %s' % (e.code, err.getvalue()[-300:]))
    finally:
        os.chdir(was)
        sys.argv = argv


def placed(rng, d, k):
    """folder of the file on disk, the folder as typed"""
    q = int(rng.integers(6))
    sub = ['', '', 'sub', 'd.1', 'deep/er.x', ''][q]
    os.makedirs(os.path.join(d, 'here', sub), exist_ok=True)
    typed = ['', './', 'sub/', 'd.1/', './deep/er.x/', os.path.join(d, 'here') + '/'][q]
    return os.path.join(d, 'here', sub), typed


def stem(f):
    return f.rsplit('.', 1)[0] if '.' in os.path.basename(f)[1:] else f


def changed(ctx, d, before, want, mech):
    now = tree(d)
    ctx.check(all(now.get(k) == v for k, v in before.items()), mech + ':inputs', lambda: 'changed or removed: %s' % [k for k, v in before.items() if now.get(k) != v])
    new = {k for k in now if k not in before and not k.endswith('.index')}
    want = {os.path.relpath(w, d) for w in want}
    ctx.check(new == want, mech + ':names', lambda: 'wrote %s, expected %s' % (sorted(new), sorted(want)))


def tomat(ctx):
    for rng in ctx.cases('binary2mat', ctx.n(24, 300)):
        d = ctx.tmp('')
        os.makedirs(d)
        files = []
        names = [str(x) for x in rng.permutation(NAMES)]
        for k in range(int(rng.choice([1, 1, 2, 3]))):
            fam, b = recording(rng)
            p, typed = placed(rng, d, k)
            nm = names[k] + str(rng.choice(EXT[fam] + ['', '.txt'] if rng.random() < .3 else EXT[fam]))
            with open(os.path.join(p, nm), 'wb') as h:
                h.write(b)
            if fam != 'vector' and rng.random() < .3:
                with open(stem(os.path.join(p, nm)) + '.userdata.json', 'w') as h:
                    json.dump(dict(site='here', latitude=float(k)), h)
            files.append((fam, os.path.join(p, nm), typed + nm))
        real = rng.random() < .1
        with ctx.observe('binary2mat', dict(files=[(f[0], f[2]) for f in files], process=real), nontrivial=len(files) > 1):
            want = []
            for fam, f, t in files:
                ds = dolfyn.read(f)
                ref = ctx.tmp('.mat')
                dolfyn.save_mat(ds, ref, datenum=True)
                want.append(dolfyn.load_mat(ref, datenum=True))
            before = tree(d)
            script(ctx, 'binary2mat.py', [t for _, _, t in files], os.path.join(d, 'here'), real)
            changed(ctx, d, before, [stem(f) + '.mat' for _, f, _ in files], 'binary2mat')
            for (fam, f, t), w in zip(files, want):
                compare(ctx, dolfyn.load_mat(stem(f) + '.mat', datenum=True), w, True, 'binary2mat')


def vec(rng, imu):
    while 1:
        c, S, sy, ch = EN.rand_vector(rng, n_sec=int(rng.integers(4, 20)), imu=imu)
        if c.n_burst or c.fs < 4 or c.fs > 16:
            continue
        if imu and rng.random() < .95 and c.axes not in (0, 1):
            continue
        return c, S, b''.join(ch)


def wanted(ctx, f, fixed, freq):
    """The library calls the script stands for."""
    ds = dolfyn.read(f)
    if fixed:
        dolfyn.set_inst2head_rotmat(ds, np.eye(3, dtype='f4'))
        ds.attrs['inst2head_vec'] = np.array([0, 0, -.21])
    r = correct_motion(ds, accel_filtfreq=freq)
    O = r['orientmat'].values.astype(float)
    ang = dict(heading=np.rad2deg(np.arctan2(O[0, 0], O[0, 1])) % 360, pitch=np.rad2deg(np.arcsin(np.clip(O[0, 2], -1, 1))),
               roll=np.rad2deg(np.arctan2(O[1, 2], O[2, 2])))
    return r, ang


def angles(ctx, got, ang, mech):
    for k, v in ang.items():
        e = np.abs((np.asarray(got[k], float) - v + 180) % 360 - 180).max()
        ctx.check(e < .05, mech + ':' + k, lambda: '%s is off the orientation matrix by %g degrees' % (k, e))


def moved(ctx):
    rot = ['identity', [[0, 0, -1], [0, -1, 0], [-1, 0, 0]], [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]]]
    for rng in ctx.cases('motcorrect', ctx.n(24, 300)):
        d = ctx.tmp('')
        os.makedirs(d)
        names = [str(x) for x in rng.permutation(NAMES)]
        fixed = bool(rng.random() < .5)
        files = []
        for k in range(int(rng.choice([1, 1, 1, 2]))):
            c, S, b = vec(rng, 'ahrs' + str(rng.choice(['195', '204', '211'])))
            p, typed = placed(rng, d, k)
            nm = names[k] + str(rng.choice(EXT['vector']))
            with open(os.path.join(p, nm), 'wb') as h:
                h.write(b)
            u = {}
            if rng.random() < .3:
                u['declination'] = float(rng.integers(-30, 30))
            if not fixed:
                u.update(inst2head_rotmat=rot[int(rng.integers(3))])
            if not fixed or rng.random() < .3:
                u.update(inst2head_vec=[float(x) for x in rng.integers(-50, 50, 3) / 100.])        # --fixed-head takes precedence
            if u:
                with open(stem(os.path.join(p, nm)) + '.userdata.json', 'w') as h:
                    json.dump(u, h)
            files.append((os.path.join(p, nm), typed + nm))
        args, freq = [], .03333
        if rng.random() < .5:
            freq = float(rng.choice([.05, .1, .2, 0.3333]))
            args += ['-f', repr(freq)]
        mat, nc = [(0, 0), (1, 0), (0, 1), (1, 1)][int(rng.integers(4))]
        args += ['--fixed-head'] * fixed + ['--mat'] * mat + ['--nc'] * nc
        args = [args[0] + args[1]] + args[2:] if args and args[0] == '-f' and rng.random() < .2 else args
        mat = mat or not nc
        real = rng.random() < .1
        with ctx.observe('motcorrect', dict(args=args, files=[t for _, t in files], process=real)):
            want = [wanted(ctx, f, fixed, freq) for f, t in files]
            before = tree(d)
            a = args + [t for _, t in files] if rng.random() < .7 else [t for _, t in files] + args
            script(ctx, 'motcorrect_vector.py', a, os.path.join(d, 'here'), real)
            changed(ctx, d, before, [stem(f) + e for f, _ in files for e in ['.mat'] * bool(mat) + ['.nc'] * nc], 'motcorrect')
            for (f, t), (w, ang) in zip(files, want):
                for ext in ['.mat'] * bool(mat) + ['.nc'] * nc:
                    ref = ctx.tmp(ext)
                    if ext == '.mat':
                        dolfyn.save_mat(w, ref)
                        e, g = dolfyn.load_mat(ref), dolfyn.load_mat(stem(f) + ext)
                        days = 719529 + w['time'].values.astype('M8[ns]').astype('int64') / 86400e9
                        ctx.check('datenum' in g, 'motcorrect:datenum', 'no datenum in the .mat file')
                        ctx.close(g['datenum'], days, 'motcorrect:datenum', 'datenum', rtol=0, atol=2e-9)
                    else:
                        dolfyn.save(w, ref)
                        e, g = dolfyn.load(ref), dolfyn.load(stem(f) + ext)
                    angles(ctx, g, ang, 'motcorrect')
                    drop = ['pitch', 'roll', 'heading', 'datenum']
                    g, e = g.drop_vars([v for v in drop if v in g]), e.drop_vars([v for v in drop if v in e])
                    ctx.check(g.attrs['coord_sys'] == 'earth' and g.attrs['motion corrected'], 'motcorrect:frame', 'coord_sys %r' % g.attrs['coord_sys'])
                    if ext == '.mat':
                        compare(ctx, g, e, True, 'motcorrect')
                    else:
                        same_dataset(ctx, g, e, 'motcorrect')
    for rng in ctx.cases('refused', ctx.n(6, 40)):
        # no head geometry, or half of it: nothing is written
        d = ctx.tmp('')
        os.makedirs(d)
        c, S, b = vec(rng, 'ahrs211')
        f = os.path.join(d, 'a.VEC')
        with open(f, 'wb') as h:
            h.write(b)
        u = [None, dict(inst2head_vec=[0., 0., -.2]), dict(inst2head_rotmat='identity'), dict(declination=3.)][int(rng.integers(4))]
        if u:
            with open(os.path.join(d, 'a.userdata.json'), 'w') as h:
                json.dump(u, h)
        args = ['--nc'] * int(rng.integers(2))
        with ctx.observe('refused', dict(userdata=u, args=args)):
            before = tree(d)
            ctx.expect_raises('refused:accepted', Exception, script, ctx, 'motcorrect_vector.py', args + ['a.VEC'], d)
            changed(ctx, d, before, [], 'refused')
    for rng in ctx.cases('no-imu', ctx.n(5, 40)):
        # no motion sensor: refused, or handed on as it was measured
        d = ctx.tmp('')
        os.makedirs(d)
        c, S, b = vec(rng, '')
        f = os.path.join(d, 'a.vec')
        with open(f, 'wb') as h:
            h.write(b)
        with ctx.observe('no-imu', dict(fs=c.fs, axes=c.axes)):
            raw = dolfyn.read(f)
            before = tree(d)
            try:
                script(ctx, 'motcorrect_vector.py', ['--fixed-head', '--nc', 'a.vec'], d)
            except Exception:
                ctx.count('refused')
                changed(ctx, d, before, [], 'no-imu')
                continue
            g = dolfyn.load(os.path.join(d, 'a.nc'))
            ctx.check(not g.attrs.get('motion corrected') and g.attrs['coord_sys'] == raw.attrs['coord_sys'], 'no-imu:corrected', 'called motion corrected')
            ctx.eq(g['vel'], raw['vel'], 'no-imu:vel', 'velocity')


def run(ctx):
    tomat(ctx)
    moved(ctx)
