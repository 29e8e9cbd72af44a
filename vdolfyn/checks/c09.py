"""C09: reading leaves the recording and everything beside it as it was, is repeatable, leaks no handle and ends, also on damaged input."""
import gc
import os
import resource
import signal
import sys
import warnings
import numpy as np
import dolfyn
from .. import enc_nortek as EN
from .c07 import identical
from .c08 import recording, put, ctx_dir

RULE = ('Intact, truncated, bit-flipped, spliced, zeroed and random-tailed recordings of the four families read twice each (also with debug logs and partial windows) while an audit hook records every file the process opens for writing, removes or renames, '
        'a directory snapshot (bytes, times, inode, mode) is compared before and after, open descriptors are counted, and a timer ends a read that does not end. Non-trivial: the input is damaged or read with options.')
FILES = ['dolfyn/io/api.py', 'dolfyn/io/base.py', 'dolfyn/io/rdi.py', 'dolfyn/io/nortek.py', 'dolfyn/io/nortek2.py', 'dolfyn/io/nortek2_lib.py']

EXT = dict(rdi='.000', vector='.VEC', awac='.wpr', signature='.ad2cp')
LIMIT = 60          # seconds; a read of these files takes a few hundredths

_watch = dict(on=False, events=[])


def _hook(event, args):
    if not _watch['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) if isinstance(flags, int) else any(c in str(mode) for c in 'wax+'):
            _watch['events'].append(('write', os.fsdecode(path)))
        else:
            _watch['events'].append(('read', os.fsdecode(path)))
    elif event in ('os.remove', 'os.rename', 'os.truncate', 'os.mkdir', 'os.rmdir', 'os.link', 'os.symlink', 'os.chmod', 'os.chown', 'os.utime', 'shutil.move', 'shutil.rmtree', 'subprocess.Popen', 'os.system'):
        _watch['events'].append((event,) + tuple(str(a) for a in args[:2]))


_installed = []


class Endless(BaseException):
    pass


def _alarm(*_):
    raise Endless


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(r, x)
            s = os.lstat(p)
            out[p] = (s.st_ino, s.st_mode, s.st_size, s.st_mtime_ns, open(p, 'rb').read() if os.path.isfile(p) else None)
    return out


def fds():
    """Open regular files."""
    out = {}
    for x in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + x)
        except OSError:
            continue
        if os.path.isabs(p) and not p.startswith(('/dev/', '/proc/')):
            out[x] = p
    return out


def watched(ctx, d, f, mech, log=False, **kw):
    """Read f, with every monitor on -> dataset or the exception."""
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    before, open0 = snapshot(d), fds()
    handlers = list(__import__('logging').root.handlers)
    old = signal.signal(signal.SIGALRM, _alarm)
    lim = resource.getrlimit(resource.RLIMIT_AS)
    vm = int(open('/proc/self/statm').read().split()[0]) * 4096
    _watch['events'].clear()
    res, ended = None, True
    try:
        resource.setrlimit(resource.RLIMIT_AS, (vm + (6 << 30), lim[1]))
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
        _watch['on'] = True
        unclosed = []
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                warnings.simplefilter('always', ResourceWarning)
                warnings.showwarning = lambda m, cat, *a, **k: unclosed.append(str(m)) if cat is ResourceWarning else None
                res = dolfyn.read(f, **kw)
                gc.collect()
        except Exception as e:
            res = type(e)('%s' % e) if type(e) in (ValueError, OSError, IndexError, KeyError) else Exception('%s: %s' % (type(e).__name__, e))
        finally:
            _watch['on'] = False
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Endless:
        ended = False
    except BaseException as e:
        res = e
        if isinstance(e, KeyboardInterrupt):
            raise
    finally:
        resource.setrlimit(resource.RLIMIT_AS, lim)
        signal.signal(signal.SIGALRM, old)
    ctx.count('file-events-watched', len(_watch['events']))
    ctx.check(ended, mech + ':endless', lambda: 'reading had not ended after %d s' % LIMIT)
    ctx.check(not isinstance(res, BaseException) or isinstance(res, Exception), mech + ':not-an-exception', lambda: 'reading raised %r' % res)
    # (after an exception the traceback may keep the reader alive)
    ctx.check(not unclosed or isinstance(res, Exception), mech + ':unclosed', lambda: 'left to the garbage collector: %s' % unclosed[:2])
    may = lambda p: p.startswith(f + '.index') or log and p.endswith('.dolfyn.log')
    for ev in list(_watch['events']):
        if ev[0] == 'read':
            continue
        paths = [os.path.abspath(p) for p in ev[1:] if p.startswith(('/', '.')) or os.sep in p]
        ctx.check(ev[0] in ('write', 'os.rename', 'os.remove') and all(may(p) for p in paths), mech + ':writes', lambda: '%s %s' % (ev[0], ev[1:]))
    after = snapshot(d)
    for p in before:
        ctx.check(p in after, mech + ':removed', lambda: '%s is gone' % p)
        if may(p):
            continue
        ctx.check(after[p] == before[p], mech + ':changed', lambda: '%s was changed' % p)
    for p in after:
        ctx.check(p in before or may(p), mech + ':created', lambda: '%s was created' % p)
    gc.collect()
    left = {k: v for k, v in fds().items() if open0.get(k) != v}
    ctx.check(not left, mech + ':handles', lambda: 'still open: %s' % sorted(left.values()))
    import logging
    for h in list(logging.root.handlers):
        if h not in handlers:
            logging.root.removeHandler(h)
    for h in handlers:
        if h not in logging.root.handlers:
            logging.root.addHandler(h)
    return res


def damage(rng, b):
    P = EN.pick(rng)
    b = bytearray(b)
    n = len(b)
    kind = P('truncated', 'truncated', 'flips', 'flips', 'burst', 'cut', 'doubled', 'zeros', 'ones', 'tail', 'swap', 'sizes')
    i = int(rng.integers(2, n))
    j = min(n, i + int(rng.integers(1, 200)))
    if kind == 'truncated':
        b = b[:i]
    elif kind == 'flips':
        for k in rng.integers(2, n, int(P(1, 2, 5, 40))):
            b[k] ^= 1 << int(rng.integers(8))
    elif kind == 'burst':
        b[i:j] = bytes(rng.integers(0, 256, j - i, 'uint8'))
    elif kind == 'cut':
        del b[i:j]
    elif kind == 'doubled':
        b[i:i] = b[i:j]
    elif kind == 'zeros':
        b[i:j] = bytes(j - i)
    elif kind == 'ones':
        b[i:j] = b'\xff' * (j - i)
    elif kind == 'tail':
        b += bytes(rng.integers(0, 256, int(rng.integers(1, 500)), 'uint8'))
    elif kind == 'swap':
        k = int(rng.integers(2, n - (j - i))) if n - (j - i) > 2 else 2
        b[i:j], b[k:k + j - i] = b[k:k + j - i], b[i:j]
    elif kind == 'sizes':
        # 16-bit fields take extreme values
        for k in rng.integers(2, n - 2, int(P(1, 3))):
            b[k:k + 2] = P(b'\0\0', b'\xff\xff', b'\x01\0', b'\xff\x7f')
    return kind, bytes(b)


def run(ctx):
    for rng in ctx.cases('intact', ctx.n(40, 500)):
        P = EN.pick(rng)
        fam, b = recording(rng)
        d = ctx_dir(ctx)
        f = put(d, 'data' + EXT[fam], b)
        put(d, 'data.nc', b'something else')
        put(d, 'data.userdata.json', '{"site": "a"}')
        put(d, 'data.dolfyn', b'')
        if rng.random() < .5:
            os.chmod(f, 0o444)
        os.utime(f, (1e9, 1e9))
        kw = P({}, {}, dict(nens=3), dict(userdata=False), dict(rebuild_index=True) if fam == 'signature' else {})
        with ctx.observe('intact', dict(family=fam, options=kw, size=len(b)), nontrivial=True):
            one = watched(ctx, d, f, 'intact', **kw)
            ctx.check(not isinstance(one, Exception), 'intact:raises', lambda: 'reading an intact file: %r' % one)
            two = watched(ctx, d, f, 'intact', **kw)
            identical(ctx, two, one, 'repeat')
    for rng in ctx.cases('debug', ctx.n(12, 100)):
        fam, b = recording(rng)
        d = ctx_dir(ctx)
        f = put(d, 'data' + EXT[fam], b)
        kw = dict(debug_level=int(rng.integers(3))) if fam == 'rdi' else dict(debug=True)
        with ctx.observe('debug', dict(family=fam, size=len(b))):
            one = watched(ctx, d, f, 'debug', log=True, **kw)
            ctx.check(not isinstance(one, Exception), 'debug:raises', lambda: 'reading with a debug log: %r' % one)
            two = watched(ctx, d, f, 'plain')
            identical(ctx, two, one, 'debug')
    for rng in ctx.cases('damaged', ctx.n(150, 1600)):
        fam, b = recording(rng)
        kind, x = damage(rng, b)
        d = ctx_dir(ctx)
        f = put(d, 'data' + EXT[fam], x)
        with ctx.observe('damaged', dict(family=fam, damage=kind, size=len(x))):
            one = watched(ctx, d, f, 'damaged')
            two = watched(ctx, d, f, 'damaged')
            bad = isinstance(one, Exception)
            ctx.count('reads-that-raised', int(bad))
            ctx.count('reads-that-succeeded', int(not bad))
            ctx.check(isinstance(two, Exception) == bad, 'damaged:repeat', lambda: 'first %r, then %r' % (type(one), type(two)))
            if not bad:
                identical(ctx, two, one, 'damaged-repeat')
            else:
                ctx.check(str(one) == str(two), 'damaged:repeat', lambda: 'first %s, then %s' % (one, two))
    for rng in ctx.cases('random', ctx.n(30, 500)):
        # a right start, and noise
        P = EN.pick(rng)
        fam, b = recording(rng)
        k = int(P(2, 4, 48, int(rng.integers(2, len(b)))))
        x = b[:k] + bytes(rng.integers(0, 256, int(rng.integers(1, 5000)), 'uint8'))
        d = ctx_dir(ctx)
        f = put(d, 'data' + EXT[fam], x)
        with ctx.observe('random', dict(family=fam, kept=k, size=len(x))):
            one = watched(ctx, d, f, 'random')
            two = watched(ctx, d, f, 'random')
            ctx.check(isinstance(two, Exception) == isinstance(one, Exception), 'random:repeat', lambda: 'first %r, then %r' % (one, two))
            ctx.count('reads-that-raised', int(isinstance(one, Exception)))
