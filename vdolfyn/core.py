"""Recorder, verdict and evidence machinery shared by all checks.

A check is a module ``vdolfyn.checks.cNN`` with ``RULE`` (str), ``FILES`` (the
repository files whose execution the check needs to have observed) and
``run(ctx)``.  It produces executions of the real code through ``ctx.call`` (which
records a call and a return event at the client boundary, and monitors that a
function declared pure left its arguments alone) inside ``with ctx.observe(...)``
blocks, and judges them with oracles that report through ``ctx.violation``.

Verdicts are three valued: exit 1 (violation + replay), exit 0 (held on what was
observed), exit 2 (inconclusive: nothing observed, watchdog, harness error).
"""
import contextlib
import hashlib
import json
import os
import signal
import re
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Violation(Exception):
    def __init__(self, mech, msg, **witness):
        super().__init__(msg)
        self.mech = mech
        self.msg = msg
        self.witness = witness


class Inconclusive(BaseException):
    pass


class StepBudget(BaseException):
    """The code under test exceeded its budget of logical steps."""


# --------------------------------------------------------------------- digest
def _feed(h, x):
    import xarray as xr
    if isinstance(x, xr.Dataset):
        h.update(b'DS')
        for k in sorted(map(str, x.variables)):
            h.update(k.encode())
            _feed(h, x.variables[k])
        _feed(h, dict(x.attrs))
        _feed(h, sorted(map(str, x.coords)))
    elif isinstance(x, (xr.DataArray,)):
        h.update(b'DA')
        _feed(h, x.variable)
        for k in sorted(map(str, x.coords)):
            h.update(k.encode())
            _feed(h, x.coords[k].variable)
    elif isinstance(x, xr.Variable):
        _feed(h, list(x.dims))
        _feed(h, np.asarray(x.values))
        _feed(h, dict(x.attrs))
    elif isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode())
        h.update(str(x.shape).encode())
        if x.dtype == object:
            for v in x.ravel():
                _feed(h, v)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b'D')
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            _feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b'L')
        for v in x:
            _feed(h, v)
    elif isinstance(x, np.generic):
        h.update(b'S' + str(x.dtype).encode() + x.tobytes())
    else:
        h.update(repr(x).encode())


def digest(x):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, x)
    return h.hexdigest()


def describe_change(a, b, path=''):
    """Where two (deep-copied) objects differ; for violation messages."""
    import xarray as xr
    out = []
    if isinstance(a, xr.Dataset) and isinstance(b, xr.Dataset):
        for k in sorted(set(a.variables) | set(b.variables), key=str):
            if k not in a.variables or k not in b.variables:
                out.append('variable %s added/removed' % k)
            elif digest(a.variables[k]) != digest(b.variables[k]):
                out.append('variable %s changed' % k)
        for k in sorted(set(a.attrs) | set(b.attrs), key=str):
            if digest(a.attrs.get(k, '<none>')) != digest(b.attrs.get(k, '<none>')):
                out.append('attr %s: %r -> %r' % (k, a.attrs.get(k, '<none>'), b.attrs.get(k, '<none>')))
    else:
        out.append('value changed')
    return '; '.join(out)[:400]


def _copy(x):
    import copy
    import xarray as xr
    if isinstance(x, (xr.Dataset, xr.DataArray)):
        y = x.copy(deep=True)
        y.attrs = copy.deepcopy(x.attrs)
        return y
    return copy.deepcopy(x)


def same_value(a, b, rtol=1e-5):
    """Equality of results up to rounding (SIMD code rounds differently at different
    memory alignments), names, dims, dtypes and attributes included."""
    import xarray as xr
    if digest(a) == digest(b):
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, xr.Dataset):
        return set(a.variables) == set(b.variables) and set(a.coords) == set(b.coords) and \
            digest(dict(a.attrs)) == digest(dict(b.attrs)) and \
            all(same_value(a.variables[k], b.variables[k], rtol) for k in a.variables)
    if isinstance(a, xr.DataArray):
        return set(a.coords) == set(b.coords) and same_value(a.variable, b.variable, rtol) and \
            all(same_value(a.coords[k].variable, b.coords[k].variable, rtol) for k in a.coords)
    if isinstance(a, xr.Variable):
        return a.dims == b.dims and digest(dict(a.attrs)) == digest(dict(b.attrs)) and \
            same_value(np.asarray(a.values), np.asarray(b.values), rtol)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_value(a[k], b[k], rtol) for k in a)
    if isinstance(a, (np.ndarray, np.floating, float, complex, np.complexfloating)):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != b.dtype or a.shape != b.shape or a.dtype.kind not in 'fc':
            return False
        if a.size == 0:
            return True
        with np.errstate(all='ignore'):
            fin = np.isfinite(a) & np.isfinite(b)
            scale = np.abs(a[fin]).max() if fin.any() else 0.
            return bool(((np.abs(a - b) <= rtol * scale) | (np.isnan(a) & np.isnan(b)) | (a == b)).all())
    return False


def small(x, n=8):
    """A JSON-able, short rendering of a value."""
    if isinstance(x, np.ndarray):
        if x.size <= n:
            return [str(x.dtype), np.array2string(x, precision=9)]
        return [str(x.dtype), list(x.shape), np.array2string(x.ravel()[:n], precision=9) + '...']
    if isinstance(x, dict):
        return {str(k): small(v) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [small(v) for v in list(x)[:n]]
    if isinstance(x, (np.generic,)):
        return x.item() if not isinstance(x, (np.datetime64, np.complexfloating)) else str(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


# ------------------------------------------------------------- code monitoring
class CodeMonitor:
    """sys.monitoring based: which lines of /repo/dolfyn ran (each line event is
    disabled after the first hit, so the cost is negligible) and, on request, a
    budget of backward jumps (loop iterations) for bounded progress."""
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.budget = None
        self.steps = 0
        self._prefix = REPO + '/dolfyn/'
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vdolfyn')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.register_callback(self.TOOL, m.events.JUMP, self._jump)
        m.set_events(self.TOOL, m.events.LINE)

    def _line(self, code, line):
        f = code.co_filename
        if f.startswith(self._prefix):
            self.lines.add((f[len(REPO) + 1:], line))
        return sys.monitoring.DISABLE

    def _jump(self, code, off, dest):
        if self.budget is None:
            return
        if not code.co_filename.startswith(self._prefix):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.steps > self.budget:
            self.budget = None
            raise StepBudget('more than %d loop iterations in %s:%s' % (
                self.steps - 1, code.co_filename, code.co_name))

    @contextlib.contextmanager
    def step_budget(self, n):
        m = sys.monitoring
        self.steps = 0
        self.budget = n
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)
        m.restart_events()
        try:
            yield self
        finally:
            self.budget = None
            m.set_events(self.TOOL, m.events.LINE)


def _overdue(*_):
    raise StepBudget('no end after %d s of processor time' % CASE_LIMIT)


ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'NPT-5:45', 'XXX-13', 'XXX+9:30']
CASE_LIMIT = 60        # seconds of processor time; the slowest observed executions take a few


class Ctx:
    def __init__(self, prop, tier, seed, only=None):
        self.stuck = False
        self.slowest = 0.
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.only = only          # (group, index) when replaying
        self.events = 0
        self.counts = {}
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.known_seen = {}
        self.known = load_known(prop)
        self.t0 = time.time()
        self.mon = CodeMonitor()
        self.cur = None
        self.scratch = os.environ.get('VD_SCRATCH')
        if not self.scratch:
            import tempfile
            self.scratch = tempfile.mkdtemp(prefix='vdolfyn.')
        self._nfile = 0

    # ---- workload
    def n(self, quick, thorough=None):
        if self.tier == 'quick':
            return quick
        return thorough if thorough is not None else quick * 12

    def cases(self, group, n):
        """Yield a fresh, independently seeded rng for each case."""
        for i in range(n):
            if self.only is not None and (group, i) != tuple(self.only):
                continue
            if len(self.viol) >= 12 or self.stuck:
                return
            self.cur = (group, i)
            # Nothing may depend on the time zone of the computer
            os.environ['TZ'] = ZONES[(self.seed + i) % len(ZONES)]
            time.tzset()
            key = [self.seed, int(re.sub(r'\D', '', self.prop)),
                   int(hashlib.blake2b(group.encode(), digest_size=4).hexdigest(), 16), i]
            c0 = time.process_time()
            old = signal.signal(signal.SIGPROF, _overdue)
            try:
                # (again every few seconds: the code under test may swallow it)
                signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT, 5)
                yield np.random.default_rng(key)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGPROF, old)
                self.slowest = max(self.slowest, time.process_time() - c0)
        self.cur = None

    def tmp(self, suffix=''):
        self._nfile += 1
        return os.path.join(self.scratch, 'f%d%s' % (self._nfile, suffix))

    # ---- recording
    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    @contextlib.contextmanager
    def observe(self, label, desc=None, nontrivial=True):
        """One observed execution.  Everything that fails inside is a finding about
        the code under test: inputs are generated before the block is entered."""
        self.evals += 1
        self.count('case:' + label)
        d = small(desc) if desc is not None else {}
        if nontrivial:
            self.distinct.add(hashlib.blake2b(
                json.dumps([label, d], sort_keys=True, default=str).encode(), digest_size=8).digest())
        if sum(1 for s in self.samples if s['label'] == label) < 2 and len(self.samples) < 24:
            self.samples.append(dict(label=label, case=list(self.cur or ()), input=d))
        try:
            yield
        except Violation as e:
            self._report(e.mech, e.msg, label, d, e.witness)
        except StepBudget as e:
            self.stuck = True
            self._report(label + ':no-progress', str(e), label, d, {})
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO + '/')]
            loc = ('%s:%s' % (where[-1].filename, where[-1].name)) if where else 'oracle'
            import errno
            if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
                raise
            self._report('%s:raises-%s' % (label, type(e).__name__),
                         'unexpected %s at %s: %s' % (type(e).__name__, loc, str(e)[:300]),
                         label, d, dict(traceback=''.join(traceback.format_exception(e))[-1800:]))

    def call(self, fn, *args, pure=False, **kw):
        """Call the code under test, recording the call and return events; with
        pure=True monitor that no argument was changed by the call."""
        name = getattr(fn, '__qualname__', getattr(fn, '__name__', str(fn)))
        self.events += 1
        self.count('call:' + name)
        if pure:
            before = digest([list(args), kw])
            cp = [_copy(a) for a in args], {k: _copy(v) for k, v in kw.items()}
        r = fn(*args, **kw)
        self.events += 1
        if pure:
            self.count('purity-checked')
            if digest([list(args), kw]) != before:
                msg = []
                for j, (a, b) in enumerate(zip(cp[0], args)):
                    if digest(a) != digest(b):
                        msg.append('arg %d: %s' % (j, describe_change(a, b)))
                for k in kw:
                    if digest(cp[1][k]) != digest(kw[k]):
                        msg.append('arg %s: %s' % (k, describe_change(cp[1][k], kw[k])))
                raise Violation('mutates-input:' + name, '%s changed its input: %s' % (name, '; '.join(msg)))
        return r

    def escaped(self, e):
        """An exception that left a case: the code under test's, or the harness's own."""
        loc = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + '/dolfyn/')]
        if isinstance(e, StepBudget) or loc and not isinstance(e, (OSError, MemoryError)):
            self._report('no-progress' if isinstance(e, StepBudget) else 'raises-%s' % type(e).__name__,
                         '%s%s: %s' % (type(e).__name__, ' at %s:%s' % (loc[-1].filename, loc[-1].name) if loc else '', str(e)[:300]),
                         'case', {}, dict(traceback=''.join(traceback.format_exception(e))[-1800:]))
            return True
        return False

    def expect_raises(self, mech, exc, fn, *args, **kw):
        self.events += 1
        self.count('expected-refusals')
        try:
            fn(*args, **kw)
        except exc:
            self.events += 1
            return
        raise Violation(mech, '%s accepted what it must refuse' % getattr(fn, '__name__', fn))

    # ---- oracles
    def check(self, cond, mech, msg, **wit):
        self.events += 1
        if not cond:
            raise Violation(mech, msg if isinstance(msg, str) else msg(), **wit)

    def soft(self, cond, mech, msg, **wit):
        """Report but go on with the case."""
        self.events += 1
        if not cond:
            self._report(mech, msg if isinstance(msg, str) else msg(), mech, {}, wit)

    def eq(self, got, want, mech, what='', **wit):
        """Exact equality (NaN == NaN), shapes included."""
        self.close(got, want, mech, what, rtol=0, atol=0, **wit)

    def close(self, got, want, mech, what='', rtol=1e-9, atol=0., **wit):
        self.events += 1
        got = np.asarray(getattr(got, 'values', got))
        want = np.asarray(getattr(want, 'values', want))
        if got.shape != want.shape:
            raise Violation(mech, '%s: shape %s, expected %s' % (what or mech, got.shape, want.shape), **wit)
        if got.dtype.kind in 'OUSMmb' or want.dtype.kind in 'OUSMmb':
            if got.dtype.kind == 'M' and want.dtype.kind == 'M':
                ok = (got == want) | (np.isnat(got) & np.isnat(want))
            else:
                ok = np.asarray(got == want)
        else:
            dt = np.complex128 if 'c' in (got.dtype.kind, want.dtype.kind) else np.float64
            g, w = got.astype(dt), want.astype(dt)
            with np.errstate(all='ignore'):
                ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w)
        ok = np.asarray(ok)
        if not ok.all():
            bad = np.argwhere(~ok)
            i = tuple(bad[0])
            raise Violation(mech, '%s: %d of %d values differ; first at %s: got %r, expected %r' % (
                what or mech, len(bad), ok.size, tuple(map(int, i)), got[i] if got.ndim else got[()],
                want[i] if want.ndim else want[()]), **wit)

    def violation(self, mech, msg, **wit):
        raise Violation(mech, msg, **wit)

    def _report(self, mech, msg, label, desc, wit):
        if mech in self.known:
            self.known_seen.setdefault(mech, msg)
            return
        if any(v['mechanism'] == mech for v in self.viol):
            for v in self.viol:
                if v['mechanism'] == mech:
                    v['again'] = v.get('again', 0) + 1
            return
        self.viol.append(dict(property=self.prop, mechanism=mech, message=msg, label=label, input=desc,
                              witness=small(wit), seed=self.seed, tier=self.tier, case=list(self.cur or ())))

    # ---- finish
    def finish(self, rule, files):
        hit = sorted({f for f, _ in self.mon.lines})
        if os.environ.get('VD_LINES'):      # for tools/mutate.py
            json.dump(sorted(self.mon.lines), open(os.environ['VD_LINES'], 'w'))
        cov = dict(
            evaluations=self.evals,
            distinct_nontrivial=len(self.distinct),
            rule=rule,
            samples=self.samples,
            events_recorded=self.events,
            event_counts=dict(sorted(self.counts.items())),
            slowest_case_cpu_s=round(self.slowest, 1),
            repo_lines_executed={f: sum(1 for g, _ in self.mon.lines if g == f) for f in hit},
            known_findings_seen=sorted(self.known_seen),
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                  assumptions=['numpy, scipy, xarray and netCDF4 as installed are trusted',
                               'only the executions produced by this workload are judged'],
                  wall_s=round(time.time() - self.t0, 3), violations=len(self.viol))
        if self.only is None:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        for m, what in self.known.items():
            if m in self.known_seen:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, m, what))
        for v in self.viol:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            name = 'replays/%s-%s.json' % (self.prop, re.sub(r'[^A-Za-z0-9]+', '-', v['mechanism'])[:60])
            with open(os.path.join(VERIF, name), 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, name))
            print('  [%s] %s' % (v['mechanism'], v['message']))
            print('  input: %s' % json.dumps(v['input'], default=str)[:400])
        if self.viol:
            return 1
        missing = [] if any(f in hit for f in files) else list(files)
        if self.only is None and (missing or self.evals == 0 or len(self.distinct) < 2 or self.events < 10):
            print('INCONCLUSIVE property=%s: not observed: %s (cases=%d, events=%d)' % (
                self.prop, missing, self.evals, self.events))
            return 2
        print('OK property=%s tier=%s seed=%d cases=%d distinct=%d events=%d wall=%.1fs' % (
            self.prop, self.tier, self.seed, self.evals, len(self.distinct), self.events,
            time.time() - self.t0))
        return 0


def load_known(prop):
    out = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'known: property=(\S+) mechanism=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def reader_dims(ctx, ds, mech):
    """What is per beam lies along 'beam', velocity along 'dir', IMU data along 'dirIMU' (one instrument frame for a point
    sensor), cells along the range and samples along the time of the stream the variable's suffix names."""
    for v in ds.data_vars:
        dims = ds[v].dims
        if len(dims) < 2 or 'mat' in v or v.startswith(('quaternions', 'samp_', 'echo', 'fom')):
            continue
        base, _, tag = v.rpartition('_') if v.rpartition('_')[2] in ('avg', 'b5', 'bt', 'sl', 'echo') else (v, '', '')
        tag = tag and '_' + tag
        t = 'time' + tag if 'time' + tag in ds.dims else 'time'
        lead = {'vel': 'dir', 'amp': 'beam', 'corr': 'beam', 'dist': 'beam', 'status': 'beam'}.get(base)
        if base in ('accel', 'angrt', 'mag'):
            lead = 'dir' if ds.attrs.get('inst_type') == 'ADV' else 'dirIMU'
        if tag == '_b5' and lead in ('dir', 'beam'):
            lead = None
        if base == 'prcnt_gd':
            lead = 'beam' if 'rdi' in str(ds.attrs.get('inst_make', '')).lower() else None
        elif lead is None and tag != '_b5':
            continue
        rest = [d for d in dims if d != lead]
        ok = (lead is None or dims[0] == lead) and dims[-1] == t and all(d == 'range' + tag for d in rest[:-1]) and len(rest) <= 2
        ctx.check(ok, mech + ':dims', lambda: '%s lies along %s' % (v, dims))
