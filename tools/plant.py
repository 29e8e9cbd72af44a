#!/usr/bin/env python3
"""plant.py BUGFILE... : turn a bug description into /verif/seeded/<id>/ after confirming, in a scratch
copy of /repo, that it applies, keeps the stable tests passing, and that its demonstration tells the trees
apart.  A description is a Python file defining PROPERTY, NEEDS, BREAKS, DEMO and EDITS=[(file, old, new)].
With --run, also run the property's check against /repo with the bug applied, and undo it."""
import json, os, subprocess, sys, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the dolfyn tree: exit 0 when the behaviour is right
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" PYTHONPATH="$PWD" DEMO_TMP="$W" TZ=UTC timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def main(fn, run, force):
    bid = os.path.basename(fn)[:-3]
    d = os.path.join(V, 'seeded', bid)
    ns = {}
    exec(open(fn).read(), ns)
    tmp = tempfile.mkdtemp(prefix='plant.')
    r = os.path.join(tmp, 'repo')
    try:
        sh('cp', '-a', '/repo', r)
        assert sh('git', '-C', r, 'status', '--porcelain').stdout == '', 'scratch copy not clean'
        st = os.path.join(tmp, bid)
        os.makedirs(st)
        open(os.path.join(st, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        for x in ns.get('FILES', ()):       # encoders the demonstration needs, beside it
            open(os.path.join(st, x), 'w').write(open(os.path.join(V, 'vdolfyn', x)).read().replace('from .', 'from '))
        open(os.path.join(st, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(st, 'demo.sh'), 0o755)
        a = sh(os.path.join(st, 'demo.sh'), cwd=r)
        if a.returncode:
            print(bid, 'DEMO FAILS ON CLEAN TREE', a.stdout[-300:], a.stderr[-900:])
            return
        for f, old, new in ns['EDITS']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'OLD TEXT occurs %d times in %s' % (s.count(old), f), repr(old)[:100])
                return
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', r, 'diff').stdout
        b = sh(os.path.join(st, 'demo.sh'), cwd=r)
        if b.returncode == 0:
            print(bid, 'DEMO PASSES WITH THE BUG')
            return
        base = json.load(open('/opt/vp/BASELINE.json'))
        # the stable tests
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=tmp + '/pyc', MPLBACKEND='Agg')
        open(os.path.join(st, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'].strip(), what_it_breaks=ns['BREAKS'].strip()),
                  open(os.path.join(st, 'meta.json'), 'w'), indent=1)
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(st, d)
        # tests and check run on /repo itself
        assert sh('git', '-C', '/repo', 'status', '--porcelain').stdout == '', '/repo not clean'
        ap = sh('git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff'))
        if ap.returncode:
            print(bid, 'DOES NOT APPLY', ap.stderr)
            return
        try:
            sh('bash', '/opt/vp/test.sh', tmp + '/o.json')
            o = json.load(open(tmp + '/o.json'))
            miss = set(base['stable']) - set(o['passed'])
            if miss:
                print(bid, 'STABLE TESTS FAIL', miss)
                shutil.rmtree(d)
                return
            res = ''
            if run:
                c = sh(V + '/run.sh', ns['PROPERTY'], cwd=V)
                res = 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + ns['PROPERTY'] in c.stdout else 'MISSED rc=%d' % c.returncode
                res += ' ' + (c.stdout.split('[', 1)[1].split(']')[0] if '[' in c.stdout else '')
            print(bid, ns['PROPERTY'], 'planted', res, flush=True)
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
    finally:
        shutil.rmtree(tmp)


args = [a for a in sys.argv[1:] if not a.startswith('--')]
for a in args:
    main(a, '--run' in sys.argv, False)
