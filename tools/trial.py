#!/usr/bin/env python3
"""trial.py FILE.py [name-regex]: FILE.py defines BUGS = [(name, 'C01[,C02..]', path, old, new), ...] (path/old/new may
repeat for several edits).  Each is applied to a scratch copy of /repo/dolfyn, the named checks (quick, seed 1) are run
there, and CAUGHT/MISSED printed.  A development aid; the ones kept are planted with plant.py."""
import os, queue, re, runpy, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M
M.M = '/tmp/trial'
W = int(os.environ.get('MUT_WORKERS', '6'))
bugs = [b for b in runpy.run_path(sys.argv[1])['BUGS'] if len(sys.argv) < 3 or re.search(sys.argv[2], b[0])]
q = queue.Queue()
for i in range(min(W, len(bugs))):
    q.put(M.prep(i))


def one(b):
    name, props, *ed = b
    d = q.get()
    saved = {}
    try:
        for p, o, n in zip(ed[::3], ed[1::3], ed[2::3]):
            f = d + '/repo/dolfyn/' + p
            s = open(f).read()
            saved.setdefault(f, s)
            if s.count(o) != 1:
                print('BAD    ', name, p, s.count(o), 'matches', flush=True)
                return
            open(f, 'w').write(s.replace(o, n))
        res = []
        for c in props.split(','):
            rc, out, t = M.check(d, c)
            v = re.findall(r'^  \[(.*?)\]', out, re.M)
            res.append('%s:%s%s' % (c, {0: 'MISSED', 1: 'CAUGHT'}.get(rc, 'rc%d' % rc), '' if rc == 0 else ' ' + ';'.join(v[:3])))
            if rc == 1:
                break
        print('CAUGHT ' if rc == 1 else 'MISSED ', name, ' '.join(res)[:200], flush=True)
    finally:
        for f, s in saved.items():
            open(f, 'w').write(s)
        q.put(d)


with ThreadPoolExecutor(W) as ex:
    list(ex.map(one, bugs))
