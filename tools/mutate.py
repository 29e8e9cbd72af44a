#!/usr/bin/env python3
"""mutate.py lines                      : record which lines of dolfyn each check executes (/tmp/mut/lines.json)
mutate.py run N [seed] [file-regex]     : run N random syntactic mutants of /repo/dolfyn (not tests) through the
checks that execute the mutated line, in scratch copies; survivors go to /tmp/mut/survivors.txt.
A development aid: survivors are read by hand (equivalent, outside every property, or a gap)."""
import ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mut'
W = int(os.environ.get('MUT_WORKERS', '8'))
CHECKS = ['C%02d' % i for i in range(1, 60) if os.path.exists(V + '/vdolfyn/checks/c%02d.py' % i)]


def prep(i):
    d = '%s/w%d' % (M, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/dolfyn', d + '/repo/dolfyn', ignore=shutil.ignore_patterns('__pycache__', 'tests'))
    shutil.copytree('/repo/scripts', d + '/repo/scripts')
    shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'evidence', 'replays'))
    os.makedirs(d + '/verif/evidence'); os.makedirs(d + '/verif/replays')
    for f in ['run.sh', 'vdolfyn/core.py']:
        p = d + '/verif/' + f
        s = open(p).read()
        s = s.replace("'/repo'", "'%s/repo'" % d).replace('PYTHONPATH=/repo:', 'PYTHONPATH=%s/repo:' % d)
        open(p, 'w').write(s)
    return d


def check(d, c, env=None):
    t = time.time()
    try:
        r = subprocess.run(['bash', d + '/verif/run.sh', c], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VD_TIMEOUT='240', **(env or {})))
        return r.returncode, r.stdout + r.stderr, time.time() - t
    except Exception as e:
        return 99, str(e), 0


def lines():
    q = queue.Queue()
    for i in range(W):
        q.put(prep(i))
    out = {}

    def one(c):
        d = q.get()
        f = '%s/lines_%s.json' % (M, c)
        rc, o, t = check(d, c, {'VD_LINES': f})
        q.put(d)
        out[c] = dict(rc=rc, t=t, lines=json.load(open(f)) if os.path.exists(f) else [])
        print(c, rc, round(t), len(out[c]['lines']), flush=True)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, CHECKS))
    json.dump(out, open(M + '/lines.json', 'w'))


CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*',
       ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<'}


def mutants(src):
    """yield (start, end, new, stmt-lines, description)"""
    tree = ast.parse(src)
    L = [0]
    for l in src.split('\n'):
        L.append(L[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda ln, c: L[ln - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    txt = lambda n: b[slice(*span(n))].decode()
    doc = set()
    stmt = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0]); doc.add(n.body[0].value)

    def walk(n, st, infunc):
        if isinstance(n, ast.stmt):
            if isinstance(n, (ast.If, ast.While)):
                st = (n.test.lineno, n.test.end_lineno)
            elif isinstance(n, ast.For):
                st = (n.lineno, n.iter.end_lineno)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.With, ast.Try)):
                st = (n.lineno, n.lineno)
            else:
                st = (n.lineno, n.end_lineno)
        stmt[n] = (st, infunc)
        if isinstance(n, ast.FunctionDef):
            infunc = n.name
        for c in ast.iter_child_nodes(n):
            walk(c, st, infunc)
    walk(tree, (1, 1), None)
    out = []

    def add(n, s, e, new, what):
        st, fn = stmt[n]
        if b[s:e].decode() != new:
            out.append((s, e, new, st, fn, what))
    for n in ast.walk(tree):
        if n in doc or n not in stmt:
            continue
        st, fn = stmt[n]
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                s, e = span(n.left)[1], span(n.comparators[0])[0]
                seg = b[s:e].decode()
                cur = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
                       ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}[type(n.ops[0])]
                if seg.count(cur) == 1:
                    add(n, s, e, seg.replace(cur, o), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            s, e = span(n.left)[1], span(n.right)[0]
            seg = b[s:e].decode()
            cur = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
                   ast.BitAnd: '&', ast.BitOr: '|', ast.LShift: '<<', ast.RShift: '>>'}[type(n.op)]
            if seg.count(cur) == 1:
                add(n, s, e, seg.replace(cur, BIN[type(n.op)]), 'binop')
        elif isinstance(n, ast.BoolOp):
            s, e = span(n.values[0])[1], span(n.values[1])[0]
            seg = b[s:e].decode()
            cur, o = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if len(n.values) == 2 and seg.count(cur) == 1:
                add(n, s, e, seg.replace(cur, o), 'bool')
        elif isinstance(n, ast.Constant):
            s, e = span(n)
            if isinstance(n.value, bool):
                add(n, s, e, str(not n.value), 'const')
            elif isinstance(n.value, (int, float)):
                add(n, s, e, '(%r)' % (n.value + 1), 'const')
                if n.value not in (0, 1):
                    add(n, s, e, '(%r)' % (n.value - 1), 'const')
            elif isinstance(n.value, str) and len(n.value) < 25 and n.value and 'f' != b[s:s + 1].decode() \
                    and b[s:s + 1].decode() in '\'"':
                add(n, s, e, repr(n.value + 'x') if len(n.value) > 1 else repr('Q'), 'str')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            s, e = span(n)
            add(n, s, e, '(' + txt(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    s, e = span(part)
                    add(n, s, e, '(' + txt(part) + ')+1', 'slice')
        elif isinstance(n, ast.If):
            s, e = span(n.test)
            add(n, s, e, 'not (' + txt(n.test) + ')', 'negif')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    s, e = span(k)
                    while b[s - 1:s] in (b' ', b'\n'):
                        s -= 1
                    if b[s - 1:s] == b',':
                        add(n, s - 1, e, '', 'kwdel')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and fn:
            s, e = span(n)
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Name, ast.Tuple)) and random.random() < .7:
                continue
            add(n, s, e, 'pass', 'del')
        if isinstance(n, (ast.Continue, ast.Break)):
            s, e = span(n)
            add(n, s, e, 'pass', 'del')
    return out


def run(N, seed, rx):
    random.seed(seed)
    cov = json.load(open(M + '/lines.json'))
    times = {c: v['t'] for c, v in cov.items()}
    by = {}
    for c, v in cov.items():
        for f, l in v['lines']:
            by.setdefault((f, l), set()).add(c)
    allm = []
    for root, ds, fs in os.walk('/repo/dolfyn'):
        if 'tests' in root or 'example' in root:
            continue
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, '/repo')
            if f.endswith('.py') and re.search(rx, rel) and f not in ('_version.py',):
                src = open(p).read()
                for m in mutants(src):
                    allm.append((rel, src, m))
    random.shuffle(allm)
    print(len(allm), 'mutants in all', flush=True)
    done = set()
    if os.path.exists(M + '/done.txt'):
        done = set(open(M + '/done.txt').read().split('\n'))
    q = queue.Queue()
    for i in range(W):
        q.put(prep(i))
    lock = threading.Lock()
    stat = dict(killed=0, survived=0, uncovered=0, inconclusive=0)

    def one(x):
        rel, src, (s, e, new, (l0, l1), fn, what) = x
        b = src.encode()
        old = b[s:e].decode()
        key = '%s:%d-%d:%s:%r' % (rel, s, e, what, new)
        if key in done:
            return
        cs = set()
        for l in range(l0, l1 + 1):
            cs |= by.get((rel, l), set())
        desc = '%s:%d [%s] %s: %r -> %r   | %s' % (rel, b[:s].count(b'\n') + 1, fn, what, old[:60], new[:60],
                                                   src.split('\n')[b[:s].count(b'\n')].strip()[:100])
        if not cs:
            with lock:
                stat['uncovered'] += 1
                open(M + '/uncovered.txt', 'a').write(desc + '\n')
                open(M + '/done.txt', 'a').write(key + '\n')
            return
        mod = (b[:s] + new.encode() + b[e:]).decode()
        try:
            compile(mod, rel, 'exec')
        except Exception:
            return
        d = q.get()
        p = d + '/repo/' + rel
        open(p, 'w').write(mod)
        res = []
        hit = None
        # the checks with few covered lines in common first: the more specific ones, then the cheap ones
        if len(cs) > 28 and PREF(rel):      # runs at import
            cs = set(PREF(rel))
        order = sorted(cs, key=lambda c: times[c] + (60 if len(cs) > 12 and c not in PREF(rel) else 0))
        for c in order:
            rc, o, t = check(d, c)
            if rc == 1 and 'VIOLATION' in o:
                hit = c
                break
            if rc != 0:
                res.append('%s:rc%d' % (c, rc))
                if 'does not import' in o:
                    hit = 'import'
                    break
        open(p, 'w').write(src)
        q.put(d)
        with lock:
            open(M + '/done.txt', 'a').write(key + '\n')
            if hit:
                stat['killed'] += 1
            else:
                stat['survived'] += 1
                open(M + '/survivors.txt', 'a').write(desc + '  {' + ','.join(order) + '} ' + ' '.join(res) + '\n')
            if sum(stat.values()) % 25 == 0:
                print(time.strftime('%H:%M'), stat, flush=True)
    allm = allm[:N]
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, allm))
    print('end', stat)


def PREF(rel):
    m = {'io/rdi': 'C01 C02', 'io/nortek2': 'C06 C07', 'io/nortek': 'C03 C04 C05', 'io/api': 'C08 C10 C11', 'io/base': 'C08',
         'rotate': 'C13 C14 C15 C16 C17', 'time': 'C12', 'binned': 'C19 C22', 'psd': 'C20 C21', 'misc': 'C29',
         'adv/clean': 'C27', 'adv/motion': 'C26', 'adp/clean': 'C28', 'turbulence': 'C23 C24 C25', 'velocity': 'C30 C20 C21 C22 C23'}
    for k, v in m.items():
        if k in rel:
            return v.split()
    return []


if __name__ == '__main__':
    os.makedirs(M, exist_ok=True)
    if sys.argv[1] == 'lines':
        lines()
    else:
        run(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4] if len(sys.argv) > 4 else '.')
