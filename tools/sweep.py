#!/usr/bin/env python3
"""sweep.py N SEED [FILE...]: N systematic one-place changes of the sources, each run against the checks anchored in the file
until one reports a violation; prints those that none reports (development aid)"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
N, SEED, FILES = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
SRC = '/repo/src/'
at = {}
na = json.load(open('/verif/tools/not_applicable.json'))
na = {x['property'] if isinstance(x, dict) and 'property' in x else x.get('id') for x in na} if isinstance(na, list) else set(na)
slow = {'C24': 9, 'C06': 8, 'C25': 5, 'C22': 6, 'C32': 6, 'C23': 6}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    if p['id'] in na:
        continue
    for f in p['anchors']['files']:
        for g in ([f] if '*' not in f else ['src/' + x for x in os.listdir(SRC) if x.endswith('.c')]):
            at.setdefault(g[4:], set()).add(p['id'])
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '),
       (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'--', '++'), (r' \+= ', ' -= '), (r' \+= ', ' = '), (r' -= ', ' += '),
       (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'->next\b', '->prev'), (r'->first\b', '->last'),
       (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r' \* ', ' + '), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'->count\b', '->missed'),
       (r'->missed\b', '->count'), (r'\bif \(', 'if (!'), (r' & ', ' | '), (r'%8ld', '%7ld'), (r'\bstart\b', 'stop'), (r'\bstop\b', 'start'),
       (r'\bfirst\b', 'last'), (r'\belse\b', '')]
cands = []
for fn in sorted(os.listdir(SRC)):
    if not fn.endswith('.c') or fn in ('version.c',) or FILES and fn not in FILES:
        continue
    L = open(SRC + fn, encoding='latin-1').read().split('\n')
    inside = comment = ifdef = False
    for n, s in enumerate(L):
        if s.startswith('{'):
            inside = True
        if s.startswith('}'):
            inside = False
        if s.startswith('#ifdef SHOW'):
            ifdef = True
        if s.startswith('#endif'):
            ifdef = False
        if not inside or ifdef or s.strip().startswith(('/*', '*', '//', '#')):
            continue
        for a, b in OPS:
            for m in re.finditer(a, s):
                new = s[:m.start()] + b + s[m.end():]
                if a == r'\bif \(':
                    d, j = 0, m.end() - 1
                    for j in range(m.end() - 1, len(s)):
                        d += {'(': 1, ')': -1}.get(s[j], 0)
                        if d == 0:
                            break
                    if d:
                        continue
                    new = s[:m.start()] + 'if (!(' + s[m.end():j] + '))' + s[j + 1:]
                cands.append((fn, n, s, new))
        t = s.strip()
        if t.endswith(';') and not re.match(r'(return|long|int|short|char|FILE|Boolean|[A-Z]\w* [\w*]+|double|static|size_t|utf8proc_\w+ \w+)\b', t) and t.count('(') == t.count(')') and t != ';':
            cands.append((fn, n, s, re.match(r'\s*', s).group() + ';'))
random.seed(SEED)
random.shuffle(cands)
print(len(cands), 'changes in all', flush=True)


def one(c):
    fn, n, s, new = c
    d = tempfile.mkdtemp(prefix='swp', dir='/tmp/sweep')
    try:
        shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git', '_build', 'test'))
        p = d + '/r/src/' + fn
        L = open(p, encoding='latin-1').read().split('\n')
        L[n] = new
        open(p, 'w', encoding='latin-1').write('\n'.join(L))
        if subprocess.run(['gcc', '-std=gnu89', '-D_XOPEN_SOURCE=600', '-w', '-fsyntax-only', '-I' + d + '/r/src', '-I/usr/local/include', p], stderr=subprocess.DEVNULL).returncode:
            return None
        res = []
        for k in sorted(at.get(fn, ()), key=lambda x: (slow.get(x, 0), x)):
            try:
                r = subprocess.run([sys.executable, '/verif/run.py', k], env=dict(os.environ, OCR_REPO=d + '/r', VERIF_DEBUG=''), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            except subprocess.TimeoutExpired:
                res.append(k + ':time')
                continue
            if r.returncode == 1:
                return 'caught', c, k
            if r.returncode:
                res.append(k + ':2')
        return 'SURVIVED', c, ' '.join(res)
    finally:
        shutil.rmtree(d)


tot = dict(caught=0, SURVIVED=0)
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, cands[:N]):
        if r is None:
            continue
        tot[r[0]] += 1
        if r[0] == 'SURVIVED':
            fn, n, s, new = r[1]
            print('%s:%d  %s  =>  %s   [%s]' % (fn, n + 1, s.strip(), new.strip(), r[2]), flush=True)
print(tot)
