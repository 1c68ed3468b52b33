#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] FILE OLD NEW [N]: run checks on a scratch copy of /repo with the Nth (default 1st) OLD in src/FILE replaced by NEW"""
import os, shutil, subprocess, sys, tempfile
checks, fn, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git'))
    p = d + '/r/src/' + fn
    s = open(p, encoding='latin-1').read()
    parts = s.split(old)
    if len(parts) <= n:
        sys.exit('pattern occurs %d times' % (len(parts) - 1))
    s = old.join(parts[:n]) + new + old.join(parts[n:])
    open(p, 'w', encoding='latin-1').write(s)
    for c in checks.split(','):
        r = subprocess.run([sys.executable, '/verif/run.py', c], env=dict(os.environ, OCR_REPO=d + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        L = r.stdout.strip().split('\n')
        print(c, 'exit', r.returncode, '|', ' || '.join(x[:300] for x in L[:2]))
finally:
    shutil.rmtree(d)
