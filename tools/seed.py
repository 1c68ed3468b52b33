#!/usr/bin/env python3
"""seed.py ID PROPERTY SPECFILE  -- plant a bug in a scratch copy of /repo, confirm it, keep it in seeded/ID.

SPECFILE is python: edits=[(file, old, new)], needs=, breaks=, demo= (shell text, cwd /repo, needs only bin/)."""
import sys, os, subprocess, shutil, json
ident, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
W = '/tmp/seedwork'
shutil.rmtree(W, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', W], check=True)
def vp(name):
    t = open('/opt/vp/' + name).read().replace('/opt/vp/build.sh', W + '/_vp_build.sh').replace('/repo', W)
    open(W + '/_vp_' + name, 'w').write(t)
vp('build.sh'); vp('test.sh')
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base.get('passed') or base.get('stable') or base.get('tests') or base) if isinstance(base, dict) else set(base)
def build():
    r = subprocess.run(['bash', W + '/_vp_build.sh'], capture_output=True, text=True)
    if r.returncode: print(r.stdout[-800:], r.stderr[-1500:]); sys.exit('build failed')
D = '/verif/seeded/' + ident
os.makedirs(D, exist_ok=True)
open(D + '/demo.sh', 'w').write('#!/bin/bash\n' + ns['demo'].lstrip('\n'))
os.chmod(D + '/demo.sh', 0o755)
def demo():
    t = '/tmp/seeddemo'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    shutil.copy(D + '/demo.sh', t)
    r = subprocess.run(['bash', t + '/demo.sh'], cwd=W, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]
build()
rc, out = demo()
print('clean demo', rc, out if rc else '')
ok = rc == 0
for f, old, new in ns['edits']:
    p = W + '/' + f
    s = open(p).read()
    if s.count(old) != 1: sys.exit('%s: %d matches of %r' % (f, s.count(old), old))
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', 'diff', '--', 'src'], cwd=W, capture_output=True, text=True).stdout
open(D + '/patch.diff', 'w').write(diff)
build()
rc, out = demo()
print('patched demo', rc, out)
ok = ok and rc != 0
subprocess.run(['bash', W + '/_vp_test.sh', '/tmp/seedout.json'], capture_output=True)
res = json.load(open('/tmp/seedout.json'))
missing = sorted(stable - set(res['passed']))
print('tests', len(res['passed']), 'failed', res['failed'], 'missing', missing)
ok = ok and not missing
json.dump({'property': prop, 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(D + '/meta.json', 'w'), indent=1)
shutil.rmtree(W)
if not ok:
    shutil.rmtree(D); sys.exit('REJECTED')
print('kept', D)
