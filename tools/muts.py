#!/usr/bin/env python3
"""muts.py CHECK SPEC.py: run a list M = [(file, old, new[, n])] of source changes against a check, in parallel (development aid)"""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[2]).read(), ns)
V = os.path.dirname(os.path.abspath(__file__))


def one(m):
    r = subprocess.run([sys.executable, V + '/mut.py', sys.argv[1]] + [str(x) for x in m], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return m, r.stdout.strip().split('\n')[-1]


with ThreadPoolExecutor(7) as ex:
    for m, o in ex.map(one, ns['M']):
        print('== %s: %s => %s\n   %s' % (m[0], m[1][:60].replace('\n', ' '), m[2][:60].replace('\n', ' '), o[:230]))
