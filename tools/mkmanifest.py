#!/usr/bin/env python3
"""regenerate MANIFEST.json from the checks present and the not-applicable table"""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
na = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, notap = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        m = importlib.import_module('checks.' + i)
        checks.append({
            'property': i,
            'quick_cmd': 'python3 run.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % i,
            'technique': getattr(m, 'TECH', 'abstract interpretation of LLVM IR'),
            'level': getattr(m, 'LEVEL', 'other'),
            'level_note': getattr(m, 'NOTE', m.RULE) + ' Assumes: ' + '; '.join(m.ASSUME) + '.',
        })
    else:
        notap.append({'property': i, 'reason': na.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"', 'checks': checks, 'not_applicable': notap,
           'notes': 'All checks: static analysis (abstract interpretation over LLVM IR built from /repo/src on every run).'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
