"""dump.py: print outcomes and loop summaries (development aid)"""
import sys
sys.path.insert(0, '/verif')
from engine.terms import *


def mem_since(t):
    out = []
    m = t.st.mem
    while m is not None and m is not t.head.mem:
        out.append(m[1])
        m = m[0]
    return out[::-1]


def ev(e, ind):
    if e[0] == 'loop':
        loop(e[1], ind)
    else:
        print(ind + 'EV', str(e)[:300])


def loop(S, ind=''):
    print(ind + 'LOOP', S, 'lid', S.lid)
    for v in S.vars:
        print(ind + '  VAR', v.kind, v.key if v.kind == 'cell' else v.key, 'sym', v.sym, 'init', v.init, 'flag', v.flag, 'T' if v.tmpl else '')
    for b, d in S.saccs.items():
        print(ind + '  SACC', b, {k: str(x)[:200] for k, x in d.items() if k != 'delta'})
    for p, part in S.parts.items():
        print(ind + '  PART', p)
        for t in part.trans:
            print(ind + '   TRANS', t.facts.describe()[:400])
            for v, x in t.nxt.items():
                print(ind + '      ', v.name if hasattr(v, 'name') else v, v.sym, '->', x)
            for b, d in S.saccs.items():
                print(ind + '       sacc', b, str(d.get('delta', {}).get(id(t)))[:200])
            for e in mem_since(t):
                print(ind + '       MEM', str(e)[:200])
            for e in t.events:
                ev(e, ind + '       ')
        for o in part.exits:
            print(ind + '   EXIT', o.kind, o.val, o.st.facts.describe()[:300], 'blk', getattr(o, 'blk', None))


def outs(os):
    for o in os:
        print('OUT', o.kind, o.val, o.st.facts.describe()[:400])
        for e in o.st.events():
            ev(e, '  ')
