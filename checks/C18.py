"""C18: word-break property lookup agrees with the Unicode table."""
import gzip
import os
import re
from .common import *

RULE = ('The property table (read from the IR initialiser) is sorted and disjoint and assigns every code point the property of '
        'WordBreakProperty-8.0.0; the lookup starts with the whole table and every step (recursive call or loop iteration) '
        'discards only rows that cannot contain the code point, returns a row only if it contains it and Other only when no '
        'row is left (inductive contract of the search).')
ASSUME = ['code points are 0..10FFFF (C01)']
TECH = 'abstract interpretation of LLVM IR: initialiser comparison with the Unicode table, inductive search contract (recursion or loop)'


def unicode_table():
    d = {}
    p = os.path.join(os.path.dirname(__file__), 'data', 'WordBreakProperty.txt.gz')
    for ln in gzip.open(p, 'rt', encoding='utf-8'):
        m = re.match(r'([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*;\s*(\w+)', ln)
        if m:
            a = int(m.group(1), 16)
            for c in range(a, int(m.group(2) or m.group(1), 16) + 1):
                d[c] = m.group(3)
    return d


def module(P):
    if 'word' not in P.modules:
        raise Unsupported('anchor vanished: word module')
    return P.modules['word']


def find_table(P):
    """(module, global atom name, rows) of the property table"""
    m = module(P)
    best = None
    for n, g in m.globals.items():
        if g['init'] and g['init'][0] == 'agg' and g['ty'].k == 'arr' and g['ty'].b.k in ('named', 'struct') and g['ty'].a > 50:
            if best is not None:
                raise Unsupported('two candidate property tables')
            best = n
    if best is None:
        raise Unsupported('anchor vanished: word-break property table')
    return m, best


def uses_table(f, name):
    def has(x):
        if isinstance(x, tuple):
            return x == ('global', name) or any(has(y) for y in x)
        return isinstance(x, list) and any(has(y) for y in x)
    return any(has(ins.a) for b in f.order for ins in f.blocks[b])


def lookup_functions(P):
    """(entry, search): the function from code point to property, and the one that reads the table"""
    m, tab = find_table(P)
    g = callgraph(P)
    fs = [f for f in m.functions.values() if uses_table(f, tab)]
    low = None
    reach = {}
    for f in m.functions.values():
        seen, todo = set(), [(m.name, f.name)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [y for y in g.get(x, ()) if y[0] == m.name]
        reach[f.name] = {x[1] for x in seen}
    ents = [f for f in m.functions.values() if len(f.params) == 1 and f.params[0][0].k == 'int' and f.ret is not None and f.ret.k == 'int'
            and any(t.name in reach[f.name] for t in fs)]
    ents = [f for f in ents if not any(h is not f and f.name in reach[h.name] for h in ents)]
    readers = [f for f in fs if any(ins.op == 'load' for b in f.order for ins in f.blocks[b])]
    if len(ents) != 1 or not readers:
        raise Unsupported('anchor vanished: property lookup function (%d candidates)' % len(ents))
    return m, tab, ents[0], readers


def run(ctx):
    P = ctx.program()
    m, tab, entry, readers = lookup_functions(P)
    I0 = ctx.interp()
    g = m.globals[tab]
    row = m.layout.size(g['ty'].b)
    n = g['ty'].a
    flat = I0.flat(m, tab, g)
    cols = sorted({o % row for o, _, _ in flat})
    if len(cols) != 3:
        raise Unsupported('property table rows have %d columns' % len(cols))
    rows = [[None] * 3 for _ in range(n)]
    for o, sz, v in flat:
        rows[o // row][cols.index(o % row)] = v
    en = ir.enumerators(m)
    nm = {}
    for k, v in en.items():
        nm.setdefault(v, []).append(k)
    # 1. the data
    ctx.require(all(r[0] <= r[1] for r in rows), 'sorted', 'every row is a range', tab)
    bad = [k for k in range(n - 1) if rows[k][1] >= rows[k + 1][0]]
    ctx.require(not bad, 'sorted', 'rows ascend without overlap%s' % ((' (row %d)' % bad[0]) if bad else ''), tab)
    got = {}
    for a, b, v in rows:
        for c in range(a, min(b, MAXCP) + 1):
            got[c] = v
    want = unicode_table()
    other = en.get('Other', 0)
    diff = {}
    for c in range(MAXCP + 1):
        w = want.get(c, 'Other')
        if w not in en:
            diff.setdefault((w, 'no constant'), []).append(c)
        elif got.get(c, other) != en[w]:
            diff.setdefault((w, '/'.join(nm.get(got.get(c, other), ['?']))), []).append(c)
    ctx.require(not diff, 'data', '%d rows give all 1114112 code points the property of WordBreakProperty-8.0.0' % n, tab)
    for (w, x), cs in sorted(diff.items())[:6]:
        ctx.fail('data', 'U+%04X (and %d more) is %s, must be %s' % (cs[0], len(cs) - 1, x, w), tab)
    used = {}
    for k, v in en.items():
        used.setdefault(v, []).append(k)
    props = set(want.values()) | {'Other', 'sot', 'eot'}
    dup = [ks for ks in used.values() if len([k for k in ks if k in props]) > 1]
    ctx.require(not dup, 'data', 'properties have distinct values', tab)
    # 2. the search
    ga = interp.glob_atom(m.name if g['internal'] else '', tab)

    def at(i, c):
        a = add(V(ga), add(scale(i, row), C(cols[c])))
        r = I0.column(m, tab, g, add(scale(i, row), C(cols[c])), 4) if not i.const else None
        return V(atom(('ld', a, 4), None, r[0], r[1]) if r else atom(('ld', a, 4)))
    cp = arg('code_point', 0, MAXCP)
    N = n

    def legit(f, l, r, l2, r2):
        """going from candidate rows l..r (inclusive) to l2..r2 loses no row that contains cp"""
        if f.decide(sub(l, l2), '<=') is not True or f.decide(sub(r2, r), '<=') is not True:
            return False
        okl = lin_eq(f, l, l2) or f.decide(add(sub(at(sub(l2, ONE), 1), cp), ONE), '<=') is True
        okr = lin_eq(f, r, r2) or f.decide(add(sub(cp, at(add(r2, ONE), 0)), ONE), '<=') is True
        return okl and okr

    def hit(f, val, l, r):
        """val is the property of a row within l..r that contains cp"""
        a = val.one()
        if a is None or a.key[0] != 'ld':
            return False
        b, off = interp.base_of(a.key[1])
        if b is not ga:
            return False
        o = sub(off, C(cols[2]))
        k = div(o, row)
        return k is not None and f.decide(sub(at(k, 0), cp), '<=') is True and f.decide(sub(cp, at(k, 1)), '<=') is True

    def div(l, d):
        if l.c % d or any(k % d for _, k in l.t):
            return None
        return Lin(tuple((a, k // d) for a, k in l.t), l.c // d)

    def final(o, l, r, hi):
        f = o.st.facts
        if o.kind != 'ret':
            return False, 'ends the program'
        if f.value(o.val) == other:
            return f.decide(add(sub(r, l), ONE), '<=') is True, 'Other although rows are left'
        return hit(f, o.val, l, r), 'returns %r' % (o.val,)
    rec = [f for f in readers if (m.name, f.name) in callgraph(P).get((m.name, f.name), ())]
    if rec:
        F = rec[0]
        # entry hands over the whole table
        I = ctx.interp(prims={(m.name, F.name): event_prim('search', None)})
        roles = None
        for o in live(I.run(entry, [cp])):
            ev = [e for e in o.st.events() if e[0] == 'call' and e[1] == 'search']
            if len(ev) != 1 or o.kind != 'ret' or o.val.one() is None or o.val.one().key[:2] != ('ret', 'search'):
                ctx.fail('entry', 'the lookup does not return the result of one search', entry.name)
                return
            a = ev[0][2]
            iv = [k for k, x in enumerate(a) if lin_eq(o.st.facts, x, cp)]
            zs = [k for k, x in enumerate(a) if o.st.facts.value(x) == 0]
            es = [k for k, x in enumerate(a) if o.st.facts.value(x) is not None and o.st.facts.value(x) > 0]
            if len(iv) != 1 or len(zs) != 1 or len(es) != 1:
                ctx.fail('entry', 'the search does not start with the whole table: %s' % (a,), entry.name)
                return
            roles = (iv[0], zs[0], es[0], o.st.facts.value(a[es[0]]))
        if roles is None:
            raise Unsupported('lookup never returns')
        ci, li, ri, hi = roles
        close = {N - 1: 0, N: 1}.get(hi)
        ctx.require(close is not None, 'entry', 'the search starts with rows 0..%d of %d' % (hi, N), entry.name)
        if close is None:
            return
        l, r = arg('left', 0, N), arg('right', -1, N)
        args = [None] * 3
        args[ci], args[li], args[ri] = cp, l, r
        I = ctx.interp(prims={'*recursion': lambda I, fr, ins, st, tgt, vals: event_prim('recurse', None)(I, fr, ins, st, vals)})
        st = interp.State(Facts()).assume(sub(sub(r, C(close)), C(N - 1)), '<=')
        k = 0
        for o in live(I.run(F, args, st)):
            ctx.paths += 1
            f = o.st.facts
            if o.kind == 'exit' and any(e[0] == 'assert' for e in o.st.events()):
                ctx.fail('search', 'an assertion of the search can fail when %s' % f.describe(), F.name)
                continue
            ev = [e for e in o.st.events() if e[0] == 'call' and e[1] == 'recurse']
            R = sub(r, C(close))
            if ev:
                a = ev[-1][2]
                ok = len(ev) == 1 and lin_eq(f, a[ci], cp) and legit(f, l, R, a[li], sub(a[ri], C(close))) and \
                    o.val.one() is not None and o.val.one().key[:2] == ('ret', 'recurse')
                prog = f.decide(add(sub(sub(a[ri], a[li]), sub(r, l)), ONE), '<=') is True
                ctx.require(ok, 'search', 'the search goes on in rows %r..%r without losing a row that contains the code point, when %s' % (
                    a[li], a[ri], f.describe()), F.name)
                ctx.require(prog, 'progress', 'the search narrows', F.name)
                ctx.require(f.decide(scale(a[li], -1), '<=') is True and f.decide(sub(sub(a[ri], C(close)), C(N - 1)), '<=') is True, 'search',
                            'the search stays in the table', F.name)
            else:
                ok, why = final(o, l, R, hi)
                ctx.require(ok, 'search', 'a search that ends is right: %s when %s' % (why, f.describe()), F.name)
            k += 1
        ctx.require(k >= 3, 'search', 'the search compares', F.name)
        return
    # iterative
    I = ctx.interp()
    k = 0
    done = set()
    for o in live(I.run(entry, [cp])):
        ctx.paths += 1
        ls = loops_of(o.st)
        if not ls:
            ctx.fail('search', 'a code point is answered without a search', entry.name)
            continue
        S = ls[-1]
        best = None
        for lv in S.vars:
            for rv in S.vars:
                if lv is rv or lv.sym is None or rv.sym is None or lv.tmpl or rv.tmpl:
                    continue
                i0, i1 = S.pre.facts.value(lv.init), S.pre.facts.value(rv.init)
                if i0 != 0 or i1 not in (N - 1, N):
                    continue
                best = (lv, rv, i1 - (N - 1))
        if best is None:
            raise Unsupported('the property search is neither a recursion nor a loop over bounds of the table')
        lv, rv, close = best
        l, R = V(lv.sym), sub(V(rv.sym), C(close))

        def within(f):
            """facts with the bounds on both sides, which every step keeps (legit); what they say about quotients"""
            for d in (scale(l, -1), sub(R, C(N - 1))):
                f = f.assume(d, '<=') if f is not None else None
            if f is None:
                return None
            seen = set()
            for d in list(f.le):
                for a in deep_atoms(d):
                    if a.key[0] == 'sdiv' and a not in seen:
                        seen.add(a)
                        x, k = a.key[1:3]
                        if f.decide(scale(x, -1), '<=') is True:
                            for e in (sub(scale(V(a), k), x), sub(x, add(scale(V(a), k), C(k - 1)))):
                                f = f.assume(e, '<=') or f
            return f
        if id(S) not in done:
            done.add(id(S))
            for t in S.trans():
                k += 1
                f = within(t.facts)
                if f is None:
                    continue
                ctx.require(legit(f, l, R, t.nxt[lv], sub(t.nxt[rv], C(close))), 'search',
                            'a step of the search loses no row that contains the code point, when %s' % f.describe(), S)
                ctx.require(f.decide(add(sub(sub(t.nxt[rv], t.nxt[lv]), sub(V(rv.sym), l)), ONE), '<=') is True, 'progress', 'the search narrows', S)
        ok, why = final(o, l, R, None)
        ctx.require(ok, 'search', 'a search that ends is right: %s when %s' % (why, o.st.facts.describe()), S)
        k += 1
    ctx.require(k >= 3, 'search', 'the search compares', entry.name)
