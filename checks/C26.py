"""C26: every character has exactly one class."""
import json
import os
from .common import *

RULE = ('The range table (read from the IR initialiser) assigns every code point the documented block name, where the last '
        'row wins and a code point in no row falls to class 0; the initialisation visits every row, finds or creates the one '
        'class of that name by complete search and stores it for exactly the code points of the row (loop summaries); charclass '
        'and charclass_name return these entries; add_class adds to the class, total and character rows alike and is the only '
        'code that changes class rows; the report lists each class with its name and each character.')
ASSUME = ['characters are code points 0..10FFFF (C01)', 'strcmp compares strings exactly']
TECH = 'abstract interpretation of LLVM IR: initialiser table comparison, nested inductive loop summaries, effect (writer) analysis'


def spec():
    d = {}
    for a, b, n in json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'charclass.json'))):
        for c in range(a, b + 1):
            d[c] = n
    return d


def run(ctx):
    P = ctx.program()
    value = arg('value', 0, MAXCP)
    I = ctx.interp()
    outs = live(I.run('charclass', [value]))
    cb = None
    init = 0
    for o in outs:
        ctx.paths += 1
        if o.kind != 'ret':
            continue
        a = o.val.one() if o.val is not None else None
        if a is None or a.key[0] != 'ld' or a.key[2] != 1:
            ctx.fail('lookup', 'charclass returns %r instead of the entry of the character' % (o.val,), 'charclass')
            continue
        b, off = interp.base_of(a.key[1])
        ctx.require(b.obj == 'global' and lin_eq(o.st.facts, off, value), 'lookup', 'charclass returns the entry of its character (%r)' % (o.val,), 'charclass')
        ctx.require(cb in (None, b), 'lookup', 'one class table', 'charclass')
        cb = b
        if len(a.key) > 3 and loops_of(o.st):
            init += 1
            initialisation(ctx, P, I, o, b)
    if init == 0:
        raise Unsupported('anchor vanished: charclass does not initialise its table')
    names(ctx, P)
    sums(ctx, P)
    rows(ctx, P)


def outer(S):
    vs = [(v, i) for v, i, s in counters(S) if s == 1 and v.kind == 'phi' and i == ZERO]
    return vs


def initialisation(ctx, P, I, o, cb):
    S = loops_of(o.st)[-1]
    where = '%s:%s' % (S.mod, S.line)
    # class numbers start unused: the guard of the initialisation, and zeroed storage
    cand = None
    for v, i in outer(S):
        cand = v
    if cand is None:
        raise Unsupported('anchor vanished: class table initialisation is not a loop over rows')
    i = V(cand.sym)
    fills = 0
    tab = None
    nclass = None
    for t in S.trans():
        fl = None
        for e in t.events:
            if e[0] != 'loop':
                continue
            L = e[1]
            for v, st, stp in counters(L):
                if stp == 1 and L.trans() and all(stored(I, tt, cb, V(v.sym)) is not None for tt in L.trans()):
                    fl = (L, v, st)
        if fl is None:
            ctx.fail('fill', 'a row of the range table is not stored', where)
            continue
        L, v, st = fl
        k = V(v.sym)
        f = t.facts
        a = st.one()
        if a is None or a.key[0] != 'ld':
            raise Unsupported('class range does not start at a table entry')
        gb, off = interp.base_of(a.key[1])
        g, m = I.ginfo(gb)
        w = off.coef(cand.sym)
        if gb.obj != 'global' or not w or not lin_eq(f, sub(off, scale(i, w)), C(off.c)):
            ctx.fail('fill', 'the filled range starts at %r, not in row i' % (st,), where)
            continue
        row = P.modules[m.name].layout.size(g['ty'].b)
        n = g['ty'].a
        ctx.require(w == row, 'rows', 'row i is %d bytes after row i-1' % row, where)
        tab = (m, gb, row, n, off.c)
        # bounds of the counted loop
        stop = None
        for tt in L.trans():
            for l in tt.facts.le:
                pass
        stop = upper(L, k, gb)
        if stop is None:
            ctx.fail('fill', 'the filled range does not end at a table entry of the row', where)
            continue
        so = interp.base_of(stop.one().key[1])[1]
        ctx.require(counted(L, st, add(stop, ONE)) is v and lin_eq(f, sub(so, scale(i, row)), C(so.c)), 'fill',
                    'exactly the code points from start to stop of row i are assigned', where)
        j = stored(I, L.trans()[0], cb, k)
        fills += 1
        # number j belongs to the name of row i
        nm = [x for x in range(0, row, 8) if x != off.c and x != so.c and ptr_field(P, m, g, x)]
        if len(nm) != 1:
            raise Unsupported('range rows have %d names' % len(nm))
        name = V(atom(('ld', add(V(gb), add(scale(i, row), C(nm[0]))), 8)))
        tab = tab + (so.c, nm[0])
        ok, nclass = named(ctx, I, S, t, j, name, nclass)
        ctx.require(ok, 'name', 'the class stored for a row is the one that carries the name of the row', where)
    ctx.require(fills > 0, 'fill', 'rows are stored', where)
    if tab is None or len(tab) < 7:
        return
    m, gb, row, n, so, sto, no = tab
    ctx.require(counted(S, ZERO, C(n)) is cand, 'rows', 'all %d rows of the range table are visited in order' % n, where)
    # decide the assignment itself
    g = m.globals[gb.key[2]]
    spc = spec()
    got = {}
    order = []
    for r in range(n):
        a = I.const_at(m, g['ty'], g['init'], r * row + so, 4).c
        b = I.const_at(m, g['ty'], g['init'], r * row + sto, 4).c
        s = I.const_at(m, g['ty'], g['init'], r * row + no, 8).one()
        nm = cstr(P, m, s)
        if nm not in order:
            order.append(nm)
        for c in range(a, b + 1):
            got[c] = nm
    ctx.require(len(order) <= 256, 'names', '%d class names fit the class numbers' % len(order), where)
    bad = {}
    for c in range(MAXCP + 1):
        x, y = got.get(c, order[0]), spc.get(c, 'Unassigned')
        if x != y:
            bad.setdefault((x, y), []).append(c)
    ctx.require(not bad, 'blocks', 'all 1114112 code points are in their documented class', where)
    for (x, y), cs in sorted(bad.items())[:5]:
        ctx.fail('blocks', 'U+%04X..U+%04X (%d) classed %r instead of %r' % (cs[0], cs[-1], len(cs), x, y), where)


def cstr(P, m, a):
    from engine import libc
    g = P.modules[a.key[1] or m.name].globals[a.key[2]]
    return g['init'][1].rstrip(b'\0').decode('latin1')


def ptr_field(P, m, g, x):
    t = m.structs[g['ty'].b.a] if g['ty'].b.k == 'named' else g['ty'].b
    for k in range(len(t.a)):
        o, et = m.layout.elem(t, k)
        if o == x:
            return et.k == 'ptr'
    return False


def stored(I, t, b, k):
    """the value an iteration stores in byte k of table b"""
    m = t.st.mem
    while m is not None and m is not t.head.mem:
        e = m[1]
        if e[0] == 'st' and e[1] is b and e[3] == 1 and lin_eq(t.facts, e[2], k):
            return e[4]
        m = m[0]
    return None


def upper(L, k, gb):
    """the table entry that bounds k from above"""
    for t in L.trans():
        for a in set(a for l in t.facts.le for a, _ in l.t):
            if a.key[0] == 'ld' and interp.base_of(a.key[1])[0] is gb and t.facts.decide(sub(k, V(a)), '<=') is True:
                return V(a)
    return None


def named(ctx, I, S, t, j, name, nc):
    """class number j carries the name: found by search, or created after a complete search"""
    f = t.facts
    j8 = f.norm(j)
    srch = None
    for e in t.events:
        if e[0] == 'loop':
            for v, i0, st in counters(e[1]):
                L = e[1]
                if i0 == ZERO and st == 1 and L.trans() and all(any(x.key[0] == 'strcmp' and tt.facts.decide(V(x), '!=') is True and
                                                                   mentions(x, name) and mentions(x, V(v.sym)) for x in tt.facts.dom) for tt in L.trans()):
                    srch = (L, v)
    if srch is None:
        return False, nc
    L, v = srch
    sv = V(v.sym)
    # found
    for a in f.dom:
        if a.key[0] == 'strcmp' and f.value(V(a)) == 0 and mentions(a, name) and mentions(a, sv):
            return same_byte(f, j8, sv), nc
    # created: the search ran over all numbers in use, the name goes to the next one and the number in use grows by one
    for c in S.vars:
        if c.kind != 'cell' or c.sym is None or f.value(sub(t.nxt[c], V(c.sym))) != 1:
            continue
        if counted(L, ZERO, V(c.sym), early=True) is not v or not lin_eq(f, sv, V(c.sym)):
            continue
        m = t.st.mem
        while m is not None and m is not t.head.mem:
            e = m[1]
            if e[0] == 'st' and e[3] == 8 and lin_eq(f, e[4], name) and lin_eq(f, e[2], scale(sv, 8)):
                return same_byte(f, j8, sv) and f.value(c.init) == 0, c
            m = m[0]
    return False, nc


def mentions(a, x):
    x = x.one()
    return any(y is x for k in a.key[1:] if isinstance(k, Lin) for y in deep_atoms(k))


def same_byte(f, j, v):
    """j is v reduced to a byte"""
    a = j.one()
    return lin_eq(f, j, v) or (a is not None and a.key[0] == 'trunc' and lin_eq(f, a.key[2], v))


def names(ctx, P):
    cls = arg('class', 0, 255)
    I = ctx.interp()
    n = 0
    for o in live(I.run('charclass_name', [cls])):
        if o.kind != 'ret':
            continue
        a = o.val.one() if o.val is not None else None
        ok = a is not None and a.key[0] == 'ld' and lin_eq(o.st.facts, interp.base_of(a.key[1])[1], scale(cls, 8))
        n += 1
        ctx.require(ok, 'lookup', 'charclass_name returns the name stored for the class', 'charclass_name')
    ctx.require(n > 0, 'lookup', 'charclass_name returns', 'charclass_name')


def sums(ctx, P):
    acc = arg('accdata', ptr=True)
    value, cnt, mis = arg('value', 0, MAXCP), arg('count'), arg('missed')
    I = ctx.interp(prims=CONTRACT)
    oc, om = P.off('Accclass', 'count'), P.off('Accclass', 'missed')
    sz = P.sizeof('Accclass')
    cl = V(atom(('charclass', value), None, 0, 255))
    cells = [add(add(acc, C(P.off('Accdata', 'large_class'))), scale(cl, sz)), add(acc, C(P.off('Accdata', 'total_class'))),
             add(add(acc, C(P.off('Accdata', 'small_class'))), scale(value, sz))]
    n = 0
    for o in live(I.run('add_class', [acc, value, cnt, mis])):
        n += 1
        ctx.paths += 1
        for c in cells:
            for off, d in ((oc, cnt), (om, mis)):
                a = add(c, C(off))
                r = I.load(o.st, a, 8, ir.Ty('int', 64))
                ctx.require(len(r) == 1 and lin_eq(r[0][0].facts, r[0][1], add(V(atom(('ld', a, 8))), d)), 'add',
                            'add_class adds its counts to %r' % (a,), 'add_class')
        w = set()
        m = o.st.mem
        while m is not None:
            if m[1][0] == 'st' and m[1][1].obj not in ('alloca',):
                w.add(m[1][2])
            m = m[0]
        ctx.require(len(w) <= 6, 'add', 'add_class changes nothing else', 'add_class')
    ctx.require(n > 0, 'add', 'add_class returns', 'add_class')
    # nobody else changes class rows
    g = {}
    mods = ctx.program
    full = build_all()
    cg = callgraph(full)
    writers = {(m.name, f.name) for m in full.modules.values() for f in m.functions.values()
               if stores_field(full, 'Accclass', 'count')(f) or stores_field(full, 'Accclass', 'missed')(f)}
    callers = {}
    for a, bs in cg.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)

    def only_add(x, seen):
        if x[1] == 'add_class' or x in seen:
            return True
        cs = callers.get(x, set())
        return bool(cs) and all(only_add(c, seen | {x}) for c in cs)
    ctx.require(bool(writers), 'writers', 'class rows are written', 'add_class')
    for x in sorted(writers):
        ctx.require(only_add(x, set()), 'writers', 'class rows change only through add_class (%s:%s)' % x, x[1])


def build_all():
    from engine import build
    return build.load(None)


def rows(ctx, P):
    acc = arg('accdata', ptr=True)
    I = ctx.interp(prims=dict(CONTRACT, sort=event_prim('sort'), table_in_array=table_in_array_prim))
    I.array_struct = 'Conftable'
    I.range_hook = ranges(P)
    oc, om = P.off('Accclass', 'count'), P.off('Accclass', 'missed')
    sz = P.sizeof('Accclass')
    n = 0
    for o in live(I.run('write_accrpt', [acc, arg('filename', 0, ptr=True)])):
        if o.kind != 'ret':
            continue
        n += 1
        seen = 0
        for S in loops_of(o.st):
            for fld, hi in (('large_class', C(256)), ('small_class', C(MAXCP + 1))):
                v = counted(S, ZERO, hi)
                if v is None:
                    continue
                i = V(v.sym)
                c = add(add(acc, C(P.off('Accdata', fld))), scale(i, sz))
                cnt = V(atom(('ld', add(c, C(oc)), 8)))
                mis = V(atom(('ld', add(c, C(om)), 8)))
                for t in S.trans():
                    toks = outs_by_stream(t.events)
                    toks = [x for s in toks.values() for x in s]
                    if t.facts.decide(cnt, '<=') is True:
                        ctx.require(not toks, 'rows', 'a class without characters has no row', S)
                        continue
                    ctx.require(t.facts.decide(cnt, '<=') is False, 'rows', 'every class with characters has a row', S)
                    ints = [x for x in toks if x[0] == 'int']
                    ok = len(ints) >= 2 and lin_eq(t.facts, ints[0][-1], cnt) and lin_eq(t.facts, ints[1][-1], mis)
                    if fld == 'large_class':
                        strs = [x for x in toks if x[0] == 'str']
                        nm = V(atom(('charclass_name', i), None, 1))
                        ok = ok and len(strs) == 1 and lin_eq(t.facts, strs[0][1], nm)
                    ctx.require(ok, 'rows', 'a row of %s shows its counts and its own name' % fld, S)
                seen |= 1 if fld == 'large_class' else 2
        ctx.require(seen & 1, 'rows', 'the report has a row for each class', 'write_accrpt')
        ch = V(atom(('ld', add(acc, C(P.off('Accdata', 'characters'))), 8)))
        ctx.require(seen & 2 or o.st.facts.decide(ch, '<=') is True, 'rows', 'the report has a row for each character', 'write_accrpt')
    ctx.require(n > 0, 'rows', 'write_accrpt returns', 'write_accrpt')
