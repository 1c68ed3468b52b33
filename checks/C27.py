"""C27: the distribution tools print the share of characters (words) in reports of at least x per cent."""
from .common import *
from engine.interp import app
from .C11 import one_global, glob

RULE = ('Adding a report (inductive loop summary, one generic iteration per point): with count 0 nothing changes; otherwise every point x from 0 '
        'to 100 with 100.0*(count-missed)/count >= x, and no other, and the total go up by count; the walk over the points may stop early only '
        'upwards and only at a point above the accuracy. Printing: with total 0 nothing, otherwise exactly the 101 lines of x and 100.0*count[x]/total, in order. '
        'main of both tools: each file is read once and the differences of the totals it makes are added once to the distribution that is printed last.')
ASSUME = ['reading a report adds its counts to the totals (C05, C06)', 'file order and argument handling of initialize (C25)',
          'counts stay below 2^53']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; symbolic floating-point terms; per-iteration effect comparison'

# tool, report structure, reader, fields
TOOLS = [('accdist', 'Accdata', 'read_accrpt', [('characters',), ('errors',)]),
         ('wordaccdist', 'Wacdata', 'read_wacrpt', [('total', 'count'), ('total', 'missed')])]


def nonneg(P):
    r = ranges(P)
    return lambda tag, base, off, ty: (0, 1 << 50) if tag and tag[0] == 'Dist' else r(tag, base, off, ty)


def fc(x):
    return V(atom(('fconst', float(x)), '%g' % x, fl=True))


def i2f(f, x):
    return app('i2f', f.norm(x), fl=True)


def percent(I, f, x, of):
    return I.farith('fdiv', I.farith('fmul', fc(100.0), i2f(f, x)), i2f(f, of))


def cell(P, base, fld, i):
    return add(base, add(C(P.off('Dist', fld)), scale(i, 8)))


def run(ctx):
    for tool, struct, reader, fields in TOOLS:
        ctx.P = None
        P = ctx.program(tool)
        if tool == 'accdist':
            update(ctx, P)
            write(ctx, P)
        main(ctx, P, tool, struct, reader, fields)


def update(ctx, P):
    I = ctx.interp(prims={})
    I.range_hook = nonneg(P)
    fn = P.modules['dist'].functions.get('update_dist')
    if fn is None or len(fn.params) != 3:
        raise Unsupported('anchor vanished: update_dist')
    dist, cnt, mis = obj('dist', P.sizeof('Dist')), arg('count', 0, 1 << 40), arg('missed', 0, 1 << 40)
    outs = live(I.run(fn, [dist, cnt, mis]))
    pts = P.fields['Dist'][1]['count'][1] // 8
    ctx.require(pts == 101, 'points', 'a distribution has 101 points (%d)' % pts, 'Dist')
    for o in outs:
        ctx.paths += 1
        f = o.st.facts
        ls = loops_of(o.st)
        if f.decide(cnt, '==') is True:
            ctx.require(o.kind == 'ret' and not [e for e in o.st.entries() if e[1].obj == 'param'] and not ls, 'empty',
                        'a report without characters changes nothing', fn.name)
            continue
        if f.decide(cnt, '!=') is not True:
            ctx.fail('empty', 'a report without characters is told apart', fn.name)
            continue
        got, was = load_at(I, o.st, dist, P, 'Dist', 'total_count'), load_at(I, interp.State(Facts()), dist, P, 'Dist', 'total_count')
        ctx.require(o.kind == 'ret' and got is not None and lin_eq(f, got, add(was, cnt)), 'total', 'the total goes up by the count (%r)' % got, fn.name)
        S = [x for x in ls if any(mem_since(t) for t in x.trans())]
        if len(S) != 1:
            ctx.fail('points', 'the points are gone through once (%d loops)' % len(S), fn.name)
            continue
        points(ctx, I, P, S[0], dist, cnt, mis, fn)


def points(ctx, I, P, S, dist, cnt, mis, fn):
    c = [(v, i, s) for v, i, s in counters(S) if not v.tmpl and abs(s) == 1 and S.pre.facts.value(i) is not None]
    if not c:
        raise Unsupported('the walk over the points in %s' % fn.name)
    best = None
    for v, i, step in c:
        bad = walk(ctx, I, P, S, dist, cnt, mis, v, S.pre.facts.value(i), step)
        if best is None or len(bad) < len(best):
            best = bad
    for b in best:
        ctx.fail('points', b, S)
    ctx.require(not best, 'points', 'exactly the points up to the accuracy go up by the count', S)


def walk(ctx, I, P, S, dist, cnt, mis, v, init, step):
    # the point an iteration is about
    off = -1 if init == 101 else 0
    x = add(V(v.sym), C(off))
    first = init + off
    bad = []
    if first != (0 if step > 0 else 100):
        bad.append('the walk starts at one end')

    def above(f):
        acc = percent(I, f, sub(cnt, mis), cnt)
        return app('flt', acc, i2f(f, x), lo=0, hi=1)

    def spec(q, f):
        return 'keep' if q.nz(above(f)) else 'add'
    for t in S.trans():
        ctx.paths += 1
        for f, want in table(t.facts, lambda q: spec(q, t.facts)):
            st = [e for e in mem_since(t) if e[0] in ('st', 'cp', 'hv') and not (e[0] == 'st' and e[1].obj in ('local', 'alloca'))]
            st = [e for e in st if not (e[0] == 'st' and lin_eq(f, e[4], load0(I, t.head, V(e[1]), e[2], P)))]
            if f.decide(add(x, ZERO), '<=') is None and f.decide(sub(C(0), x), '<=') is None:
                bad.append('the walk stays within the points')
            if want == 'keep':
                if st:
                    bad.append('a point above the accuracy of the report changes')
            else:
                addr = cell(P, dist, 'count', x)
                if len(st) != 1 or st[0][0] != 'st' or not lin_eq(f, add(V(st[0][1]), st[0][2]), addr):
                    bad.append('a point up to the accuracy of the report is counted')
                    continue
                was = load0(I, t.head, V(st[0][1]), st[0][2], P)
                if not lin_eq(f, st[0][4], add(was, cnt)):
                    bad.append('a point goes up by the count (%r)' % (st[0][4],))
    end = C(101) if step > 0 else C(-1)
    for o in S.exits():
        if dead(o):
            continue
        f = o.st.facts
        if o.kind == 'goto' and f.decide(sub(x, end), '==') is True:
            continue
        ok = step > 0 and f.value(above(f)) == 1 and f.decide(sub(x, C(100)), '<=') is True
        if not ok:
            bad.append('the walk stops before all points up to the accuracy were counted')
    return sorted(set(bad))


def load0(I, st, base, off, P):
    r = I.load(st, add(base, off), 8, ir.Ty('int', 64), ('Dist', 0))
    return r[0][1] if len(r) == 1 else None


def write(ctx, P):
    I = ctx.interp(prims=dict(open_file=event_prim('open', 'fresh'), close_file=event_prim('close', None)))
    I.range_hook = nonneg(P)
    fn = P.modules['dist'].functions.get('write_dist')
    if fn is None or len(fn.params) != 2:
        raise Unsupported('anchor vanished: write_dist')
    dist, name = arg('dist', 1, ptr=True), arg('filename', ptr='null')
    for o in live(I.run(fn, [dist, name])):
        ctx.paths += 1
        f = o.st.facts
        z = f.decide(load_at(I, o.st, dist, P, 'Dist', 'total_count'), '==')
        total = load_at(I, o.st, dist, P, 'Dist', 'total_count')
        op = [e for e in o.st.events() if e[0] == 'call' and e[1] == 'open']
        if z is True:
            outp = [d for s in streams(o.st.events()) for d in document(o.st.events(), s)]
            ctx.require(not outp, 'lines', 'nothing is written when there is nothing to show', fn.name)
            continue
        ctx.require(z is False and o.kind == 'ret', 'lines', 'a distribution of nothing is told apart', fn.name)
        ctx.require(len(op) == 1 and lin_eq(f, op[0][2][0], name), 'lines', 'the named file is written', fn.name)
        ss = streams(o.st.events())
        doc = [d for s in ss for d in document(o.st.events(), s)]
        if len(ss) != 1 or [d[0] for d in doc] != ['rows']:
            ctx.fail('lines', 'the distribution is written as one sequence of lines (%s)' % [d[0] for d in doc], fn.name)
            continue
        S = doc[0][1]
        v = counted(S, ZERO, C(101))
        ctx.require(v is not None, 'lines', 'there is one line for each point from 0 to 100, in order', S)
        if v is None:
            continue
        for t in S.trans():
            d = document(t.events, ss[0])
            g = t.facts
            val = load0(I, t.st, dist, add(C(P.off('Dist', 'count')), scale(V(v.sym), 8)), P)
            want = [('int', 3, '', V(v.sym)), ('lit', b' '), ('flt', 6, '', 2, 'f', percent(I, g, val, total)), ('lit', b'\n')]
            ctx.require(len(d) == 1 and d[0][0] == 'toks' and same_word(g, d[0][1], want), 'lines',
                        'a line shows the point and its percentage of the total (%s)' % (show_toks(d[0][1]) if d and d[0][0] == 'toks' else d), S)


def streams(ev):
    return sorted({repr(e[1]) for e in flat(ev) if e[0] == 'out'})


def main(ctx, P, tool, struct, reader, fields):
    data, dist = one_global(P, tool, struct), one_global(P, tool, 'Dist')

    def read(I, fr, ins, st, a):
        f = st.facts
        n = sum(1 for e in st.events() if e[0] == 'read')
        it = st.extra.get('iter', ())
        ds = []
        for k, path in enumerate(fields):
            d = V(atom(('in_report', k, n) + tuple([it] if it else []), 'in_report.%s' % '.'.join(path), 0, 1 << 40))
            ds.append(d)
            s, o, sz = struct, 0, 8
            for p in path2(P, struct, path):
                if isinstance(p, tuple):
                    s, p = p
                o += P.off(s, p)
                sz = P.fields[s][1][p][1]
                tag = (s, list(P.fields[s][1]).index(p))
            b, bo = interp.base_of(f.norm(a[0]))
            was = load_at(I, st, a[0], P, struct, *path2(P, struct, path))
            st = st.put(('st', b, add(bo, C(o)), sz, add(was, d), tag))
        return [(st.event('read', f.norm(a[0]), f.norm(a[1]), tuple(ds), I.line(fr, ins)), None)]

    def upd(I, fr, ins, st, a):
        return [(st.event('update', tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), None)]

    def wr(I, fr, ins, st, a):
        return [(st.event('write', tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), None)]
    I = ctx.interp(prims={'initialize': initialize_prim, reader: read, 'update_dist': upd, 'write_dist': wr})
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    n = 0

    def pairs(ev, f, where):
        pend = None
        for e in ev:
            if e[0] == 'loop':
                ctx.require(pend is None, 'reports', 'a report is added before the next one is read', where)
                for t in e[1].trans():
                    pairs(t.events, t.facts, e[1])
            elif e[0] == 'read':
                ctx.require(pend is None, 'reports', 'a report is added before the next one is read', where)
                ctx.require(lin_eq(f, e[1], data), 'reports', 'reports are read into the data the counts are taken from', where)
                pend = e
            elif e[0] == 'update':
                ok = pend is not None and lin_eq(f, e[1][0], dist) and all(lin_eq(f, x, y) for x, y in zip(e[1][1:], pend[3]))
                ctx.require(ok, 'reports', 'what is added is exactly what the report held (%r)' % (e[1][1:],), where)
                pend = None
        ctx.require(pend is None, 'reports', 'every report read is added', where)
    for o in live(I.run(P.modules[tool].functions['main'], [arg('argc0', 0), argv])):
        ctx.paths += 1
        f = o.st.facts
        ev = o.st.events()
        if o.kind == 'exit' and any(e[0] == 'error' for e in ev):
            continue
        n += 1
        k = [e[0] for e in flat(ev) if e[0] in ('read', 'update', 'write', 'terminate')]
        w = [e for e in ev if e[0] == 'write']
        ctx.require(len(w) == 1 and k.count('write') == 1 and 'read' not in k[k.index('write'):] and lin_eq(f, w[0][1][0], dist) and
                    lin_eq(f, w[0][1][1], ZERO), 'reports', 'the distribution is written once, to the standard output, after all reports (%s)' % k, 'main')
        ctx.require(visits_all(ev, f, argv, argc, lambda e: e[2] if e[0] == 'read' else None), 'reports', 'each report is read once', 'main')
        pairs(ev, f, 'main')
    ctx.require(n >= 1, 'reports', 'main of %s processes reports' % tool, 'main')


def path2(P, struct, path):
    """a path with the structures stepped into"""
    out = []
    s = struct
    for k, p in enumerate(path):
        out.append((s, p))
        if k + 1 < len(path):
            nxt = [x for x in P.fields if list(P.fields[x][1])[:1] and path[k + 1] in P.fields[x][1] and x == 'Wac']
            s = nxt[0] if nxt else s
    return out
