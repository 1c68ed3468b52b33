"""C07: edit operation reports round-trip, add up and subtract."""
from .common import *
from . import reports
from .C11 import one_global
from .C29 import reader, startup, arg_at

RULE = ('write_edorpt is interpreted over arbitrary numbers; the lines it writes, as fixed lines and as the generic line of its loop, are the input of the '
        'interpretation of read_edorpt into a structure of arbitrary numbers: it must accept, consume every line, add each number written to the '
        'number of the same meaning, and nothing else. The loop writes one line for each length from 1 to 100 with a positive number. A file that '
        'lacks one of the first five lines, or has another kind of line there, must end in an error. editopsum reads every report into one '
        'structure. editopcost subtracts all numbers of the second report, and the generic iteration of its loop proves the cost formula by induction.')
ASSUME = ['numbers fit their columns of eight characters', 'the numbers written are not negative and the total of moves is that of the lengths (C10)',
          'fgets, sscanf, strcmp as documented', 'files (C22, C23)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; the grammar of the output of the writer composed with the reader'

TOT = ('total_insertions', 'total_deletions', 'total_moves')
OTHER_TITLES = [b'ocreval Accuracy Report Version 7.0\n', b'ocreval Word Accuracy Report Version 7.0\n', b'ocreval Edit\n', b'\n', b'UNLV-ISRI OCR Edit Operation Report Version 5.1\n']


def run(ctx):
    P = ctx.program()
    limit = P.fields['Edodata'][1]['moves'][1] // 8 - 1
    roundtrip(ctx, P, limit)
    ctx.P = None
    P = ctx.program('editopsum')
    reports.sums(ctx, P, 'editopsum', 'Edodata', 'read_edorpt', 'write_edorpt')
    ctx.P = None
    cost(ctx, ctx.program('editopcost'), limit)


def tot(I, st, P, d, k):
    return load_at(I, st, d, P, 'Edodata', k)


def moves_at(I, st, P, d, i):
    return I.load(st, add(d, add(C(P.off('Edodata', 'moves')), scale(i, 8))), 8, ir.Ty('int', 64), ('Edodata', list(P.fields['Edodata'][1]).index('moves')))[0][1]


def rows_complete(ctx, I, P, data, S, rows, limit):
    """every length with a positive number of moves has one row"""
    v = counted(S, ONE, C(limit + 1)) or counted(S, ZERO, C(limit + 1))
    if v is None:
        ctx.fail('writing', 'the lengths 1 to %d are gone through' % limit, S)
        return
    i = V(v.sym)
    byt = {id(t): l for t, l in rows}
    for t in S.trans():
        ctx.paths += 1
        m = moves_at(I, t.head, P, data, i)
        for f, want in table(t.facts, lambda q: q.lt(ZERO, m)):
            if id(t) not in byt:
                ctx.require(not want, 'writing', 'a length with moves has its line', S)
                continue
            l = byt[id(t)]
            ok = len(l) == 4 and l[0][0] == 'int' and l[2][0] == 'int' and lin_eq(f, l[0][3], m) and lin_eq(f, l[2][3], i)
            ctx.require(ok, 'writing', 'the line of a length holds its number of moves and the length (%s)' % show_toks(l), S)


def roundtrip(ctx, P, limit):
    W = ctx.interp()
    W.range_hook = ranges(P)
    data, target = obj('written'), obj('sum')
    fn = 'read_edorpt'
    seen = set()
    for o, g in reports.written(ctx, P, 'edorpt', 'write_edorpt', data, W):
        with_rows = [i for i in g.items if i[0] == 'rows']
        tm = tot(W, o.st, P, data, 'total_moves')
        if o.st.facts.decide(tm, '<=') is not True:
            ctx.require(len(with_rows) == 1, 'writing', 'moves are listed by length', 'write_edorpt')
        for i in with_rows:
            rows_complete(ctx, W, P, data, i[1], i[2], limit)
        facts = o.st.facts.assume(scale(tm, -1), '<=')
        if facts is None:
            continue
        I, name, outs = reports.reading(ctx, P, 'edorpt', fn, target, g, facts, {})
        start = interp.State(Facts())
        ctx.require(bool(outs), 'roundtrip', 'a report is read', fn)
        for r in outs:
            ctx.paths += 1
            f = r.st.facts
            reports.room(ctx, r, fn)
            if not reports.accepted(ctx, r, name, g, fn):
                continue
            for k in TOT:
                want = add(tot(I, start, P, target, k), tot(W, start, P, data, k))
                ctx.require(lin_eq(f, tot(I, r.st, P, target, k), want), 'roundtrip', '%s is added (%r)' % (k, tot(I, r.st, P, target, k)), fn)
            changes(ctx, I, P, r, target, with_rows, g, fn)
        reports.strictness(ctx, P, 'edorpt', fn, target, g, facts, {}, None,
                           {0: OTHER_TITLES, 1: [b'\n', b'Moves\n'], 2: [b'\n', b'Insertions\n'], 3: [b'\n', b'Deletions\n'], 4: [b'\n', b'Moves\n']}, 4)


def own(e, b):
    return e[0] in ('st', 'cp', 'str') and e[1] is b


def changes(ctx, I, P, r, target, with_rows, g, fn):
    """besides the totals, only the rows read change the numbers of moves"""
    b, _ = interp.base_of(target)
    ok = {P.off('Edodata', k) for k in TOT}
    for e in r.st.entries():
        if own(e, b):
            ctx.require(e[2].const and e[2].c in ok, 'roundtrip', 'only the totals change besides the lines of moves (%r)' % (e[2],), fn)
    rowpos = None
    for S in loops_of(r.st):
        for t in S.trans():
            ctx.paths += 1
            f = t.facts
            got = [e for e in t.events if e[0] == 'line']
            st = [e for e in mem_since(t) if own(e, b)]
            rows = [e for e in got if e[2] is not None and g.items[e[1]][0] == 'rows']
            if not rows and not st:
                continue
            if len(rows) != 1:
                ctx.fail('roundtrip', 'one line of moves is read at a time (%d lines)' % len(rows), S)
                continue
            rowpos = True
            l = rows[0][2]
            if not (l[0][0] == 'int' and l[2][0] == 'int'):
                continue        # reported above
            n, i = l[0][3], l[2][3]
            addr = add(target, add(C(P.off('Edodata', 'moves')), scale(i, 8)))
            good = len(st) == 1 and lin_eq(f, add(V(st[0][1]), st[0][2]), addr)
            if good:
                was = moves_at(I, t.head.with_facts(f), P, target, i)
                good = lin_eq(f, st[0][4], add(was, n))
            ctx.require(good, 'roundtrip', 'each line adds its number of moves to those of its length', S)
        for o in S.exits():
            hd = next(p.head for p in S.parts.values() if o in p.exits)
            for e in o.st.events(hd.ev):
                if e[0] == 'line' and e[2] is not None and g.items[e[1]][0] == 'rows':
                    ctx.fail('roundtrip', 'every line of moves is taken in (%s)' % o.kind, S)
            if o.kind == 'exit' and not dead(o):
                ctx.fail('roundtrip', 'a line of moves that was written is accepted', S)
    ctx.require(rowpos is not None or not with_rows, 'roundtrip', 'the lines of moves are read', fn)


def cost(ctx, P, limit):
    I = ctx.interp(prims=dict(initialize=initialize_prim, read_edorpt=reader('read')))
    I.range_hook = ranges(P)
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    seen = set()
    for o in live(I.run(P.modules['editopcost'].functions['main'], [arg('argc0', 0), argv], startup(P, 'editopcost'))):
        if not possible(I, o, argv, argc):
            continue
        ctx.paths += 1
        f = o.st.facts
        ev = unfold(o.st.events(), lambda e: e[0] == 'read')
        if any(e[0] == 'error' for e in ev):
            ctx.require(not any(e[0] == 'out' for e in flat(ev)), 'cost', 'nothing is printed after an error', 'main')
            continue
        rd = [e for e in ev if e[0] == 'read']
        two = f.decide(sub(argc, C(2)), '==')
        ok = len(rd) == (2 if two else 1) and two is not None and all(lin_eq(f, e[2][1], arg_at(I, o.st, argv, k)) for k, e in enumerate(rd)) and \
            len({e[2][0] for e in rd}) == len(rd)
        ctx.require(ok, 'cost', 'one or two reports are read, each into its own structure', 'main')
        if not ok:
            continue
        seen.add(two)
        data = [e[2][0] for e in rd]
        body = ev[ev.index(rd[-1]) + 1:]
        ctx.require(ev.index(rd[-1]) > max([0] + [k for k, e in enumerate(ev) if e[0] == 'loop' and ev.index(rd[-1]) > k]), 'cost', 'reports are read first', 'main')
        pl = [e[1] for e in body if e[0] == 'loop' and any(x[0] == 'out' for x in flat([e]))]
        ctx.require(len(pl) == 1 and not any(e[0] == 'out' for e in body), 'cost', 'the curve is printed in one loop', 'main')
        if len(pl) != 1:
            continue
        S = pl[0]
        before = S.pre
        # the numbers after subtraction
        aft = interp.State(Facts())
        raw = [[unread(I, P, o.st, d, k, n) for k in TOT] for n, d in enumerate(data)]
        total = {k: sub(raw[0][j], raw[1][j]) if two else raw[0][j] for j, k in enumerate(TOT)}
        subtracting(ctx, I, P, [e[1] for e in body if e[0] == 'loop' and e[1] is not S], data, two, limit, total, before, f)
        curve(ctx, I, P, S, data[0], total, limit)
    ctx.require(seen == {True, False}, 'cost', 'one report and two reports are handled', 'main')


def unread(I, P, st, d, fld, n):
    """the value the n-th read report had"""
    b, o = interp.base_of(d)
    k = ('read', 'read', n + 1)
    s = interp.State(Facts()).put(('hv', k, ('base', b)))
    return load_at(I, s, d, P, 'Edodata', fld)


def moves_unread(I, P, d, n, i, f):
    b, o = interp.base_of(d)
    s = interp.State(f).put(('hv', ('read', 'read', n + 1), ('base', b)))
    return moves_at(I, s, P, d, i)


def subtracting(ctx, I, P, loops, data, two, limit, total, before, f):
    a, _ = interp.base_of(data[0])
    changing = [S for S in loops if any(own(e, a) for t in S.trans() for e in mem_since(t))]
    if not two:
        ctx.require(not changing, 'subtract', 'a single report is taken as it is', 'main')
        return
    ctx.require(len(changing) == 1, 'subtract', 'the moves of the second report are taken off once', 'main')
    for S in changing:
        v = counted(S, ONE, C(limit + 1)) or counted(S, ZERO, C(limit + 1))
        if v is None:
            ctx.fail('subtract', 'the moves of every length are taken off', S)
            continue
        i = V(v.sym)
        for t in S.trans():
            ctx.paths += 1
            st = [e for e in mem_since(t) if own(e, a)]
            addr = add(data[0], add(C(P.off('Edodata', 'moves')), scale(i, 8)))
            was = moves_at(I, t.head, P, data[0], i)
            ok = len(st) == 1 and lin_eq(t.facts, add(V(st[0][1]), st[0][2]), addr) and \
                lin_eq(t.facts, st[0][4], sub(was, moves_unread(I, P, data[1], 1, i, t.facts)))
            ctx.require(ok, 'subtract', 'the moves of a length are taken off those of the same length', S)


def curve(ctx, I, P, S, data, total, limit):
    v = counted(S, ZERO, C(limit + 1))
    if v is None:
        ctx.fail('cost', 'the thresholds 0 to %d are gone through' % limit, S)
        return
    i = V(v.sym)
    for t in S.trans():
        ctx.paths += 1
        f = t.facts
        m = moves_at(I, t.head, P, data, i)
        out = [e for e in t.events if e[0] == 'out']
        tk = libc.norm_tokens([x for e in out for x in e[2]])
        nums = [x for x in tk if x[0] == 'int']
        ctx.require(len(nums) == 2 and lin_eq(f, nums[0][3], i) and tk[-1] == ('lit', b'\n') and all(x[1].strip(b' ') in (b'', b'\n') for x in tk if x[0] == 'lit') and
                    tk[1][0] == 'lit' and all(e[1] == libc.std(I, 'stdout') for e in out), 'cost', 'each line holds the threshold and the cost (%s)' % show_toks(tk), S)
        if len(nums) != 2:
            continue
        shorter, longer = [], []
        for u in S.vars:
            if u.sym is None or u.tmpl or u is v:
                continue
            d = sub(t.nxt[u], V(u.sym))
            w = sub(V(u.sym), u.init)
            for s in (1, -1):
                if poly_eq(f, d, scale(product(i, m), s)):
                    shorter.append(scale(w, s))
                if poly_eq(f, d, scale(m, s)):
                    longer.append(scale(w, s))
        ok = any(poly_eq(f, nums[1][3], add(add(total['total_insertions'], a), product(i, sub(total['total_moves'], b)))) for a in shorter for b in longer)
        ctx.require(ok, 'cost', 'the cost is that of the insertions, of the shorter moves by length and of the longer moves by the threshold (%r)' % (nums[1][3],), S)
