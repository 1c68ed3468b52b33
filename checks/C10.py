"""C10: the accounting of the edit operation report is consistent."""
from .common import *
from .C11 import one_global, glob
from .C29 import arg_at

RULE = ('main of editop is interpreted over an arbitrary alignment, the list operations as their contracts. The generic iterations show: every unmatched '
        'segment of the correct text adds its characters other than the wild-card to the insertions; every unmatched segment of the output adds '
        'its length to the deletions and is removed from the list; wherever a block is followed by its successor, and only there, the two are merged: '
        'lengths add up, the second is removed, larger numbers go down by one, and the same block is looked at again; as long as more than one block is left, one block is '
        'taken out and put back next to its neighbour by number, which adds one to the moves and to the moves of min(length, 100), and blocks are merged again. '
        'The marks put on blocks while they are listed by number say which neighbours a move brings together, and the generic step of the choice keeps a block '
        'that saves most and is a shortest of those. Nothing else changes the report.')
ASSUME = ['list operations (C20)', 'transpose_sync numbers the matches 1, 2, 3, ... (C14)', 'counts stay below 2^63']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; per-iteration effect comparison; protocol of list operations'

TOT = ('total_insertions', 'total_deletions', 'total_moves')


def listop(P, name):
    names = list(P.fields['Sync'][1])
    delta = {'list_remove': -1}.get(name, 1)

    def p(I, fr, ins, st, a):
        f = st.facts
        args = tuple(f.norm(x) for x in a)
        old = load_at(I, st, args[0], P, 'Synclist', 'count')
        st = st.event('list', name, args, I.line(fr, ins))
        n = ('list', sum(1 for e in st.events() if e[0] == 'list'), st.extra.get('iter', ()))
        b, o = interp.base_of(args[0])
        st = st.put(('hv', n, ('base', b)))
        for k in ('next', 'prev'):
            st = st.put(('hv', n, ('tag', ('Sync', names.index(k)))))
        st = st.put(('st', b, add(o, C(P.off('Synclist', 'count'))), 8, add(old, C(delta)), ('Synclist', list(P.fields['Synclist'][1]).index('count'))))
        return [(st, None)]
    return p


def transposed(I, fr, ins, st, a):
    f = st.facts
    st = st.event('align', tuple(f.norm(x) for x in a), I.line(fr, ins))
    for x in a[:2]:
        b, o = interp.base_of(f.norm(x))
        st = st.put(('hv', ('align', 'lists'), ('base', b)))
    return [(st, None)]


class E:
    pass


def run(ctx):
    P = ctx.program('editop')
    prims = dict(initialize=initialize_prim, read_text=event_prim('read_text', None), transpose_sync=transposed, write_edorpt=event_prim('write', None),
                 free=event_prim('free', None))
    for k in ('list_remove', 'list_insert_before', 'list_insert_after', 'list_insert_first', 'list_insert_last'):
        prims[k] = listop(P, k)
    prims.update(displays(P, 'editop'))
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    x = E()
    x.ctx, x.P, x.I = ctx, P, I
    x.edo = one_global(P, 'editop', 'Edodata')
    x.moves = add(x.edo, C(P.off('Edodata', 'moves')))
    x.limit = P.fields['Edodata'][1]['moves'][1] // 8 - 1
    ctx.require(x.limit == 100, 'moves', 'moves of 100 or more characters are counted as 100', 'Edodata')
    n = 0
    done = set()
    for o in live(I.run(P.modules['editop'].functions['main'], [arg('argc0', 0), argv])):
        f = o.st.facts
        if not possible(I, o, argv, argc):
            continue
        ev = unfold(o.st.events(), lambda e: e[0] == 'call' and e[1] == 'read_text')
        if o.kind == 'exit' and any(e[0] == 'error' for e in ev):
            ctx.require(not any(e[0] == 'call' and e[1] == 'write' for e in flat(ev)), 'files', 'no report is written after an error', 'main')
            continue
        n += 1
        ctx.paths += 1
        al = [e for e in ev if e[0] == 'align']
        rd = [e for e in ev if e[0] == 'call' and e[1] == 'read_text']
        wr = [e for e in ev if e[0] == 'call' and e[1] == 'write']
        three = f.decide(sub(argc, C(3)), '==')
        ok = len(al) == 1 and len(rd) == 2 and len(wr) == 1 and three is not None and \
            all(lin_eq(f, rd[k][2][0], al[0][1][2 + k]) and lin_eq(f, rd[k][2][1], arg_at(I, o.st, argv, k)) for k in (0, 1)) and \
            lin_eq(f, wr[0][2][0], x.edo) and lin_eq(f, wr[0][2][1], arg_at(I, o.st, argv, 2) if three else ZERO)
        ctx.require(ok, 'files', 'the two files are read, aligned, and the report is written', 'main')
        if not ok:
            continue
        x.list1, x.list2, x.text1, x.text2 = al[0][1]
        body = ev[ev.index(al[0]) + 1:]
        ctx.require(ev.index(rd[0]) < ev.index(al[0]) > ev.index(rd[1]) and body[-1][0] in ('terminate', 'call'), 'files', 'the texts are read before they are aligned', 'main')
        ctx.require(not any(e[0] == 'list' for e in body), 'blocks', 'blocks are removed and moved only in the course of the counting', 'main')
        phases(x, o, body[:body.index(wr[0])], done)
        for e in o.st.entries():
            if e[0] == 'st' and e[1] is interp.base_of(x.edo)[0]:
                if any(lin_eq(f, e[2], C(P.off('Edodata', k))) and lin_eq(f, e[4], after) for k, after in x.late):
                    continue
                ctx.fail('report', 'the report is changed only by the counting (%r)' % (e[2],), 'main')
    ctx.require(n >= 1, 'files', 'main of editop writes a report', 'main')


def has(S, pred):
    return any(pred(e) for t in S.trans() for e in flat(t.events))


def kind(x, S):
    """what a loop is about"""
    if has(S, lambda e: e[0] == 'list' and 'insert' in e[1]):
        return 'move'
    changed = set()
    for t in S.trans():
        for k in TOT:
            if not lin_eq(t.facts, tot(x, t.st, k), tot(x, t.head, k)):
                changed.add(k)
    rm = has(S, lambda e: e[0] == 'list')
    if changed:
        return '+'.join(sorted(changed))
    if rm:
        return 'merge'
    return 'other'


def collected(x, S, o):
    """the total that a variable of this loop, 0 at first, is added to afterwards"""
    f = o.st.facts
    for k in TOT:
        now = f.norm(tot(x, o.st, k))
        for v in S.vars:
            if v.sym is not None and not v.tmpl and S.pre.facts.value(v.init) == 0 and dict(now.t).get(v.sym) == 1 and \
                    lin_eq(f, now, add(tot(x, S.pre, k), V(v.sym))):
                x.local[id(S)] = (k, v)
                x.late.append((k, now))
                return k
    return None


def gain(x, S, t, k):
    """how much an iteration adds to a total"""
    l = x.local.get(id(S))
    if l is not None and l[0] == k:
        return t.facts.norm(sub(t.nxt[l[1]], V(l[1].sym)))
    return t.facts.norm(sub(tot(x, t.st, k), tot(x, t.head, k)))


def tot(x, st, k):
    return load_at(x.I, st, x.edo, x.P, 'Edodata', k)


def phases(x, o, body, done):
    ctx = x.ctx
    ks = []
    x.late, x.local = [], {}
    for e in body:
        if e[0] != 'loop':
            continue
        S = e[1]
        k = kind(x, S)
        if k == 'other' or k == 'merge':
            k = collected(x, S, o) or k
        if k == 'other':
            for t in S.trans():
                if any(m[0] in ('st', 'cp') and m[1].obj not in ('local', 'alloca') for m in mem_since(t)):
                    ctx.fail('report', 'this loop changes something unexpectedly', S)
            continue
        ks.append(k)
        if S.lid in done:
            continue
        done.add(S.lid)
        if k == 'total_insertions':
            insertions(x, S)
        elif k == 'total_deletions':
            deletions(x, S)
        elif k == 'merge':
            merge(x, S)
        elif k == 'move':
            moves(x, S)
        else:
            ctx.fail('report', 'one loop changes %s' % k, S)
    rest = [k for k in ks if k != 'total_insertions']
    ctx.require(ks.count('total_insertions') == 1, 'insertions', 'the insertions are counted once (%s)' % ks, 'main')
    ctx.require(rest == ['total_deletions', 'merge', 'move'], 'phases',
                'unmatched output is removed, blocks are merged, and then moved (%s)' % rest, 'main')


def walk(x, S, lst, rule, what):
    ctx, P = x.ctx, x.P
    w = walk_from(x.I, S, P, 'Sync')
    if w is None:
        ctx.fail(rule, 'the %s are gone through one after the other' % what, S)
        return None
    ctx.require(lin_eq(S.pre.facts, w.init, load_at(x.I, S.pre, lst, P, 'Synclist', 'first')), rule, 'the walk starts with the first of the %s' % what, S)
    for o in S.exits():
        ctx.require(dead(o) or fatal(S, o) or o.st.facts.decide(V(w.sym), '==') is True, rule, 'the walk ends with the last of the %s' % what, S)
    return w


def others(x, S, t, rule, keep):
    for k in TOT:
        if k != keep:
            x.ctx.require(lin_eq(t.facts, tot(x, t.st, k), tot(x, t.head, k)), rule, '%s is not changed here' % k, S)
    if keep != 'total_moves':
        x.ctx.require(not move_stores(x, t), rule, 'moves are not counted here', S)


def move_stores(x, t):
    """stores of this iteration into the number of moves of some length"""
    lo = P_off = x.P.off('Edodata', 'moves')
    k = list(x.P.fields['Edodata'][1]).index('moves')
    b = interp.base_of(x.edo)[0]
    return [e for e in mem_since(t) if e[0] == 'st' and e[1] is b and (e[5] == ('Edodata', k) or not e[2].const or e[2].c >= lo)]


def sub_at(x, st, s, fld):
    return load_at(x.I, st, load_at(x.I, st, s, x.P, 'Sync', 'substr'), x.P, 'Substr', fld)


def insertions(x, S):
    ctx, I, P = x.ctx, x.I, x.P
    w = walk(x, S, x.list1, 'insertions', 'segments of the correct text')
    if w is None:
        return
    for t in S.trans():
        ctx.paths += 1
        others(x, S, t, 'insertions', 'total_insertions')
        d = gain(x, S, t, 'total_insertions')
        ctx.require(not any(e[0] == 'list' for e in flat(t.events)), 'insertions', 'no segment is removed here', S)
        m = t.facts.decide(load_at(I, t.head, V(w.sym), P, 'Sync', 'match'), '==')
        if m is None:
            ctx.fail('insertions', 'matched and unmatched segments are told apart', S)
            continue
        if not m:
            ctx.require(lin_eq(t.facts, d, ZERO), 'insertions', 'matched characters are no insertions', S)
            continue
        ok = False
        for e in t.events:
            if e[0] != 'loop':
                continue
            L = e[1]
            v = counted(L, sub_at(x, t.head, V(w.sym), 'start'), add(sub_at(x, t.head, V(w.sym), 'stop'), ONE))
            if v is None:
                continue
            for u in L.vars:
                if u.sym is None or u.tmpl or not lin_eq(t.facts, d, sub(V(u.sym), u.init)):
                    continue
                good = bool(L.trans())
                for y in L.trans():
                    c = I.load(y.head, add(load_at(I, y.head, x.text1, P, 'Text', 'array'), scale(V(v.sym), 8)), 8, ir.PTR)[0][1]
                    val = load_at(I, y.head, c, P, 'Char', 'value')
                    for f, want in table(y.facts, lambda q: ZERO if q.eq(val, 126) else ONE):
                        good = good and lin_eq(f, sub(y.nxt[u], V(u.sym)), want)
                ok = ok or good
        ctx.require(ok, 'insertions', 'every unmatched correct character other than the wild-card is one insertion (%r)' % d, S)


def deletions(x, S):
    ctx, I, P = x.ctx, x.I, x.P
    w = walk(x, S, x.list2, 'deletions', 'segments of the output')
    if w is None:
        return
    for t in S.trans():
        ctx.paths += 1
        others(x, S, t, 'deletions', 'total_deletions')
        d = gain(x, S, t, 'total_deletions')
        m = t.facts.decide(load_at(I, t.head, V(w.sym), P, 'Sync', 'match'), '==')
        if m is None:
            ctx.fail('deletions', 'matched and unmatched segments are told apart', S)
            continue
        lo = [e for e in flat(t.events) if e[0] == 'list']
        if not m:
            ctx.require(lin_eq(t.facts, d, ZERO) and not lo, 'deletions', 'matched characters are no deletions and stay', S)
            continue
        n = sub_at(x, t.head, V(w.sym), 'length')
        n2 = add(sub(sub_at(x, t.head, V(w.sym), 'stop'), sub_at(x, t.head, V(w.sym), 'start')), ONE)
        ctx.require(lin_eq(t.facts, d, n) or lin_eq(t.facts, d, n2), 'deletions', 'every unmatched character of the output is one deletion (%r)' % t.facts.norm(d), S)
        ctx.require(len(lo) == 1 and lo[0][1] == 'list_remove' and lin_eq(t.facts, lo[0][2][0], x.list2) and lin_eq(t.facts, lo[0][2][1], V(w.sym)),
                    'deletions', 'an unmatched segment leaves the list', S)


def match_of(x, st, s):
    return x.I.load(st, load_at(x.I, st, s, x.P, 'Sync', 'match'), 8, ir.Ty('int', 64), ('ty', 'i64'))[0][1]


def merge(x, S):
    ctx, I, P = x.ctx, x.I, x.P
    first = load_at(I, S.pre, x.list2, P, 'Synclist', 'first')
    c = [v for v in S.vars if v.sym is not None and not v.tmpl and v.kind == 'phi' and lin_eq(S.pre.facts, v.init, first)]
    best = None
    for v in c or [None]:
        if v is None:
            break
        bad = merging(x, S, v)
        if best is None or len(bad) < len(best):
            best = bad
    if best is None:
        best = ['the blocks are gone through from the first on']
    for b in best:
        ctx.fail('merge', b, S)
    ctx.require(not best, 'merge', 'neighbouring blocks are merged', S)


def merging(x, S, w):
    ctx, I, P = x.ctx, x.I, x.P
    bad = []
    s = V(w.sym)
    for t in S.trans():
        ctx.paths += 1
        others(x, S, t, 'merge', None)
        nxt = load_at(I, t.head, s, P, 'Sync', 'next')
        ms, mn = match_of(x, t.head, s), match_of(x, t.head, nxt)
        lo = [e for e in flat(t.events) if e[0] == 'list']
        for f, want in table(t.facts, lambda q: q.nz(nxt) and q.eq(mn, add(ms, ONE))):
            if not want:
                if lo or mem_since(t):
                    bad.append('blocks that do not follow each other stay as they are')
                if not lin_eq(f, t.nxt[w], nxt):
                    bad.append('the walk goes on to the next block')
                continue
            if not (len(lo) == 1 and lo[0][1] == 'list_remove' and lin_eq(f, lo[0][2][0], x.list2) and lin_eq(f, lo[0][2][1], nxt)):
                bad.append('the second of two merged blocks leaves the list')
                continue
            if not lin_eq(f, sub_at(x, t.st, s, 'length'), add(sub_at(x, t.head, s, 'length'), sub_at(x, t.head, nxt, 'length'))):
                bad.append('the length of a merged block is the sum of both')
            if not lin_eq(f, t.nxt[w], s):
                bad.append('a merged block is looked at again')
            ls = [e[1] for e in t.events if e[0] == 'loop']
            if len(ls) != 1:
                bad.append('the numbers of the other blocks are adjusted')
                continue
            bad += adjust(x, ls[0], f, ms)
    for o in S.exits():
        if dead(o) or fatal(S, o):
            continue
        f = o.st.facts
        hd = next(p.head for p in S.parts.values() if o in p.exits)
        nxt = load_at(I, hd, s, P, 'Sync', 'next')
        if f.decide(s, '==') is not True and f.decide(nxt, '==') is not True:
            bad.append('the walk ends with the last block')
    return sorted(set(bad))


def adjust(x, L, f0, limit):
    I, P = x.I, x.P
    bad = []
    w = walk_from(I, L, P, 'Sync')
    if w is None or not lin_eq(L.pre.facts, w.init, load_at(I, L.pre, x.list2, P, 'Synclist', 'first')):
        return ['all blocks are looked at when the numbers are adjusted']
    for o in L.exits():
        if not (dead(o) or fatal(L, o) or o.st.facts.decide(V(w.sym), '==') is True):
            bad.append('all blocks are looked at when the numbers are adjusted')
    for t in L.trans():
        m = match_of(x, t.head, V(w.sym))
        now = match_of(x, t.st, V(w.sym))
        st = [e for e in mem_since(t) if e[0] in ('st', 'cp', 'hv')]
        facts = t.facts
        for a in f0.sub if hasattr(f0, 'sub') and False else ():
            pass
        for f, want in table(facts, lambda q: None if q.eq(m, add(limit, ONE)) else -1 if q.lt(limit, m) else 0):
            if want is None:
                continue            # the number of the block that was removed
            if len(st) > 1:
                bad.append('a number is adjusted once')
            if not lin_eq(f, now, add(m, C(want))):
                bad.append('larger numbers go down by one, smaller ones stay (%r to %r)' % (m, now))
        if any(e[0] == 'list' for e in flat(t.events)):
            bad.append('adjusting numbers removes nothing')
    return bad


def moves(x, S):
    ctx, I, P = x.ctx, x.I, x.P
    for o in S.exits():
        if dead(o) or fatal(S, o):
            continue
        n = load_at(I, o.st, x.list2, P, 'Synclist', 'count')
        ctx.require(o.st.facts.decide(sub(n, ONE), '<=') is True, 'moves', 'moving goes on until one block is left', S)
        ctx.require(lin_eq(o.st.facts, tot(x, o.st, 'total_moves'), tot(x, head_of(S, o), 'total_moves')), 'moves', 'what was counted stays', S)
    for t in S.trans():
        ctx.paths += 1
        f = t.facts
        n = load_at(I, t.head, x.list2, P, 'Synclist', 'count')
        ctx.require(f.decide(add(sub(C(1), n), ONE), '<=') is True, 'moves', 'a single block is not moved', S)
        others(x, S, t, 'moves', 'total_moves')
        ctx.require(lin_eq(f, tot(x, t.st, 'total_moves'), add(tot(x, t.head, 'total_moves'), ONE)), 'moves', 'each move counts once', S)
        lo = [e for e in t.events if e[0] == 'list']
        ok = [e[1] for e in lo][:1] == ['list_remove'] and len(lo) == 2 and lo[1][1] in ('list_insert_before', 'list_insert_after') and \
            all(lin_eq(f, e[2][0], x.list2) for e in lo)
        if not ok:
            ctx.fail('moves', 'a move takes one block out and puts it back (%s)' % [e[1] for e in lo], S)
            continue
        s = lo[0][2][1]
        after = lo[1][1] == 'list_insert_after'
        where, what = (lo[1][2][1], lo[1][2][2]) if after else (lo[1][2][2], lo[1][2][1])
        ctx.require(lin_eq(f, what, s), 'moves', 'the block taken out is put back', S)
        m = match_of(x, t.head, s)
        g = f.assume(sub(ONE, m), '<=')
        if g is not None:
            cb = block_at(where)
            sb = block_at(s) or picked(x, t, s, n)
            idx = add(m, C(-1 if after else 1))
            ctx.require(cb is not None and sb is not None and cb[0] is sb[0] and neighbour(x, t, cb, idx, g), 'moves',
                        'the block is put next to its neighbour by number (%r)' % where, S)
            ctx.require(g.decide(sub(ONE, idx), '<=') is True and (after or g.decide(sub(idx, n), '<=') is True), 'moves', 'the neighbour exists', S)
        # the length counted
        ln = sub_at(x, t.head, s, 'length')
        ms = move_stores(x, t)
        for h, want in table(f, lambda q: ln if q.lt(ln, C(x.limit)) else C(x.limit)):
            okm = len(ms) == 1 and lin_eq(h, add(V(ms[0][1]), ms[0][2]), add(x.moves, scale(want, 8)))
            if okm:
                was = I.load(t.head.with_facts(h), add(x.moves, scale(want, 8)), 8, ir.Ty('int', 64), ('Edodata', list(P.fields['Edodata'][1]).index('moves')))
                okm = len(was) == 1 and lin_eq(h, ms[0][4], add(was[0][1], ONE))
            ctx.require(okm, 'moves', 'a move counts once under its length', S)
        # the table of blocks by number, and merging afterwards
        ls = [e for e in t.events if e[0] == 'loop']
        mg = [e for e in ls if kind(x, e[1]) == 'merge']
        ctx.require(len(mg) == 1 and t.events.index(mg[0]) > t.events.index(lo[1]), 'moves', 'blocks are merged after every move', S)
        for e in mg:
            if e[1].lid not in x.__dict__.setdefault('seen', set()):
                x.seen.add(e[1].lid)
                merge(x, e[1])
        cb = block_at(s)
        pk = cb or picked(x, t, s, n)
        tb = [e[1] for e in ls if pk is not None and numbered(x, e[1], pk[0])]
        ctx.require(len(tb) == 1, 'moves', 'the blocks are listed by number before one is chosen', S)
        if cb is not None:
            idx = f.norm(sub(cb[1], C(P.off('Candidate', 'sync'))))
            ctx.require(chosen(x, [e[1] for e in ls], idx, P.sizeof('Candidate'), t, n), 'moves', 'the block taken out is one of the blocks', S)
        if len(tb) == 1:
            a = idx.t[0][0] if cb is not None else s.one()
            preferred(x, tb[0], pk[0], a, n, [e[1] for e in ls if e not in mg and e[1] not in tb])
        for e in ls:
            if e in mg or e[1] in tb:
                continue
            for y in e[1].trans():
                if any(z[0] == 'list' for z in flat(y.events)) or any(z[0] in ('st', 'cp') and z[1].obj not in ('local', 'alloca', 'heap') for z in mem_since(y)):
                    ctx.fail('moves', 'choosing a block changes nothing', e[1])


def head_of(S, o):
    return next(p.head for p in S.parts.values() if o in p.exits)


def block_at(v):
    """(array, offset) a block was taken from"""
    a = v.one() if isinstance(v, Lin) else None
    if a is None or a.key[0] != 'ld':
        return None
    b, o = interp.base_of(a.key[1])
    return (b, o) if b is not None and b.obj == 'heap' else None


def picked(x, t, s, n):
    """the array of blocks by number, when the block is one of those with a number from 1 to the number of blocks, as kept by a loop"""
    el, off = x.P.sizeof('Candidate'), x.P.off('Candidate', 'sync')
    a = s.one() if isinstance(s, Lin) else None
    for L in [e[1] for e in t.events if e[0] == 'loop']:
        for u in L.vars:
            if u.sym is None or u.sym is not a:
                continue
            bases = set()
            for y in L.trans():
                if lin_eq(y.facts, y.nxt[u], V(u.sym)):
                    continue
                c = block_at(y.facts.norm(y.nxt[u]))
                if c is None:
                    return None
                d = y.facts.norm(sub(c[1], C(off)))
                if d.c % el or any(k % el for _, k in d.t):
                    return None
                i = Lin(tuple((z, k // el) for z, k in d.t), d.c // el)
                if y.facts.decide(sub(ONE, i), '<=') is not True or y.facts.decide(sub(i, n), '<=') is not True:
                    return None
                bases.add(c[0])
            if len(bases) == 1:
                return bases.pop(), None
    return None


def neighbour(x, t, cb, idx, f):
    el = x.P.sizeof('Candidate')
    off = x.P.off('Candidate', 'sync')
    return lin_eq(f, cb[1], add(scale(idx, el), C(off)))


def chosen(x, ls, off, el, t, n):
    """the index is a number from 1 to the number of blocks, as chosen by a loop over these"""
    if len(off.t) != 1 or off.t[0][1] != el or off.c % el:
        raise Unsupported('the block to move is chosen in a way not understood (%r)' % (off,))
    a, c = off.t[0][0], off.c // el
    for L in ls:
        for u in L.vars:
            if u.sym is not a:
                continue
            for y in L.trans():
                new = y.nxt[u]
                if not lin_eq(y.facts, new, V(u.sym)) and not (y.facts.decide(sub(ONE, add(new, C(c))), '<=') is True and
                                                                y.facts.decide(sub(add(new, C(c)), n), '<=') is True):
                    return False
            return bool(L.trans())
    raise Unsupported('the block to move is chosen in a way not understood (%r)' % (off,))


def preferred(x, S, base, a, n, ls):
    """where neighbours that would come together are marked, they are marked for the right blocks, and the block with most of them, the shortest of
    those, is the one kept"""
    I, P, ctx = x.I, x.P, x.ctx
    if not {'for_insertion', 'for_deletion'} <= set(P.fields['Candidate'][1]):
        return
    el = P.sizeof('Candidate')
    marks = {P.off('Candidate', k): k for k in ('for_insertion', 'for_deletion')}
    size = P.fields['Candidate'][1]['for_insertion'][1]
    found = {}
    for y in S.trans():
        h, f = y.head, y.facts
        w = walk_from(I, S, P, 'Sync')
        st = [(e[2], e[4]) for e in mem_since(y) if e[0] == 'st' and e[1] is base and e[3] == size]
        if any(f.value(v) is None for _, v in st):
            return
        m = match_of(x, h, V(w.sym))
        nx = load_at(I, h, V(w.sym), P, 'Sync', 'next')
        both = f.decide(nx, '==') is not True
        mn = match_of(x, h, nx) if both else None
        nn = load_at(I, h, nx, P, 'Sync', 'next') if both else None
        both2 = both and f.decide(nn, '==') is not True
        mnn = match_of(x, h, nn) if both2 else None
        for off, k in marks.items():
            if k == 'for_insertion':
                at, c = add(m, ONE), [(nx, '!='), (sub(mn, add(m, C(2))), '==')] if both else None
            else:
                at, c = mn, [(nx, '!='), (nn, '!='), (sub(mnn, add(m, ONE)), '==')] if both2 else None
            here = [v for o, v in st if (o.c - off) % el == 0]
            if not here:
                found.setdefault(k, []).append((y, False))
                ok = c is None or any(f.decide(q, op) is False for q, op in c)
                found[k][-1] += (ok,)
                continue
            ok = c is not None and all(f.decide(q, op) is True for q, op in c)
            ok = ok and all(lin_eq(f, o, add(scale(at, el), C(off))) and f.value(v) for o, v in st if (o.c - off) % el == 0)
            found.setdefault(k, []).append((y, True, ok))
    if not any(z[1] for k in marks.values() for z in found.get(k, [])):
        return
    for k, l in found.items():
        ctx.require(any(z[1] for z in l), 'choice', 'blocks are marked for both reasons', S)
        for y, put, ok in l:
            ctx.require(ok, 'choice', 'the blocks %s are marked as such, and no others' % (
                'whose two neighbours by number stand side by side' if k == 'for_insertion' else 'between two blocks with consecutive numbers'), S)
    for L in ls:
        u = next((v for v in L.vars if v.sym is not None and v.sym is a), None)
        if u is None:
            continue
        pick = None
        for y in L.trans():
            nv = y.facts.norm(y.nxt[u])
            if lin_eq(y.facts, nv, V(u.sym)):
                continue
            c = block_at(nv)
            if c is not None and c[0] is base:
                d = y.facts.norm(sub(c[1], C(P.off('Candidate', 'sync'))))
                if d.c % el or any(k % el for _, k in d.t):
                    return
                nv = Lin(tuple((z, k // el) for z, k in d.t), d.c // el)
                kind = 'pointer'
            elif c is None:
                kind = 'index'
            else:
                return
            if pick is None:
                pick = (nv, kind)
            elif pick != (nv, kind):
                return
        if pick is None:
            return
        i, kind = pick

        def elem(k, j, st):
            return load_at(I, st, add(V(base), scale(j, el)), P, 'Candidate', k)

        def length(b, st):
            return load_at(I, st, load_at(I, st, b, P, 'Sync', 'substr'), P, 'Substr', 'length')

        def gain(y):
            g = ONE
            for k in marks.values():
                v = elem(k, i, y.head)
                z = y.facts.decide(v, '==')
                g = add(g, ZERO if z is True else ONE if z is False else v)
            return y.facts.norm(g)

        took = [y for y in L.trans() if not lin_eq(y.facts, y.nxt[u], V(u.sym))]
        R = [v for v in L.vars if v.sym is not None and v is not u and all(y.facts.value(y.nxt[v]) in range(-16, 17) for y in took)]
        if len(R) != 1:
            return
        R = R[0]
        shift = took[0].facts.norm(sub(took[0].nxt[R], gain(took[0])))
        lens = [v for v in L.vars if v.sym is not None and v is not u and v is not R and
                any(lin_eq(y.facts, y.nxt[v], length(elem('sync', i, y.head), y.head)) for y in took)]
        for y in L.trans():
            f = y.facts
            g, ln = add(gain(y), shift), length(elem('sync', i, y.head), y.head)
            b = V(lens[0].sym) if lens else length(V(u.sym) if kind == 'pointer' else elem('sync', V(u.sym), y.head), y.head)
            part = next(p for p in L.parts.values() if y in p.trans)
            r, b = part.vals.get(R, V(R.sym)), part.vals.get(lens[0], b) if lens else b
            if y in took:
                ok = f.decide(sub(add(r, ONE), g), '<=') is True or (f.decide(sub(r, g), '<=') is True and f.decide(sub(ln, b), '<=') is True)
                ctx.require(lin_eq(f, y.nxt[R], g), 'choice', 'what a move saves is one block, and one for each pair of neighbours it brings together', L)
                ctx.require(not lens or lin_eq(f, y.nxt[lens[0]], ln), 'choice', 'the length of the chosen block is kept', L)
            else:
                ok = f.decide(sub(add(g, ONE), r), '<=') is True or (f.decide(sub(g, r), '<=') is True and f.decide(sub(b, ln), '<=') is True)
                ctx.require(lin_eq(f, y.nxt[R], r) and (not lens or lin_eq(f, y.nxt[lens[0]], b)) or
                            lin_eq(f, y.nxt[R], g) and lin_eq(f, g, r), 'choice', 'what is known of the chosen block is kept', L)
            ctx.require(ok, 'choice', 'the block moved is one that saves most, and a shortest of those', L)
        ctx.require(L.pre.facts.decide(sub(R.init, shift), '<=') is True, 'choice', 'any block is better than none', L)
        for v, init in [(v, init) for v, init, d in counters(L) if d == 1 and i.one() is v.sym]:
            ctx.require(lin_eq(L.pre.facts, init, ONE), 'choice', 'the choice starts with the first block', L)
            for o in L.exits():
                ctx.require(dead(o) or o.st.facts.decide(add(sub(n, V(v.sym)), ONE), '<=') is True, 'choice', 'the choice goes on to the last block', L)


def numbered(x, S, base):
    """the loop enters every block of the list in the array under its number"""
    I, P = x.I, x.P
    el, off = P.sizeof('Candidate'), P.off('Candidate', 'sync')
    if not any(e[0] == 'st' and e[1] is base for t in S.trans() for e in mem_since(t)):
        return False
    w = walk_from(I, S, P, 'Sync')
    if w is None or not lin_eq(S.pre.facts, w.init, load_at(I, S.pre, x.list2, P, 'Synclist', 'first')):
        x.ctx.fail('moves', 'the blocks are gone through when they are listed by number', S)
        return True
    for o in S.exits():
        x.ctx.require(dead(o) or fatal(S, o) or o.st.facts.decide(V(w.sym), '==') is True, 'moves', 'all blocks are listed by number', S)
    for t in S.trans():
        m = match_of(x, t.head, V(w.sym))
        want = add(scale(m, el), C(off))
        st = [e for e in mem_since(t) if e[0] == 'st' and e[1] is base and e[3] == 8]
        x.ctx.require(len(st) == 1 and lin_eq(t.facts, st[0][2], want) and lin_eq(t.facts, st[0][4], V(w.sym)), 'moves', 'a block is listed under its number', S)
        x.ctx.require(not any(e[0] in ('st', 'cp') and e[1] is not base and e[1].obj not in ('local', 'alloca') for e in mem_since(t)), 'moves',
                      'listing blocks changes nothing else', S)
    return True
