"""C20: lists stay well linked."""
import itertools
from .common import *

RULE = ('Each list operation is interpreted on every shape a well-linked list can have around the place it touches (no neighbour, neighbour that '
        'is an end of the list, neighbour followed by more), the rest of the list being arbitrary: afterwards every link, both ends, the count '
        'and the cached array are those of the requested sequence, and nothing else was written. Loops over lists (array, emptying) are '
        'checked by one generic iteration. No other module writes links, ends or counts.')
ASSUME = ['items given to an insertion are not in a list; items given as reference are in the given list (usage contract in list.h)',
          'allocation succeeds (C32)']
TECH = 'shape analysis by abstract interpretation of LLVM IR over local list shapes; effect analysis (who may write)'


def fresh(n):
    a = atom(('v', n), n, 1)
    interp.mkptr(a)
    return V(a)


def obj(n):
    """an existing object, distinct from every other"""
    a = atom(('obj', n), n, 1, obj='param')
    interp.mkptr(a)
    a.lo = 1
    return V(a)


class World:
    """a well-linked list seen locally: objects with known fields"""

    def __init__(self, P):
        self.P = P
        self.on, self.op = P.off('Item', 'next'), P.off('Item', 'prev')
        self.o = {k: P.off('List', k) for k in ('first', 'last', 'array', 'count')}
        self.L = obj('list')
        self.fields = {}      # (obj Lin, off) -> Lin

    def node(self, n, prev, next):
        x = obj(n)
        self.fields[(x, self.op)] = prev
        self.fields[(x, self.on)] = next
        return x

    def set(self, x, off, v):
        self.fields[(x, off)] = v

    def head(self, first, last, array, count):
        for k, v in (('first', first), ('last', last), ('array', array), ('count', count)):
            self.fields[(self.L, self.o[k])] = v

    def state(self):
        st = interp.State(Facts())
        for (x, off), v in self.fields.items():
            b, o = interp.base_of(x)
            st = st.put(('st', b, add(o, C(off)), 8, v, None))
        return st


def contexts(side, W, ref):
    """shapes on one side of a reference item: (name, neighbour, end of the list on that side)"""
    yield 'none', C(0), ref
    x = obj('%s1' % side)
    yield 'end', x, x
    yield 'more', x, obj('%sE' % side)


def build(P, has_ref, array):
    """all local shapes of a list, with a reference item when has_ref"""
    if not has_ref:
        W = World(P)
        W.head(C(0), C(0), array, C(0))
        yield 'empty', W, None
        return
    for ln, ll in (('none', 0), ('end', 1), ('more', 2)):
        for rn, rr in (('none', 0), ('end', 1), ('more', 2)):
            W = World(P)
            ref = obj('ref')
            l, r = obj('l'), obj('r')
            first, last = ref, ref
            pl = pr = C(0)
            if ll:
                pl = l
                first = l
                lp = C(0)
                if ll == 2:
                    first = W.node('first', C(0), fresh('first.next'))
                    lp = fresh('l.prev')
                W.node('l', lp, ref)
            if rr:
                pr = r
                last = r
                rn2 = C(0)
                if rr == 2:
                    last = W.node('last', fresh('last.prev'), C(0))
                    rn2 = fresh('r.next')
                W.node('r', ref, rn2)
            W.node('ref', pl, pr)
            n = arg('count', 1 + ll + rr)
            W.head(first, last, array, n)
            yield '%s/%s' % (ln, rn), W, ref


def expect_insert(W, prev, item, nxt):
    e = dict(W.fields)
    e[(item, W.op)], e[(item, W.on)] = prev, nxt
    if prev != C(0):
        e[(prev, W.on)] = item
    else:
        e[(W.L, W.o['first'])] = item
    if nxt != C(0):
        e[(nxt, W.op)] = item
    else:
        e[(W.L, W.o['last'])] = item
    e[(W.L, W.o['count'])] = add(W.fields[(W.L, W.o['count'])], ONE)
    e[(W.L, W.o['array'])] = C(0)
    return e


def expect_remove(W, item):
    e = dict(W.fields)
    p, n = W.fields[(item, W.op)], W.fields[(item, W.on)]
    if p != C(0):
        e[(p, W.on)] = n
    else:
        e[(W.L, W.o['first'])] = n
    if n != C(0):
        e[(n, W.op)] = p
    else:
        e[(W.L, W.o['last'])] = p
    del e[(item, W.op)], e[(item, W.on)]       # the links of a removed item are its own affair
    e[(W.L, W.o['count'])] = sub(W.fields[(W.L, W.o['count'])], ONE)
    e[(W.L, W.o['array'])] = C(0)
    return e


def show(W, k):
    x, off = k
    n = {W.on: 'next', W.op: 'prev'} if x != W.L else {v: k2 for k2, v in W.o.items()}
    return '%r.%s' % (x, n.get(off, off))


def compare(ctx, I, W, o, exp, what, free_ok):
    f = o.st.facts
    if o.kind != 'ret':
        ctx.fail('links', '%s ends the program' % what, what.split(' ')[0])
        return
    for k, v in exp.items():
        x, off = k
        ty = ir.Ty('int', 64) if x == W.L and off == W.o['count'] else ir.PTR
        r = I.load(o.st, add(x, C(off)), 8, ty)
        got = r[0][1] if len(r) == 1 else None
        ctx.require(got is not None and lin_eq(f, got, v), 'links', '%s: %s is %r (must be %r)' % (what, show(W, k), got, v), what.split(' ')[0])
    # nothing else written
    known = {interp.base_of(x)[0] for x, _ in W.fields} | {interp.base_of(x)[0] for x, _ in exp}
    m = o.st.mem
    while m is not None:
        e = m[1]
        if e[0] == 'hv':
            raise Unsupported('%s writes to unknown places' % what)
        if e[1].obj != 'alloca':
            ctx.require(e[1] in known and (e[0] == 'st') and any(interp.base_of(x)[0] is e[1] and lin_eq(f, C(off), e[2]) for x, off in
                                                                 list(W.fields) + list(exp)) or e[1] is interp.base_of(obj('item'))[0],
                        'frame', '%s writes links only' % what, what.split(' ')[0])
        m = m[0]
    arr = W.fields[(W.L, W.o['array'])]
    fr = [e[1] for e in o.st.events() if e[0] == 'free']
    if f.decide(arr, '!=') is True:
        ctx.require(all(lin_eq(f, x, arr) for x in fr) and len(fr) <= 1, 'array', '%s discards nothing but the array' % what, what.split(' ')[0])
    else:
        ctx.require(all(lin_eq(f, x, arr) or f.value(x) == 0 for x in fr), 'array', '%s discards nothing but the array' % what, what.split(' ')[0])


def run(ctx):
    P = ctx.program()
    for s, fs in (('Item', ('prev', 'next')), ('List', ('first', 'last', 'array', 'count'))):
        if s not in P.fields or any(x not in P.fields[s][1] for x in fs):
            raise Unsupported('anchor vanished: struct %s of the list module' % s)
    for fn in ('list_insert_first', 'list_insert_last', 'list_insert_before', 'list_insert_after', 'list_remove', 'list_in_array', 'list_empty',
               'list_initialize'):
        if P.resolve(P.modules['list'], fn) is None:
            raise Unsupported('anchor vanished: %s' % fn)
    layouts(ctx)
    item = obj('item')

    def shapes(has_ref):
        for array in (C(0), fresh('array')):
            yield from build(P, has_ref, array)
    for name in ('list_insert_first', 'list_insert_last'):
        for has in (False, True):
            for sh, W, ref in shapes(has):
                # take the list from the end concerned: the end item is the reference
                if has and (sh.split('/')[0 if name.endswith('first') else 1] != 'none'):
                    continue
                I = ctx.interp()
                e = expect_insert(W, C(0), item, ref if has else C(0)) if name.endswith('first') else \
                    expect_insert(W, ref if has else C(0), item, C(0))
                for o in live(I.run(name, [W.L, item], W.state())):
                    ctx.paths += 1
                    compare(ctx, I, W, o, e, '%s (%s)' % (name, sh), True)
    for sh, W, ref in shapes(True):
        for name in ('list_insert_before', 'list_insert_after', 'list_remove'):
            I = ctx.interp()
            if name == 'list_insert_before':
                e, a = expect_insert(W, W.fields[(ref, W.op)], item, ref), [W.L, item, ref]
            elif name == 'list_insert_after':
                e, a = expect_insert(W, ref, item, W.fields[(ref, W.on)]), [W.L, ref, item]
            else:
                e, a = expect_remove(W, ref), [W.L, ref]
            for o in live(I.run(name, a, W.state())):
                ctx.paths += 1
                compare(ctx, I, W, o, e, '%s (%s)' % (name, sh), True)
    initialize(ctx, P)
    in_array(ctx, P)
    empty(ctx, P)
    writers(ctx)


def initialize(ctx, P):
    W = World(P)
    W.head(fresh('a'), fresh('b'), fresh('c'), arg('n'))
    I = ctx.interp()
    for o in live(I.run('list_initialize', [W.L], W.state())):
        for k in W.o:
            r = I.load(o.st, add(W.L, C(W.o[k])), 8, ir.Ty('int', 64) if k == 'count' else ir.PTR)
            ctx.require(len(r) == 1 and o.st.facts.value(r[0][1]) == 0, 'links', 'list_initialize makes the list empty (%s)' % k, 'list_initialize')


def in_array(ctx, P):
    W = World(P)
    first, cnt, arr = V(atom(('v', 'first?'), 'first', 0)), arg('count?', 0), V(atom(('v', 'array?'), 'array', 0))
    for x in (first, arr):
        interp.mkptr(x.one())
    W.head(first, fresh('last'), arr, cnt)
    I = ctx.interp()
    n = 0
    seen = False
    for o in live(I.run('list_in_array', [W.L], W.state())):
        f = o.st.facts
        n += 1
        ls = loops_of(o.st)
        a = I.load(o.st, add(W.L, C(W.o['array'])), 8, ir.PTR)[0][1]
        if f.decide(arr, '!=') is True:
            ctx.require(not ls and lin_eq(f, a, arr), 'array', 'an array that exists is kept', 'list_in_array')
            continue
        if f.decide(cnt, '<=') is True:
            continue
        seen = True
        ctx.require(f.decide(cnt, '<=') is False, 'array', 'an array is made whenever there are items', 'list_in_array')
        if len(ls) != 1:
            ctx.fail('array', 'the array is filled by a walk over the list', 'list_in_array')
            continue
        S = ls[0]
        w = [v for v in S.vars if walks(S, v, W.on)]
        if len(w) != 1:
            raise Unsupported('list_in_array does not walk the list')
        w = w[0]
        ctx.require(lin_eq(S.pre.facts, w.init, first), 'array', 'the walk starts with the first item', S)
        b, off = interp.base_of(f.norm(a))
        size = b.meta.get('size') if b is not None and b.meta else None
        ctx.require(b is not None and b.obj == 'heap' and size is not None and lin_eq(f, size, scale(cnt, 8)), 'array',
                    'the array has one place for each item (%r bytes)' % (size,), S)
        idx = [v for v, i, s in counters(S) if s == 1 and S.pre.facts.value(i) == 0]
        ptr = [v for v, i, s in counters(S) if s == 8 and lin_eq(S.pre.facts, i, a)]
        for t in S.trans():
            good = False
            m = t.st.mem
            stores = []
            while m is not None and m is not t.head.mem:
                if m[1][0] == 'st' and m[1][1] is b:
                    stores.append(m[1])
                m = m[0]
            if len(stores) == 1:
                e = stores[0]
                if lin_eq(t.facts, e[4], V(w.sym)):
                    good = any(lin_eq(t.facts, e[2], scale(V(v.sym), 8)) for v in idx)
                    good = good or any(lin_eq(t.facts, add(V(b), e[2]), V(v.sym)) for v in ptr)
            if not good:
                for e in mem_since(t):
                    if e[0] == 'st' and any(lin_eq(t.facts, add(V(e[1]), e[2]), V(v.sym)) for v in ptr) and lin_eq(t.facts, e[4], V(w.sym)):
                        good = True
            ctx.require(good, 'array', 'each item is stored in the next place', S)
            ctx.require(t.facts.decide(V(w.sym), '!=') is True, 'array', 'the walk takes items', S)
        ctx.require(f.decide(V(w.sym), '==') is True, 'array', 'the walk ends with the list', S)
    if not seen:
        ctx.fail('array', 'an array is made of a list that has items', 'list_in_array')


def mem_since(t):
    out = []
    m = t.st.mem
    while m is not None and m is not t.head.mem:
        out.append(m[1])
        m = m[0]
    return out


def walks(S, v, on):
    return v.sym is not None and not v.tmpl and S.trans() and all(
        lin_eq(t.facts, t.nxt[v], V(atom(('ld', add(V(v.sym), C(on)), 8)))) for t in S.trans())


def empty(ctx, P):
    """list_empty: every iteration takes the first item off the list, then hands it over; it stops when the list is empty"""
    L = arg('list', 1, ptr=True)
    on, op = P.off('Item', 'next'), P.off('Item', 'prev')
    of, oa, oc = P.off('List', 'first'), P.off('List', 'array'), P.off('List', 'count')

    def removed(I, fr, ins, st, a):
        """contract of list_remove for an item at the front of the list (proved above)"""
        f = st.facts
        first = I.load(st, add(a[0], C(of)), 8, ir.PTR)[0][1]
        if not lin_eq(f, first, a[1]):
            # some item: the first one is then unknown (and equal items may be recognised on the next pass)
            b, o = interp.base_of(f.norm(a[0]))
            u = atom(('first after', f.norm(a[1]), first), None, 0)
            interp.mkptr(u)
            return [(st.event('bad', 'removes an item that is not the first').put(('st', b, add(o, C(of)), 8, V(u), ('List', 0))), None)]
        nx = I.load(st, add(a[1], C(on)), 8, ir.PTR)[0][1]
        n = I.load(st, add(a[0], C(oc)), 8, ir.Ty('int', 64))[0][1]
        b, o = interp.base_of(f.norm(a[0]))
        st = st.event('removed', f.norm(a[1]))
        st = st.put(('st', b, add(o, C(of)), 8, nx, ('List', 0)))
        return [(st.put(('st', b, add(o, C(oc)), 8, sub(n, ONE), ('List', 3))), None)]

    def process(I, fr, ins, st, fn, vals):
        return [(st.event('process', st.facts.norm(fn), tuple(st.facts.norm(x) for x in vals)), None)]
    I = ctx.interp(prims={'list_remove': removed, '*indirect': process})
    proc = arg('process_item', 1, ptr=True)
    n = 0
    for o in live(I.run('list_empty', [L, proc])):
        n += 1
        ls = loops_of(o.st)
        now = I.load(o.st, add(L, C(of)), 8, ir.PTR)
        ctx.require(o.kind == 'ret' and len(now) == 1 and o.st.facts.decide(now[0][1], '==') is True, 'empty', 'list_empty leaves no item', 'list_empty')
        for S in ls:
            for t in S.trans():
                h = [v for v in S.vars if v.kind == 'cell' and lin_eq(t.facts, add(V(v.key[0]), v.key[1]), add(L, C(of)))]
                cur = V(h[0].sym) if h else None
                ev = [e for e in t.events if e[0] in ('removed', 'process', 'bad')]
                ok = cur is not None and [e[0] for e in ev] == ['removed', 'process'] and lin_eq(t.facts, ev[0][1], cur) and \
                    lin_eq(t.facts, ev[1][2][0], cur) and lin_eq(t.facts, ev[1][1], proc)
                ctx.require(ok, 'empty', 'each item is taken off the list and then handed over once', S)
    ctx.require(n >= 1, 'empty', 'list_empty returns', 'list_empty')


def layouts(ctx):
    """every list and item type of the sources has the links where the list module has them"""
    from engine import build as B
    full = B.load(None)
    ctx.full = full
    base_i, base_l = full.modules['list'], None
    P = ctx.P
    want_i = {k: P.off('Item', k) for k in ('prev', 'next')}
    want_l = {k: P.off('List', k) for k in ('first', 'last', 'array', 'count')}
    n = 0
    for s, (z, fs) in full.fields.items():
        for want in (want_i, want_l):
            if all(k in fs for k in want):
                n += 1
                ctx.require(all(full.off(s, k) == want[k] for k in want), 'layout', 'the list members of %s are where the list functions look' % s, s)
    ctx.require(n >= 10, 'layout', '%d list and item types' % n)


def writers(ctx):
    """links, ends, counts and arrays of lists are written by the list module only"""
    full = ctx.full
    link = {}
    for s, (z, fs) in full.fields.items():
        ks = list(fs)
        if 'prev' in ks and 'next' in ks:
            link[s] = {ks.index('prev'), ks.index('next')}
        if all(k in ks for k in ('first', 'last', 'array', 'count')):
            link[s] = {ks.index(k) for k in ('first', 'last', 'array', 'count')}
    n = 0
    for m in full.modules.values():
        for f in m.functions.values():
            for t, ins in store_tags(full, m, f):
                n += 1
                if m.name == 'list' or not t or t[0] not in link:
                    continue
                k = t[1][1] if isinstance(t[1], tuple) else t[1]
                local = local_root(f, ins.a[1])
                ctx.require(k not in link[t[0]] or local, 'writers', '%s:%s writes the links of a %s' % (m.name, f.name, t[0]), f.name)
    ctx.require(n > 100, 'writers', '%d stores looked at' % n)


def local_root(f, op):
    """is the address within a local variable?"""
    while op[0] == 'local':
        d = interp.defs_of(f).get(op[1])
        if d is None:
            return False
        if d.op == 'alloca':
            return True
        if d.op == 'gep':
            op = d.a[0][1]
            continue
        return False
    return False
