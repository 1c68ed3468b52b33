"""C21: tables find what was put in, once, and nothing else."""
from .common import *

RULE = ('The index of a key is within the table for every key and is computed from the bytes of the key alone. Looking up walks the bucket of the '
        'key from its first entry, leaves at the first entry whose key compares equal and returns it, and returns NULL at the end of the bucket. '
        'Inserting and removing hand the entry to the list operation of the bucket of the key of the entry, discard the array and change the '
        'count by one. The array has one place for each entry and is filled by walking every bucket. Nothing else writes buckets, count, array '
        'or the key of an entry that is in a table.')
ASSUME = ['the list operations keep the lists (C20); the key of an entry is a C string; an entry is inserted once (usage contract in table.h)',
          'allocation succeeds (C32)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; effect analysis'
LISTOPS = ('list_insert_first', 'list_insert_last', 'list_insert_before', 'list_insert_after', 'list_remove', 'list_initialize', 'list_empty')


class T:
    def __init__(self, P):
        if 'Table' not in P.fields or any(k not in P.fields['Table'][1] for k in ('list', 'array', 'count')):
            raise Unsupported('anchor vanished: struct Table')
        self.P = P
        lsz = P.fields['Entrylist'][0]
        off, size = P.fields['Table'][1]['list'][:2]
        self.list, self.lsz, self.n = off, lsz, size // lsz
        self.array, self.count = P.off('Table', 'array'), P.off('Table', 'count')
        self.first = P.off('Entrylist', 'first')
        self.next, self.key = P.off('Entry', 'next'), P.off('Entry', 'key')

    def bucket(self, table, i):
        return add(table, add(C(self.list), scale(i, self.lsz)))


def listop(name):
    def p(I, fr, ins, st, a):
        return [(st.event('listop', name, tuple(st.facts.norm(x) for x in a)), None)]
    return p


def find_hash(ctx, P):
    """the functions of the table module that compute an index: integer result, one pointer argument"""
    m = P.modules['table']
    c = [f for f in m.functions.values() if len(f.params) == 1 and f.ret is not None and f.ret.k == 'int' and f.ret.a >= 8]
    if len(c) > 1:
        c = [f for f in c if not any(calls_name(g, f.name) for g in c if g is not f)]      # helpers of another candidate
    if len(c) > 1:
        c = [f for f in c if reaches(callgraph(P), ('table', 'table_lookup'), {f.name})]
    if len(c) != 1:
        raise Unsupported('anchor vanished: the index function of the table module (%s)' % [f.name for f in c])
    return m, c[0]


PURE = {'strlen', 'toupper', 'tolower', 'memcmp', 'strcmp'}


def pure_of_key(ctx, P, m, f, seen=None):
    seen = seen if seen is not None else set()
    if f.name in seen:
        return
    seen.add(f.name)
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op == 'call':
                n = ins.a[0][1] if ins.a[0][0] == 'global' else None
                g = P.resolve(m, n) if n else None
                if g is not None:
                    pure_of_key(ctx, P, g.module, g, seen)
                elif not (n and (n in PURE or n.startswith('llvm.'))):
                    raise Unsupported('the index function calls %s' % n)
            elif ins.op == 'load':
                for gl in root_globals(f, ins.a[0]):
                    d = m.globals.get(gl)
                    ctx.require(d is not None and d['const'], 'index', 'the index does not depend on the variable %s' % gl, f.name)
            elif ins.op == 'store':
                ctx.require(not root_globals(f, ins.a[1]), 'index', 'the index function changes nothing', f.name)
            elif ins.op in ('ptrtoint',) or (ins.op == 'cast' and 'ptrtoint' in str(ins.a)):
                ctx.fail('index', 'the index depends on where the key is', f.name)


def run(ctx):
    P = ctx.program()
    t = T(P)
    m, h = find_hash(ctx, P)
    key = arg('key', 1, ptr=True)
    pure_of_key(ctx, P, m, h)
    for o in live(ctx.interp().run(h, [key])):
        ctx.paths += 1
        if o.kind != 'ret':
            ctx.fail('index', 'the index function returns', h.name)
            continue
        f = o.st.facts
        ctx.require(f.decide(scale(o.val, -1), '<=') is True and f.decide(add(o.val, C(1 - t.n)), '<=') is True,
                    'index', 'the index %r is within 0..%d' % (f.norm(o.val), t.n - 1), h.name)

    def p_hash(I, fr, ins, st, a):
        return [(st, V(atom(('idx', st.facts.norm(a[0])), None, 0, t.n - 1)))]
    prims = {(m.name, h.name): p_hash}
    prims.update({k: listop(k) for k in LISTOPS})
    lookup(ctx, P, t, prims)
    change(ctx, P, t, prims)
    whole(ctx, P, t, prims)
    in_array(ctx, P, t, prims)
    layouts(ctx, P, t)


def idx(k):
    return V(atom(('idx', k), None))


def lookup(ctx, P, t, prims):
    table, key = arg('table', 1, ptr=True), arg('key', 1, ptr=True)
    I = ctx.interp(prims=prims)
    outs = live(I.run('table_lookup', [table, key]))
    first = V(atom(('ld', add(t.bucket(table, idx(key)), C(t.first)), 8)))
    hit = miss = 0
    for o in outs:
        ctx.paths += 1
        f = o.st.facts
        if o.kind != 'ret':
            ctx.fail('lookup', 'table_lookup returns', 'table_lookup')
            continue
        ls = loops_of(o.st)
        ctx.require(not [e for e in o.st.events() if e[0] == 'listop'], 'lookup', 'looking up changes nothing', 'table_lookup')
        if not ls:
            # decided without a walk: only for an empty bucket, or the first entry
            if f.decide(first, '==') is True:
                ctx.require(f.value(o.val) == 0, 'lookup', 'nothing is found in an empty bucket', 'table_lookup')
            else:
                ctx.require(same_key(f, t, key, first) and lin_eq(f, o.val, first), 'lookup', 'an entry is returned without a walk', 'table_lookup')
            continue
        if len(ls) != 1:
            raise Unsupported('table_lookup has %d loops' % len(ls))
        S = ls[0]
        w = [v for v in S.vars if v.sym is not None and not v.tmpl and S.trans() and
             all(lin_eq(x.facts, x.nxt[v], V(atom(('ld', add(V(v.sym), C(t.next)), 8)))) for x in S.trans())]
        if len(w) != 1:
            ctx.fail('lookup', 'the bucket is walked entry by entry', S)
            continue
        w = V(w[0].sym)
        v = S.var(w)
        ctx.require(lin_eq(S.pre.facts, v.init, first), 'lookup', 'the walk starts at the first entry of the bucket of the key', S)
        for x in S.trans():
            ctx.require(x.facts.decide(w, '!=') is True and differs(x.facts, t, key, w), 'lookup', 'the walk goes on only past an entry with another key', S)
        if f.decide(w, '==') is True:
            miss += 1
            ctx.require(f.value(o.val) == 0, 'lookup', 'NULL at the end of the bucket', 'table_lookup')
        else:
            hit += 1
            ctx.require(same_key(f, t, key, w) and lin_eq(f, o.val, w), 'lookup', 'the entry returned has the key', 'table_lookup')
    if not hit or not miss:
        ctx.fail('lookup', 'table_lookup both finds and misses entries', 'table_lookup')


def same_key(f, t, key, e):
    k = V(atom(('ld', add(e, C(t.key)), 8)))
    return strcmp_known(f, key, k, '==') is True


def differs(f, t, key, e):
    k = V(atom(('ld', add(e, C(t.key)), 8)))
    return strcmp_known(f, key, k, '!=') is True


def strcmp_known(f, x, y, op):
    return f.decide(libc.strcmp_atom('strcmp', f.norm(x), f.norm(y)), op)


def change(ctx, P, t, prims):
    table, entry = arg('table', 1, ptr=True), arg('entry', 1, ptr=True)
    k = V(atom(('ld', add(entry, C(t.key)), 8)))
    for name, ops, d in (('table_insert', ('list_insert_first', 'list_insert_last'), 1), ('table_remove', ('list_remove',), -1)):
        I = ctx.interp(prims=prims)
        outs = live(I.run(name, [table, entry]))
        if not outs:
            ctx.fail('change', '%s returns' % name, name)
        for o in outs:
            ctx.paths += 1
            f = o.st.facts
            ev = [e for e in o.st.events() if e[0] == 'listop']
            ok = o.kind == 'ret' and len(ev) == 1 and ev[0][1] in ops and lin_eq(f, ev[0][2][0], t.bucket(table, idx(k))) and \
                lin_eq(f, ev[0][2][1], entry)
            ctx.require(ok, 'change', '%s hands the entry to the list of its bucket once' % name, name)
            tail(ctx, I, t, o, table, d, name)


def tail(ctx, I, t, o, table, d, name):
    f = o.st.facts
    c0 = V(atom(('ld', add(table, C(t.count)), 8)))
    a0 = V(atom(('ld', add(table, C(t.array)), 8)))
    c = I.load(o.st, add(table, C(t.count)), 8, ir.Ty('int', 64))[0][1]
    a = I.load(o.st, add(table, C(t.array)), 8, ir.PTR)[0][1]
    want = add(c0, C(d)) if d else ZERO
    ctx.require(lin_eq(f, c, want), 'count', '%s makes the count %r (is %r)' % (name, want, c), name)
    ctx.require(f.value(a) == 0 or (lin_eq(f, a, a0) and f.decide(a0, '==') is True), 'array', '%s discards the array' % name, name)
    for e in o.st.events():
        if e[0] == 'free':
            ctx.require(lin_eq(f, e[1], a0) or f.value(e[1]) == 0, 'array', '%s frees nothing but the array' % name, name)


def whole(ctx, P, t, prims):
    table, proc = arg('table', 1, ptr=True), arg('process_entry', 1, ptr=True)
    for name, op, args in (('table_initialize', 'list_initialize', [table]), ('table_empty', 'list_empty', [table, proc])):
        I = ctx.interp(prims=prims)
        outs = live(I.run(name, args))
        if not outs:
            ctx.fail('whole', '%s returns' % name, name)
        for o in outs:
            ctx.paths += 1
            ls = loops_of(o.st)
            if len(ls) != 1:
                ctx.fail('whole', '%s goes over the buckets' % name, name)
                continue
            S = ls[0]
            i, at = every(S, t, table)
            if i is None:
                ctx.fail('whole', '%s goes over every bucket' % name, S)
                continue
            for x in S.trans():
                ev = [e for e in x.events if e[0] == 'listop']
                ok = len(ev) == 1 and ev[0][1] == op and lin_eq(x.facts, ev[0][2][0], at) and \
                    (len(args) == 1 or lin_eq(x.facts, ev[0][2][1], proc))
                ctx.require(ok, 'whole', '%s treats each bucket by %s' % (name, op), S)
            tail(ctx, I, t, o, table, 0, name) if name == 'table_empty' else tail0(ctx, I, t, o, table, name)


def tail0(ctx, I, t, o, table, name):
    f = o.st.facts
    for k, ty in ((t.count, ir.Ty('int', 64)), (t.array, ir.PTR)):
        v = I.load(o.st, add(table, C(k)), 8, ty)[0][1]
        ctx.require(f.value(v) == 0, 'whole', '%s sets count and array to zero' % name, name)
    ctx.require(not [e for e in o.st.events() if e[0] == 'free'], 'whole', '%s frees nothing' % name, name)


def every(S, t, table):
    """the loop variable and the address of the bucket it stands for, which is each bucket once, in either order"""
    n = t.n
    v = v0 = counted(S, ZERO, C(n))
    if v is not None and not isinstance(v, Shifted):
        return v, t.bucket(table, V(v.sym))

    def within(v, lo, hi):
        x = V(v.sym)
        return all(q.facts.decide(sub(lo, x), '<=') is True and q.facts.decide(add(sub(x, hi), ONE), '<=') is True for q in S.trans())

    def used_up(d):
        return all(dead(o) or fatal(S, o) or o.st.facts.decide(d, '<=') is True for o in S.exits())
    for v, init, step in counters(S):
        x = V(v.sym)
        if step == t.lsz and lin_eq(S.pre.facts, init, t.bucket(table, ZERO)):
            end = t.bucket(table, C(n))
            if within(v, t.bucket(table, ZERO), end) and used_up(sub(end, x)):
                return v, x
        if step == -1 and S.pre.facts.value(init) in (n - 1, n):
            k = S.pre.facts.value(init) - (n - 1)
            if within(v, C(k), C(n + k)) and used_up(add(x, C(1 - k))):
                return v, t.bucket(table, sub(x, C(k)))
    return (None, None) if v0 is None else (v0, t.bucket(table, V(v0.sym)))


def in_array(ctx, P, t, prims):
    table = arg('table', 1, ptr=True)
    I = ctx.interp(prims=prims)
    c0 = V(atom(('ld', add(table, C(t.count)), 8)))
    a0 = V(atom(('ld', add(table, C(t.array)), 8)))
    made = 0
    for o in live(I.run('table_in_array', [table])):
        ctx.paths += 1
        f = o.st.facts
        if o.kind != 'ret':
            ctx.fail('array', 'table_in_array returns', 'table_in_array')
            continue
        a = I.load(o.st, add(table, C(t.array)), 8, ir.PTR)[0][1]
        ls = loops_of(o.st)
        if f.decide(a0, '!=') is True and not ls:
            ctx.require(lin_eq(f, a, a0), 'array', 'an array that exists is kept', 'table_in_array')
            continue
        if f.decide(c0, '==') is True and not ls:
            continue
        made += 1
        ctx.require(len(ls) == 1, 'array', 'an array is made by a walk over the buckets', 'table_in_array')
        if len(ls) != 1:
            continue
        b, off = interp.base_of(f.norm(a))
        size = b.meta.get('size') if b is not None and b.meta else None
        ctx.require(b is not None and b.obj == 'heap' and size is not None and lin_eq(f, size, scale(c0, 8)), 'array',
                    'the array has one place for each entry (%r bytes)' % (size,), 'table_in_array')
        S = ls[0]
        i, at = every(S, t, table)
        if i is None:
            ctx.fail('array', 'every bucket is walked', S)
            continue
        inner_seen = 0
        for x in S.trans():
            il = [e[1] for e in x.events if e[0] == 'loop']
            first = V(atom(('ld', add(at, C(t.first)), 8)))
            if not il:
                ok = x.facts.decide(first, '==') is True
                ctx.require(ok, 'array', 'only empty buckets are passed over', S)
                for v in S.vars:
                    if v is not i and v.sym is not None and not v.tmpl and position(S, v, a):
                        ctx.require(lin_eq(x.facts, x.nxt[v], V(v.sym)), 'array', 'no place is passed over', S)
                continue
            if len(il) != 1:
                raise Unsupported('table_in_array walks a bucket by %d loops' % len(il))
            R = il[0]
            inner_seen += 1
            w = [v for v in R.vars if v.sym is not None and not v.tmpl and R.trans() and
                 all(lin_eq(y.facts, y.nxt[v], V(atom(('ld', add(V(v.sym), C(t.next)), 8)))) for y in R.trans())]
            if len(w) != 1:
                ctx.fail('array', 'a bucket is walked entry by entry', R)
                continue
            w = w[0]
            ctx.require(lin_eq(R.pre.facts, w.init, first), 'array', 'the walk starts with the first entry of the bucket', R)
            for y in R.exits():
                ctx.require(dead(y) or fatal(R, y) or y.st.facts.decide(V(w.sym), '==') is True, 'array', 'the walk ends with the bucket', R)
            # the place: an index or a pointer carried through both loops
            pos = None
            for v, init, step in counters(R):
                for ov in S.vars:
                    if ov is i or ov.sym is None or ov.tmpl:
                        continue
                    if lin_eq(R.pre.facts, init, V(ov.sym)) and lin_eq(x.facts, x.nxt[ov], V(v.sym)):
                        if step == 1 and S.pre.facts.value(ov.init) == 0:
                            pos = (v, 'index')
                        elif step == 8 and lin_eq(S.pre.facts, ov.init, a):
                            pos = (v, 'ptr')
                    elif step == 1 and S.pre.facts.value(ov.init) == 0 and R.pre.facts.value(init) == 0 and \
                            lin_eq(x.facts, x.nxt[ov], add(V(ov.sym), V(v.sym))):
                        pos = (v, 'more', add(V(ov.sym), V(v.sym)))
            if pos is None:
                ctx.fail('array', 'the places of the array are used one after the other', R)
                continue
            for y in R.trans():
                st = [e for e in mem_since(y) if e[0] == 'st' and lin_eq(y.facts, e[4], V(w.sym))]
                where = scale(V(pos[0].sym), 8) if pos[1] == 'index' else add(a, scale(pos[2], 8)) if pos[1] == 'more' else V(pos[0].sym)
                ok = len(st) == 1 and (lin_eq(y.facts, add(V(st[0][1]), st[0][2]), add(a, where) if pos[1] == 'index' else where))
                ctx.require(ok and y.facts.decide(V(w.sym), '!=') is True, 'array', 'each entry is stored in the next place', R)
        ctx.require(inner_seen > 0, 'array', 'buckets with entries are walked', S)
    if not made:
        ctx.fail('array', 'an array is made of a table that has entries', 'table_in_array')


def position(S, v, a):
    return S.pre.facts.value(v.init) == 0 or lin_eq(S.pre.facts, v.init, a)


def mem_since(t):
    out = []
    m = t.st.mem
    while m is not None and m is not t.head.mem:
        out.append(m[1])
        m = m[0]
    return out


def layouts(ctx, P, t):
    from engine import build as B
    full = B.load(None)
    want_e = {k: P.off('Entry', k) for k in ('prev', 'next', 'key')}
    tables = {}
    n = 0
    for s, (z, fs) in full.fields.items():
        if list(fs)[:3] == ['prev', 'next', 'key']:
            n += 1
            ctx.require(all(full.off(s, k) == want_e[k] for k in want_e), 'layout', 'the members of entry type %s are where the table functions look' % s, s)
        if list(fs) == ['list', 'array', 'count']:
            n += 1
            tables[s] = fs
            ctx.require(fs['list'] == P.fields['Table'][1]['list'] and fs['array'][0] == t.array and fs['count'][0] == t.count, 'layout',
                        'the members of table type %s are where the table functions look' % s, s)
    ctx.require(n >= 4, 'layout', '%d table and entry types' % n)
    # who writes counts and arrays of tables, and keys of entries
    m = 0
    for mod in full.modules.values():
        for f in mod.functions.values():
            for tg, ins in store_tags(full, mod, f):
                m += 1
                if mod.name in ('table', 'list') or not tg:
                    continue
                if tg[0] in tables:
                    ctx.fail('writers', '%s:%s writes a member of a %s' % (mod.name, f.name, tg[0]), f.name)
                if tg[0] in full.fields and list(full.fields[tg[0]][1])[:3] == ['prev', 'next', 'key'] and tg[1] == 2:
                    ctx.require(entered_later(f, ins), 'writers', '%s:%s sets the key of a new entry before inserting it' % (mod.name, f.name), f.name)
    ctx.require(m > 100, 'writers', '%d stores looked at' % m)


def entered_later(f, ins):
    """the key is stored into an entry allocated in this function"""
    op = ins.a[1]
    d = interp.defs_of(f)
    for _ in range(20):
        if op[0] != 'local':
            return False
        i = d.get(op[1])
        if i is None:
            return False
        if i.op == 'gep':
            op = i.a[0][1] if isinstance(i.a[0], tuple) and len(i.a[0]) == 2 and not isinstance(i.a[0][0], str) else i.a[0]
            continue
        if i.op == 'call':
            return i.a[0] in (('global', 'allocate'), ('global', 'malloc'), ('global', 'calloc'))
        return i.op == 'alloca'
    return False
