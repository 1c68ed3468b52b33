"""C09: word accuracy accounting is consistent."""
from .common import *
from .C11 import reset_prim, counted_once, glob

RULE = ('setup enters every word of each text, in order, as a symbol that stands for the entry of exactly its spelling; every symbol of the correct '
        'text is counted once, missed unless recognised, in the table of its kind; every row of each table is added once to the total, to its kind\'s '
        'total and to the length its key has in characters (at most 50), and, for non-stopwords, once to the number of its occurrences (at most 11), '
        'missed iff all were; from every word the phrases of 1..8 words that fit are counted once each, missed iff one of their words was not '
        'recognised. All this is decided per loop iteration, probing the accumulators at a symbolic index, so that nothing else changes.')
ASSUME = ['tables behave (C21); counts stay below 2^63; words are not empty']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; accumulators compared at a symbolic probe index; effect analysis of the rest'
MAXLEN, MAXOCC, MAXPHRASE = 50, 10, 8
I64 = ir.Ty('int', 64)


def run(ctx):
    P = ctx.program('wordacc')
    boolean_field(ctx, P, 'Symbol', 'recognized')
    symbols(ctx, P)
    entry = reach_entry(P, 'wordacc', 'is_stopword')
    accounting(ctx, P, entry)
    order(ctx, P, entry)


def boolean_field(ctx, P, struct, fld):
    """only True and False are ever stored there"""
    k = list(P.fields[struct][1]).index(fld)
    M = P.modules['wordacc']
    for f in M.functions.values():
        for t, ins in store_tags(P, M, f):
            if t and t[0] == struct and t[1] in (k, ('int', k)):
                ctx.require(ins.a[0] in (('int', 0), ('int', 1)), 'recognised', '%s.%s is True or False' % (struct, fld), f.name)


def symbols(ctx, P, each=None):
    """every word is entered; each(I, u, e, iv) is told about every way a word of text iv gets its entry e"""
    def found(f):
        return calls_name(f, 'find_words')
    entry = entry_below_main(P, 'wordacc', found, 'find_words')
    prims = dict(table_lookup=lookup_prim, table_insert=insert_prim, read_text=reset_prim('read_text'), find_words=reset_prim('find_words'),
                 list_empty=reset_prim('list_empty'))
    for f in P.modules['wordacc'].functions.values():
        if f is not entry and f.name != 'main' and not any(calls_name(f, x) for x in prims) and \
                not any(t and t[0] in ('Id', 'Wordlist', 'Text') or t == ('Symbol', 0) for t, _ in store_tags(P, P.modules['wordacc'], f)):
            prims[('wordacc', f.name)] = interp.generic_event(f.name, 'ptr' if f.ret.k == 'ptr' else 'none')
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    argv = arg('argv', 1, ptr=True)
    if len(entry.params) != 1:
        raise Unsupported('the function of wordacc that reads the texts takes %d arguments' % len(entry.params))
    outs = live(I.run(entry, [argv]))
    done = 0
    seen = set()
    nx, so = P.off('Word', 'next'), P.off('Word', 'string')
    ssz = P.sizeof('Symbol')
    for o in outs:
        ctx.paths += 1
        if o.kind != 'ret':
            continue
        ls = [S for S in loops_of(o.st) if any(e[0] == 'lists' for t in S.trans() for e in t.events)]
        if len(ls) != 1:
            raise Unsupported('the texts are not read in one loop')
        T = ls[0]
        if T.lid in seen:
            continue
        seen.add(T.lid)
        i = counted(T, ZERO, C(2))
        if i is None:
            ctx.fail('setup', 'both texts are read', T)
            continue
        iv = V(i.sym)
        for t in T.trans():
            le = [e for e in t.events if e[0] == 'lists']
            wl = add(glob('wordlist'), scale(iv, P.sizeof('Wordlist')))
            tx = add(glob('text'), scale(iv, P.sizeof('Text')))
            ok = [e[1] for e in le[:2]] == ['read_text', 'find_words'] and lin_eq(t.facts, le[0][3][0], tx) and \
                lin_eq(t.facts, le[0][3][1], V(atom(('ld', add(argv, scale(iv, 8)), 8)))) and lin_eq(t.facts, le[1][3][0], wl) and \
                lin_eq(t.facts, le[1][3][1], tx)
            ctx.require(ok, 'setup', 'the words of each text come from its own file (%s)' % (le,), T)
            inner = [e for e in t.events if e[0] == 'loop' and any(x[0] == 'lookup' for y in e[1].trans() for x in y.events)]
            ok = len(inner) == 1 and t.events.index(inner[0]) > t.events.index(le[1]) and \
                not any(e[0] == 'lists' and e[2] == le[1][2] for e in t.events[t.events.index(le[1]) + 1:t.events.index(inner[0])])
            ctx.require(ok, 'setup', 'the words of each text are entered', T)
            if not ok:
                continue
            W = inner[0][1]
            w = walk_var(W, nx)
            if w is None:
                ctx.fail('setup', 'every word is entered: the words are walked one by one', W)
                continue
            ctx.require(lin_eq(W.pre.facts, w.init, load_at(I, W.pre, wl, P, 'Wordlist', 'first')), 'setup', 'the walk starts with the first word', W)
            for x in W.exits():
                ctx.require(dead(x) or fatal(W, x) or x.st.facts.decide(V(w.sym), '==') is True, 'setup', 'the walk ends with the last word', W)
            base = I.load(W.pre, add(glob('symbol'), scale(iv, 8)), 8, ir.Ty('ptr', None))[0][1]
            cs = elements(W, base, ssz)
            if not cs:
                ctx.fail('setup', 'the symbols are numbered from 0', W)
                continue
            for u in W.trans():
                done += 1
                f = u.facts
                lk = [e for e in u.events if e[0] == 'lookup']
                ins = [e for e in u.events if e[0] == 'insert']
                key = (('str', V(atom(('ld', add(V(w.sym), C(so)), 8))), 0, '', None),)
                ok = len(lk) == 1 and lin_eq(f, lk[0][1], glob('idtable')) and same_word(f, lk[0][2], key)
                ctx.require(ok, 'setup', 'a word is looked up by its own spelling', W)
                if not ok:
                    continue
                e = lk[0][3]
                if f.value(e) == 0:
                    ok = len(ins) == 1 and lin_eq(f, ins[0][1], lk[0][1])
                    if ok:
                        e = ins[0][2]
                        k = load_at(I, u.st, e, P, 'Id', 'key')
                        ok = same_word(f, libc.string_tokens(I, u.st, k), key)
                    ctx.require(ok, 'setup', 'a new word gets an entry of its own spelling', W)
                    if not ok:
                        continue
                else:
                    ctx.require(not ins, 'setup', 'a known word is not entered again', W)
                got = I.load(u.st, cs[0], 8, ir.Ty('ptr', None), ('Symbol', 0))
                ctx.require(len(got) == 1 and lin_eq(f, got[0][1], e), 'setup', 'the symbol of a word is its entry (%s)' % (got[0][1],), W)
                if each:
                    each(I, u, e, iv)
    ctx.require(done > 0, 'setup', 'the words are entered', entry.name)


def probe(ctx, I, P, t, S, rule, what, base, size, off, spec, lo, hi):
    """over one iteration the 8-byte cells base + size*q + off, lo <= q <= hi, change by spec(oracle, q)"""
    q = V(atom(('probe',), 'q', -INF, INF))
    f = t.facts.assume(sub(C(lo), q), '<=')
    f = f and f.assume(sub(q, C(hi)), '<=')
    if f is None:
        raise Unsupported('no probe')
    addr = add(base, add(scale(q, size), C(off)))
    tag = ('Wac', 0 if off == P.off('Wac', 'count') else 1)
    n = 0
    for f2, want in table(f, lambda o: spec(o, q)):
        for s3, new in I.load(t.st.with_facts(f2), addr, 8, I64, tag):
            for s4, old in I.load(t.head.with_facts(s3.facts), addr, 8, I64, tag):
                if not libc.consistent(s4.facts) or s4.facts._infeasible(ZERO):
                    continue
                n += 1
                ctx.require(lin_eq(s4.facts, new, add(old, want)), rule, '%s changes by %r (%r to %r where %s)' % (what, want, old, new, s4.facts.describe()[-200:]), S)
    return n


def length_of(I, t, key):
    """the length of the key in characters, as computed by a loop over its bytes: counts the bytes that do not continue a character"""
    for e in t.events:
        if e[0] != 'loop':
            continue
        L = e[1]
        for v, init, step in counters(L):
            if step != 1:
                continue
            b = None
            if lin_eq(t.facts, init, key):
                b = V(v.sym)
            elif L.pre.facts.value(init) == 0:
                b = add(key, V(v.sym))
            if b is None:
                continue
            byte = V(atom(('ld', b, 1)))
            for x in L.vars:
                if x is v or x.sym is None or L.pre.facts.value(x.init) != 0:
                    continue
                good = bool(L.trans())
                for u in L.trans():
                    byte_v = I.load(u.head, b, 1, ir.Ty('int', 8))[0][1]
                    good = good and u.facts.decide(byte_v, '!=') is True
                    for c in range(-128, 128):
                        f = at_byte(u.facts, byte_v, c)
                        if f is None:
                            continue
                        d = f.norm(sub(u.nxt[x], V(x.sym)))
                        good = good and f.value(d) == (0 if -128 <= c < -64 else 1)
                for o in L.exits():
                    if not dead(o):
                        good = good and o.st.facts.decide(I.load(o.st, b, 1, ir.Ty('int', 8))[0][1], '==') is True
                if good:
                    return V(x.sym)
    return None


def at_byte(f, b, c):
    """facts with byte b known, or None when impossible there"""
    f2 = f.assume(sub(b, C(c)), '==')
    if f2 is None:
        return None
    a = b.one()
    for x, d in f.dom.items():
        if x is not a and a in deep_atoms(x):
            v = bitval(V(x), a, c)
            if v is not None and not is_contains(d, v):
                return None
    return f2


def bitval(l, a, c):
    """value of an expression of one byte"""
    r = l.c
    for x, k in l.t:
        if x is a:
            v = c
        elif x.key[0] in ('and', 'or', 'xor', 'trunc', 'ashr', 'lshr'):
            args = [y if isinstance(y, int) else bitval(y if isinstance(y, Lin) else V(y), a, c) for y in x.key[1:]]
            if any(y is None for y in args):
                return None
            if x.key[0] == 'and':
                v = args[0] & args[1]
            elif x.key[0] == 'or':
                v = args[0] | args[1]
            elif x.key[0] == 'xor':
                v = args[0] ^ args[1]
            else:
                return None
        else:
            return None
        r += k * v
    return r


def row_of(I, P, S, tab):
    """the row each iteration is about: the loop visits every element of the table's array once"""
    arr = load_at(I, S.pre, tab, P, 'Termtable', 'array')
    cnt = load_at(I, S.pre, tab, P, 'Termtable', 'count')
    a = arr.one() if arr is not None else None
    if a is None or a.key[0] != 'array_of' or not times(S, cnt):
        return None
    for v, init, step in counters(S):
        if step == 1 and S.pre.facts.value(init) == 0:
            return V(atom(('ld', add(arr, scale(V(v.sym), 8)), 8)))
        if step == 8 and lin_eq(S.pre.facts, init, arr):
            return V(atom(('ld', V(v.sym), 8)))
        if step == -1 and lin_eq(S.pre.facts, init, add(cnt, C(-1))):
            return V(atom(('ld', add(arr, scale(V(v.sym), 8)), 8)))
    return None


def accounting(ctx, P, entry):
    def ask(I, fr, ins, st, a):
        k = tuple(libc.norm_tokens(libc.string_tokens(I, st, a[0])))
        return [(st.event('ask', k, 0), ZERO), (st.event('ask', k, 1), ONE)]
    prims = dict(table_lookup=lookup_prim, table_insert=insert_prim, is_stopword=ask, table_in_array=table_in_array_prim)
    I = ctx.interp(prims=prims)
    I.array_struct = 'Termtable'
    h = ranges(P)
    rk = list(P.fields['Symbol'][1]).index('recognized')
    I.range_hook = lambda tag, b, o, ty: (0, 1) if tag and tag[0] == 'Symbol' and tag[1] == rk else h(tag, b, o, ty)
    if entry.params:
        raise Unsupported('the accounting function takes arguments')
    outs = live(I.run(entry, []))
    W = glob('wacdata')
    wb = interp.base_of(W)[0]
    w = P.sizeof('Wac')
    co, mo = P.off('Wac', 'count'), P.off('Wac', 'missed')
    off = {k: P.off('Wacdata', k) for k in P.fields['Wacdata'][1]}
    kinds = {'stopword': add(W, C(off['stopword_table'])), 'non_stopword': add(W, C(off['non_stopword_table']))}
    done = {}
    for o in outs:
        ctx.paths += 1
        if o.kind != 'ret':
            ctx.fail('total', 'the accounting ends normally', entry.name)
            continue
        m, direct = o.st.mem, []
        while m is not None:
            if m[1][0] == 'st' and m[1][1] is wb and P.off('Wacdata', 'stopword_table') > (m[1][2].c if m[1][2].const else 0):
                direct.append(m[1])
            m = m[0]
        ctx.require(not direct, 'total', 'nothing is added but per word, row and phrase (%s)' % direct[:2], entry.name)
        seq = []
        for S in loops_of(o.st):
            if S.lid in done:
                seq.append(done[S.lid])
                continue
            k = kind_of(ctx, I, P, S, kinds, wb)
            done[S.lid] = k
            seq.append(k)
            if k == 'words':
                words(ctx, I, P, S, kinds)
            elif k in kinds:
                rows(ctx, I, P, S, kinds[k], k, W, off, w, co, mo)
            elif k == 'phrases':
                phrases(ctx, I, P, S, W, off, w, co, mo)
        seq = [x for x in seq if x is not None]
        ctx.require(sorted(seq) == ['non_stopword', 'phrases', 'stopword', 'words'] and seq.index('words') < min(seq.index(k) for k in kinds), 'total',
                    'words, rows of both tables and phrases are gone through once each (%s)' % seq, entry.name)


def touched(t, wb):
    r = set()
    for e in mem_since(t):
        if e[0] == 'st' and e[1] is wb:
            r.add(e[2])
        if e[0] == 'hv' and e[2][0] in ('cell', 'var', 'base') and e[2][1] is wb:
            r.add(e[2][2] if e[2][0] != 'base' else None)
    return r


def kind_of(ctx, I, P, S, kinds, wb):
    if any(e[0] == 'ask' for t in S.trans() for e in t.events):
        return 'words'
    for k, tab in kinds.items():
        if row_of(I, P, S, tab) is not None and any(touched(t, wb) for t in S.trans()):
            return k
    if any(touched(t, wb) for t in S.trans()):
        if any(e[0] == 'loop' and any(touched(x, wb) for x in e[1].trans()) for t in S.trans() for e in t.events):
            return 'phrases'
        ctx.fail('total', 'every accumulation is per row of the whole table, or per phrase', S)
    return None


def words(ctx, I, P, S, kinds):
    n = load_at(I, S.pre, glob('wordlist'), P, 'Wordlist', 'count')
    cs = elements(S, I.load(S.pre, glob('symbol'), 8, ir.Ty('ptr', None))[0][1], P.sizeof('Symbol'))
    ok = times(S, n) and cs
    ctx.require(ok, 'words', 'every word of the correct text is counted once', S)
    if not ok:
        return
    sym = cs[0]
    for t in S.trans():
        ctx.paths += 1
        f = t.facts
        asks = [e for e in t.events if e[0] == 'ask']
        id_ = load_at(I, t.head, sym, P, 'Symbol', 'id')
        key = libc.string_tokens(I, t.head, load_at(I, t.head, id_, P, 'Id', 'key'))
        rec = load_at(I, t.head, sym, P, 'Symbol', 'recognized')
        ok = len(asks) == 1 and same_word(f, asks[0][1], key)
        ctx.require(ok, 'words', 'the word itself is asked about', S)
        if not ok:
            continue
        z = f.decide(rec, '==')
        if z is None:
            ctx.fail('words', 'whether a word is missed depends on whether it was recognised', S)
            continue
        tab = kinds['stopword' if asks[0][2] else 'non_stopword']
        r = counted_once(ctx, I, P, S, t, tab, 'Term', [((('Term', 'wac'), ('Wac', 'count')), ONE), ((('Term', 'wac'), ('Wac', 'missed')), C(1 if z else 0))], 'word')
        if r is not None:
            ctx.require(same_word(f, r[1], key), 'words', 'a word is counted under its own spelling', S)


def rows(ctx, I, P, S, tab, kind, W, off, w, co, mo):
    row = row_of(I, P, S, tab)
    for t in S.trans():
        ctx.paths += 1
        cnt = load_at(I, t.head, row, P, 'Term', ('Term', 'wac'), ('Wac', 'count'))
        mis = load_at(I, t.head, row, P, 'Term', ('Term', 'wac'), ('Wac', 'missed'))
        ln = length_of(I, t, load_at(I, t.head, row, P, 'Term', 'key'))
        if ln is None:
            ctx.fail('length', 'the length of a word is its number of characters', S)
            continue
        f = t.facts.assume(sub(ONE, ln), '<=')
        f = f and f.assume(sub(ONE, cnt), '<=')         # a row stands for at least one occurrence
        f = f and f.assume(scale(mis, -1), '<=')
        f = f and f.assume(sub(mis, cnt), '<=')
        if f is None or not libc.consistent(f):
            continue      # an empty word
        t2 = type(t)(t.st.with_facts(f), t.events, t.nxt, t.src, t.head)

        def at(q, i, k, lo=False):
            return k if q.eq(i, k) else None
        for o_, v in ((co, cnt), (mo, mis)):
            what = 'count' if o_ == co else 'missed'
            probe(ctx, I, P, t2, S, 'total', 'the total (%s)' % what, add(W, C(off['total'])), w, o_, lambda q, i, v=v: v, 0, 0)

            def bylen(q, i, v=v):
                l = C(MAXLEN) if q.le(C(MAXLEN), ln) else ln
                return v if q.eq(i, ZERO) or q.eq(i, l) else ZERO
            for k in ('stopword', 'non_stopword'):
                probe(ctx, I, P, t2, S, 'length', '%s[q].%s' % (k, what), add(W, C(off[k])), w, o_,
                      bylen if k == kind else (lambda q, i: ZERO), 0, MAXLEN)

            def byocc(q, i, o_=o_):
                k = C(MAXOCC + 1) if q.le(C(MAXOCC + 1), cnt) else cnt
                d = ONE if o_ == co or q.eq(cnt, mis) else ZERO
                return d if q.eq(i, ZERO) or q.eq(i, k) else ZERO
            probe(ctx, I, P, t2, S, 'occurrences', 'distinct_non_stopword[q].%s' % what, add(W, C(off['distinct_non_stopword'])), w, o_,
                  byocc if kind == 'non_stopword' else (lambda q, i: ZERO), 0, MAXOCC + 1)
            probe(ctx, I, P, t2, S, 'phrases', 'phrase[q].%s' % what, add(W, C(off['phrase'])), w, o_, lambda q, i: ZERO, 0, MAXPHRASE)


def phrases(ctx, I, P, S, W, off, w, co, mo):
    n = load_at(I, S.pre, glob('wordlist'), P, 'Wordlist', 'count')
    size = P.sizeof('Symbol')
    base = I.load(S.pre, glob('symbol'), 8, ir.Ty('ptr', None))[0][1]
    cs = elements(S, base, size)
    ok = cs and times(S, n)
    ctx.require(ok, 'phrases', 'phrases start at every word', S)
    if not ok:
        return
    i = sub(cs[0], base)        # in bytes
    wb = interp.base_of(W)[0]
    rk = list(P.fields['Symbol'][1]).index('recognized')
    done = set()
    for t in S.trans():
        f = t.facts
        ls = [e[1] for e in t.events if e[0] == 'loop' and any(touched(x, wb) for x in e[1].trans())]
        own = [e for e in mem_since(t) if e[0] == 'st' and e[1] is wb]
        ctx.require(len(ls) == 1 and not own, 'phrases', 'the phrases from a word are counted in one go', S)
        if len(ls) != 1 or ls[0].lid in done:
            continue
        L = ls[0]
        done.add(L.lid)
        cj = [(v, init) for v, init, step in counters(L) if step == 1 and L.pre.facts.value(init) is not None]
        if not cj:
            ctx.fail('phrases', 'phrases grow word by word', L)
            continue
        v, init = cj[0]
        u = sub(V(v.sym), init)          # words so far
        n1 = load_at(I, L.pre, glob('wordlist'), P, 'Wordlist', 'count')
        ok = True
        for x in L.trans():
            ok = ok and x.facts.decide(sub(u, C(MAXPHRASE - 1)), '<=') is True and x.facts.decide(add(sub(add(i, scale(u, size)), scale(n1, size)), C(size)), '<=') is True
        for x in L.exits():
            if dead(x):
                continue
            g = x.st.facts
            ok = ok and (g.decide(sub(C(MAXPHRASE), u), '<=') is True or g.decide(sub(scale(n1, size), add(i, scale(u, size))), '<=') is True)
        ctx.require(ok, 'phrases', 'from each word the phrases of 1 to %d words that fit are counted' % MAXPHRASE, L)
        flags = [x for x in L.vars if x.flag]
        good = None
        for x in flags:
            c0 = L.pre.facts.value(x.init)
            k = flags.index(x)
            ok = bool(L.trans())
            for y in L.trans():
                rec = I.load(y.head, add(base, add(add(i, scale(u, size)), C(P.off('Symbol', 'recognized')))), 1, ir.Ty('int', 8), ('Symbol', rk))[0][1]
                z = y.facts.decide(rec, '!=')
                was, now = y.src[k] == c0, y.target[k] == c0
                ok = ok and (not was and not now or (was and z is not None and now == z))
            if ok:
                good = (k, c0)
        if good is None:
            ctx.fail('phrases', 'a phrase is correct exactly while each of its words was recognised', L)
            continue
        k, c0 = good
        for y in L.trans():
            ctx.paths += 1
            miss = ZERO if y.target[k] == c0 else ONE
            for o_, d in ((co, ONE), (mo, miss)):
                probe(ctx, I, P, y, L, 'phrases', 'phrase[q].%s' % ('count' if o_ == co else 'missed'), add(W, C(off['phrase'])), w, o_,
                      lambda q, j, d=d: d if q.eq(j, add(u, ONE)) else ZERO, 1, MAXPHRASE)
                for nm, hi in (('total', 0), ('stopword', MAXLEN), ('non_stopword', MAXLEN), ('distinct_non_stopword', MAXOCC + 1)):
                    probe(ctx, I, P, y, L, 'phrases', nm, add(W, C(off[nm])), w, o_, lambda q, j: ZERO, 0, hi)


def order(ctx, P, entry):
    M = P.modules['wordacc']
    g = callgraph(P)
    w = writes(P, 'wordacc')
    for y in g[('wordacc', 'main')]:
        if y[0] == 'wordacc' and y[1] != entry.name:
            ctx.require('wacdata' not in w[y], 'order', '%s leaves the accounts alone' % y[1], y[1])
    prims = {y: event_prim(y[1], None) for y in g[('wordacc', 'main')] if y[0] == 'wordacc'}
    prims.update(initialize=initialize_prim, init_stopwords=event_prim('init_stopwords'), write_wacrpt=event_prim('write_wacrpt'))
    I = ctx.interp(prims=prims)
    n = 0
    rd = entry_below_main(P, 'wordacc', lambda f: calls_name(f, 'find_words'), 'find_words')
    rec = entry_below_main(P, 'wordacc', stores_field(P, 'Symbol', 'recognized'), 'recognized')
    for o in live(I.run(M.functions['main'], [arg('argc0', 0), arg('argv', 1, ptr=True)])):
        ev = [e for e in o.st.events() if e[0] in ('call', 'error')]
        if any(e[0] == 'error' for e in ev):
            continue
        n += 1
        names = [e[1] for e in ev]
        want = [x for x in names if x in (rd.name, rec.name, entry.name, 'write_wacrpt')]
        exp = [x for i, x in enumerate([rd.name, rec.name, entry.name, 'write_wacrpt']) if x not in [rd.name, rec.name, entry.name, 'write_wacrpt'][:i]]
        ctx.require(want == exp, 'order', 'texts are read, words matched, counted and reported, once each (%s)' % want, 'main')
        wr = [e for e in ev if e[1] == 'write_wacrpt']
        ctx.require(len(wr) == 1 and lin_eq(o.st.facts, wr[0][2][0], glob('wacdata')), 'order', 'the accounts are reported', 'main')
    ctx.require(n >= 1, 'order', 'wordacc runs', 'main')
