"""C11: frequency listings count every occurrence once."""
from .common import *

RULE = ('ngram: every start character of every file yields exactly one count: the key is the concatenated representations of the next n characters '
        '(inductive loop summary with string accumulator), the entry of that key, new or old, and the running totals change by one, the suspect '
        'counts exactly when one of the n characters is suspect; a start too near the end of the file yields none. wordfreq: every word found '
        'counts once under its own spelling. Every file is processed once, into lists that were emptied before. Both listings print exactly count '
        '(suspect) and key of each row of the whole array and end with totals that are the sums.')
ASSUME = ['tables and lists behave (C20, C21); char_to_string gives the representation (C04); find_words finds the words (C17)',
          'counts stay below 2^63']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries and string accumulators; per-iteration effect comparison; typestate of the lists'


def reset_prim(name):
    def p(I, fr, ins, st, a):
        return [(st.event('lists', name, st.facts.norm(a[0]), tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), None)]
    return p


FILL = ('read_text', 'find_words')


def emptied(ctx, outs, where):
    """no list is filled while it still holds what was found in the file before"""
    lists = {e[2] for o in outs for e in o.st.events() if e[0] == 'lists'}
    for x in lists:
        entry = {'empty'}
        while True:
            bad = None
            exits = set()
            for s0 in entry:
                for o in outs:
                    s = s0
                    for e in o.st.events():
                        if e[0] != 'lists' or e[2] != x:
                            continue
                        if e[1] in FILL:
                            if s == 'full':
                                bad = e
                            s = 'full'
                        else:
                            s = 'empty'
                    if o.kind == 'ret':
                        exits.add(s)
            if bad or exits <= entry:
                break
            entry |= exits
        ctx.require(bad is None, 'files', '%s holds only what comes from the file being processed' % (x,), where)


def in_loops(ctx, outs, where):
    for o in outs:
        for S in loops_of(o.st):
            for t in S.trans():
                for e in t.events:
                    if e[0] == 'lists':
                        raise Unsupported('%s fills or empties lists within a loop' % where)


def counted_once(ctx, I, P, S, t, tab, ent, counts, what):
    """the transition looks one key up and increases the counts of that entry; returns the key"""
    f = t.facts
    lk = [e for e in t.events if e[0] == 'lookup']
    if len(lk) != 1:
        ctx.fail('count', 'each %s is looked up once (%d times)' % (what, len(lk)), S)
        return None
    lk = lk[0]
    ctx.require(lin_eq(f, lk[1], tab), 'count', 'the %s is looked up in the table' % what, S)
    ins = [e for e in t.events if e[0] == 'insert']
    e = lk[3]
    if f.value(e) == 0:
        ok = len(ins) == 1 and lin_eq(f, ins[0][1], tab)
        ctx.require(ok, 'count', 'a new %s is inserted once' % what, S)
        if not ok:
            return None
        e = ins[0][2]
        b, o = interp.base_of(f.norm(e))
        ctx.require(b is not None and b.obj == 'heap' and b.meta.get('size') is not None and f.value(b.meta['size']) == P.sizeof(ent) and lin_eq(f, o, ZERO),
                    'count', 'a new %s gets an entry of its own' % what, S)
        k = load_at(I, t.st, e, P, ent, 'key')
        kb, ko = interp.base_of(f.norm(k)) if k is not None else (None, None)
        ctx.require(kb is not None and kb.obj == 'heap' and same_word(f, libc.string_tokens(I, t.st, k), lk[2]), 'count',
                    'a new %s keeps a copy of its key (%r, %s)' % (what, k, show_toks(libc.string_tokens(I, t.st, k)) if k is not None else ''), S)
        zero = True
    else:
        ctx.require(not ins, 'count', 'a known %s is not inserted again' % what, S)
        zero = False
    for path, want in counts:
        got = load_at(I, t.st, e, P, ent, *path)
        was = ZERO if zero else load_at(I, t.head, e, P, ent, *path)
        ctx.require(got is not None and was is not None and lin_eq(f, got, add(was, want)), 'count',
                    'the %s of the %s goes up by %r (%r to %r)' % ('.'.join(str(x) for x in path), what, want, was, got), S)
    return e, lk[2]


def total_delta(ctx, I, P, S, t, tab, struct, fld, want):
    got, was = load_at(I, t.st, tab, P, struct, fld), load_at(I, t.head, tab, P, struct, fld)
    ctx.require(got is not None and was is not None and lin_eq(t.facts, got, add(was, want)), 'total',
                '%s goes up by %r (%r to %r)' % (fld, want, was, got), S)


def glob(n):
    return V(atom(('glob', '', n), '@' + n, obj='global'))


def run(ctx):
    ngram(ctx)
    ctx.P = None
    wordfreq(ctx)


def one_global(P, mod, struct):
    """the variable of that type"""
    c = [g for g, d in P.modules[mod].globals.items() if repr(d['ty']) == '%%struct.%s' % struct and not d['external']]
    if len(c) != 1:
        raise Unsupported('anchor vanished: one variable of type %s in %s' % (struct, mod))
    return glob(c[0])


def ngram(ctx):
    P = ctx.program('ngram')
    M = P.modules['ngram']
    entry = reach_entry(P, 'ngram', 'read_text')
    if len(entry.params) != 1:
        raise Unsupported('the function of ngram that reads a file takes %d arguments' % len(entry.params))
    vals = P.fields['Sequence'][1]['value'][1]
    maxn = vals // 4
    prims = dict(char_to_string=spell_prim, table_lookup=lookup_prim, table_insert=insert_prim, read_text=reset_prim('read_text'),
                 list_empty=reset_prim('list_empty'))
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    g = {k: interp.base_of(glob(k))[0] for k in ('n',)}
    nvar = main_sets(ctx, P, maxn)
    N = V(atom(('v', 'n'), 'n', 1, maxn))
    nsz = 2 if repr(M.globals[nvar]['ty']) == 'i16' else 4 if repr(M.globals[nvar]['ty']) == 'i32' else 8
    st = interp.State(Facts()).put(('st', glob(nvar).one(), ZERO, nsz, N, None))
    fname = arg('filename', 1, ptr=True)
    outs = live(I.run(entry, [fname], st))
    tab, text = one_global(P, 'ngram', 'Seqtable'), one_global(P, 'ngram', 'Text')
    in_loops(ctx, outs, entry.name)
    emptied(ctx, outs, entry.name)
    nx, vo = P.off('Char', 'next'), P.off('Char', 'value')
    done = set()
    for o in outs:
        ctx.paths += 1
        f = o.st.facts
        rd = [e for e in o.st.events() if e[0] == 'lists' and e[1] == 'read_text']
        ctx.require(o.kind == 'ret' and len(rd) == 1 and lin_eq(f, rd[0][3][0], text) and lin_eq(f, rd[0][3][1], fname), 'files',
                    'the file is read once', entry.name)
        ctx.require(not [e for e in o.st.events() if e[0] in ('lookup', 'insert')], 'count', 'only start characters count', entry.name)
        first = load_at(I, o.st, text, P, 'Text', 'first')
        ls = loops_of(o.st)
        if not ls:
            ctx.fail('count', 'the characters of the file are gone through', entry.name)
        # the first loop is the one over start characters; what follows it may belong to a last start cut short
        for S in ls[:1]:
            if S.lid in done:
                continue
            done.add(S.lid)
            starts(ctx, I, P, S, tab, text, N, nx, vo)
    check_rows(ctx, P, 'ngram', tab, 'Seqtable', 'Sequence',
               lambda row: (('int', ('count',)), ('int', ('suspect',)), ('str', ('key',))),
               (b'   Count  Suspect\n', [('int', 8), b' ', ('int', 8), b'   {', ('str',), b'}\n'], [('int', 8), b' ', ('int', 8), b'   Total\n']),
               [('count', 'total_count'), ('suspect', 'total_suspect')])
    mainloop(ctx, P, 'ngram', entry)
    owners(ctx, P, 'ngram', entry, {('Sequence', 'count'), ('Sequence', 'suspect'), ('Seqtable', 'total_count'), ('Seqtable', 'total_suspect')})


def starts(ctx, I, P, S, tab, text, N, nx, vo):
    w = walk_var(S, nx)
    if w is None:
        ctx.fail('count', 'every character is a start: the text is walked one character after the other', S)
        return
    tf = load_at(I, S.pre, text, P, 'Text', 'first')
    ctx.require(lin_eq(S.pre.facts, w.init, tf), 'count', 'the walk starts with the first character', S)
    inner = set()
    for t in S.trans():
        f = t.facts
        ctx.paths += 1
        left = t.st.extra.get('left', ())
        lk = [e for e in t.events if e[0] == 'lookup']
        il = [e[1] for e in t.events if e[0] == 'loop']
        R = next((L for L in il if any(k[0] == 'sacc' and k[1] is L.lid for e in lk for k in e[2])), None)
        if not lk:
            # only because the file ends too soon
            ok = False
            for L in il:
                c = walk_var(L, nx)
                ok = ok or (c is not None and f.decide(V(c.sym), '==') is True and spelled(ctx, I, P, L, V(w.sym), N, nx, vo, inner) is not None)
            ctx.require(ok, 'count', 'a start is passed over only when fewer than n characters follow', S)
            continue
        if R is None:
            ctx.fail('count', 'the key is the representations of n characters, one after the other (%s)' % show_toks(lk[0][2]), S)
            continue
        sus = spelled(ctx, I, P, R, V(w.sym), N, nx, vo, inner)
        if sus is None:
            continue
        i, flag, vals = sus
        ctx.require(len(lk[0][2]) == 1, 'count', 'the key is nothing but the n representations (%s)' % show_toks(lk[0][2]), S)
        ctx.require(f.decide(sub(N, V(i.sym)), '<=') is True, 'count', 'an n-gram has n characters', S)
        fl = [x[1] for x in left if x[0] is R]
        s = fl[-1].get(flag) if fl else None
        if s is None:
            raise Unsupported('whether an n-gram is suspect is not decided')
        d = C(1 if s else 0)
        r = counted_once(ctx, I, P, S, t, tab, 'Sequence', [(('count',), ONE), (('suspect',), d)], 'n-gram')
        if r is None:
            continue
        total_delta(ctx, I, P, S, t, tab, 'Seqtable', 'total_count', ONE)
        total_delta(ctx, I, P, S, t, tab, 'Seqtable', 'total_suspect', d)
        if f.value(lk[0][3]) == 0:
            copied(ctx, I, P, S, t, r[0], R, vals, N)
    for o in S.exits():
        if dead(o):
            continue
        if o.st.facts.decide(V(w.sym), '==') is True:
            continue
        il = [x[0] for x in o.st.extra.get('left', ())]
        ok = False
        for L in il:
            c = walk_var(L, nx)
            ok = ok or (c is not None and o.st.facts.decide(V(c.sym), '==') is True)
        ctx.require(ok, 'count', 'the walk ends only where fewer than n characters follow', S)


def spelled(ctx, I, P, R, start, N, nx, vo, seen):
    """R appends the representations of the characters from start on: (counter, suspect flag, value array base)"""
    c = walk_var(R, nx)
    i = counted(R, ZERO, N, early=True)
    if c is None or i is None or not lin_eq(R.pre.facts, c.init, start):
        ctx.fail('ngram', 'an n-gram is a run of up to n characters from the start character', R)
        return None
    ok = len(R.saccs) >= 1
    accs = [b for b, d in R.saccs.items() if not d['init']]
    acc = None
    for b in accs:
        if all(same_word(t.facts, R.saccs[b]['delta'][id(t)], (('spell', ZERO, V(atom(('ld', add(V(c.sym), C(vo)), 4), None, 0, MAXCP)), ONE),))
               for t in R.trans()):
            acc = b
    if acc is None:
        ctx.fail('ngram', 'each character adds its representation to the key (%s)' % '; '.join(
            show_toks(d['delta'][id(t)]) for d in R.saccs.values() for t in R.trans()), R)
        return None
    so = P.off('Char', 'suspect')
    sfl = None
    for v in R.vars:
        if v.flag and R.pre.facts.value(v.init) == 0:
            good = True
            for t in R.trans():
                s = I.load(t.head, add(V(c.sym), C(so)), P.fields['Char'][1]['suspect'][1], ir.Ty('int', 8 * P.fields['Char'][1]['suspect'][1]))[0][1]
                z = t.facts.decide(s, '==')
                cur = t.src[[x for x in R.vars if x.flag].index(v)]
                n = t.facts.value(t.nxt[v])
                if z is None:
                    good = good and bool(cur) and bool(n)     # already suspect
                else:
                    good = good and n is not None and bool(n) == (bool(cur) or not z)
            if good:
                sfl = v
    if sfl is None:
        ctx.fail('ngram', 'an n-gram is suspect exactly when one of its characters is', R)
        return None
    for o in R.exits():
        if dead(o):
            continue
        f = o.st.facts
        ctx.require(f.decide(sub(N, V(i.sym)), '<=') is True or f.decide(V(c.sym), '==') is True, 'ngram',
                    'a run ends after n characters or with the text', R)
    # where the values are kept
    vals = None
    for t in R.trans():
        ctx.require(t.facts.decide(V(c.sym), '!=') is True, 'ngram', 'a run consists of characters', R)
        b = None
        for e in mem_since(t):
            if e[0] == 'st' and lin_eq(t.facts, e[4], V(atom(('ld', add(V(c.sym), C(vo)), 4), None, 0, MAXCP))) and lin_eq(t.facts, e[2], scale(V(i.sym), 4)):
                b = e[1]
        vals = b if vals is None or vals is b else False
    return i, sfl, vals


def copied(ctx, I, P, S, t, entry, R, vals, N):
    """the character values of a new row, by which rows are ordered, are those of its n characters"""
    off = P.off('Sequence', 'value')
    il = [e[1] for e in t.events if e[0] == 'loop']
    for L in il[il.index(R) + 1:]:
        v = counted(L, ZERO, N)
        if v is None:
            continue
        good = bool(L.trans()) and vals not in (None, False)
        for x in L.trans():
            ok = False
            for e in mem_since(x):
                if e[0] == 'st' and lin_eq(x.facts, add(V(e[1]), e[2]), add(entry, add(C(off), scale(V(v.sym), 4)))):
                    want = I.load(x.head, add(V(vals), scale(V(v.sym), 4)), 4, ir.Ty('int', 32)) if vals else []
                    ok = len(want) == 1 and lin_eq(x.facts, e[4], want[0][1])
            good = good and ok
        if good:
            ctx.require(True, 'values', 'a new row keeps the values of its characters', S)
            return
    b, o = interp.base_of(t.facts.norm(entry))
    for e in mem_since(t):
        if e[0] == 'cp' and e[1] is b and vals not in (None, False) and lin_eq(t.facts, e[2], add(o, C(off))) and \
                lin_eq(t.facts, add(V(e[4]), e[5]), V(vals)) and t.facts.decide(sub(scale(N, 4), C(e[3])), '<=') is True:
            ctx.require(True, 'values', 'a new row keeps the values of its characters', S)
            return
    ctx.fail('values', 'a new row keeps the values of its characters', S)


def main_sets(ctx, P, maxn):
    """main sets n from the option: 1 unless -n is given, else the digit; returns the variable"""
    M = P.modules['ngram']
    # the option variable: the global whose address is the value place of option n
    init = M.globals['option']['init'] if 'option' in M.globals else None
    entry = reach_entry(P, 'ngram', 'read_text')
    cands = {}
    main = M.functions['main']
    prims = dict(initialize=initialize_prim)
    g = callgraph(P)
    prims[('ngram', entry.name)] = lambda I, fr, ins, st, a: [(st.event('process', tuple(st.facts.norm(x) for x in a)), None)]
    for y in g[('ngram', 'main')]:
        if y[0] == 'ngram' and y[1] != entry.name and reaches(g, ('', 'x'), ()) is False and reaches2(g, y, {'sort'}):
            prims[y] = lambda I, fr, ins, st, a: [(st.event('report'), None)]
    I = ctx.interp(prims=prims)
    argv = arg('argv', 1, ptr=True)
    outs = live(I.run(main, [arg('argc0', 0), argv]))
    ns = V(atom(('ld', glob('nstring'), 8)))
    res = {}
    for o in outs:
        ctx.paths += 1
        mem = [e for e in o.st.entries() if e[0] == 'st' and e[1].obj == 'global']
        for e in mem:
            res.setdefault(e[1], []).append((o, e))
    names = [b for b in res if b.key[2] in M.globals and b.key[2] != 'nstring']
    if len(names) != 1:
        raise Unsupported('which variable of ngram holds n (%s)' % names)
    b = names[0]

    def byte(k):
        return V(atom(('ld', add(ns, C(k)), 1), None, -128, 127))

    def spec(q, o):
        if not q.nz(ns):
            return ONE
        c = byte(0)
        if q.le(C(49), c) and q.le(c, C(48 + maxn)) and not q.nz(byte(1)):
            return sub(c, C(48))
        return 'error'
    from engine.check import table
    for o in outs:
        fail_first = first_stop(o)
        if any(e[0] == 'error' and not mem_before(o) for e in o.st.events()) and o.kind == 'exit' and argc_error(o):
            continue
        got = [e for e in o.st.entries() if e[0] == 'st' and e[1] is b]
        for f, want in table(o.st.facts, lambda q: spec(q, o)):
            if want == 'error':
                ctx.require(o.kind == 'exit' and any(e[0] == 'error' for e in o.st.events()), 'option', 'an invalid n is an error', 'main')
            elif o.kind == 'ret' or any(e[0] in ('process', 'report', 'terminate') for e in o.st.events()) or loops_of(o.st):
                ctx.require(len(got) == 1 and lin_eq(f, got[0][4], want), 'option', 'n is %r (must be %r)' % (got[0][4] if got else None, want), 'main')
            else:
                ctx.require(o.kind == 'exit' and no_args(o, f), 'option', 'a valid n is accepted', 'main')
    return b.key[2]


def no_args(o, f):
    return f.decide(V(atom(('argc',), 'argc', 0, 2 ** 31 - 1)), '==') is True


def first_stop(o):
    return None


def mem_before(o):
    return False


def argc_error(o):
    return no_args(o, o.st.facts)


def reaches2(g, src, names):
    return any(x[1] in names for x in closure(g, src))


def closure(g, src):
    seen, todo = set(), [src]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += list(g.get(x, ()))
    return seen


def mainloop(ctx, P, mod, entry):
    """main processes each argument once and then reports once"""
    M = P.modules[mod]
    g = callgraph(P)
    prims = dict(initialize=initialize_prim)
    prims[(mod, entry.name)] = lambda I, fr, ins, st, a: [(st.event('process', tuple(st.facts.norm(x) for x in a)), None)]
    rep = [y for y in g[(mod, 'main')] if y[0] == mod and y[1] != entry.name and reaches2(g, y, {'sort'})]
    if len(rep) != 1:
        raise Unsupported('anchor vanished: the function of %s that reports' % mod)
    prims[rep[0]] = lambda I, fr, ins, st, a: [(st.event('report'), None)]
    I = ctx.interp(prims=prims)
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    n = 0
    for o in live(I.run(M.functions['main'], [arg('argc0', 0), argv])):
        f = o.st.facts
        ev = o.st.events()
        if o.kind == 'exit' and any(e[0] == 'error' for e in ev):
            ctx.require(not any(e[0] in ('process', 'report') for e in ev) and not loops_of(o.st), 'files', 'an error ends the run before files are read', 'main')
            continue
        n += 1
        k = [e[0] for e in flat(ev) if e[0] in ('process', 'report', 'terminate')]
        ctx.require('report' in k and k.count('report') == 1 and 'process' not in k[k.index('report'):], 'files',
                    'the files are processed, then the report is written once (%s)' % k, 'main')
        ctx.require(visits_all(ev, f, argv, argc, lambda e: e[1][0] if e[0] == 'process' else None), 'files', 'each file is processed once', 'main')
    ctx.require(n >= 1, 'files', 'main of %s processes files' % mod, 'main')


def owners(ctx, P, mod, entry, fields):
    """the counts are changed only while a file is processed"""
    g = callgraph(P)
    inside = closure(g, (mod, entry.name))
    outside = closure(g, (mod, 'main')) - inside | {x for x in closure(g, (mod, 'main')) if x == (mod, 'main')}
    tags = set()
    for s, k in fields:
        if s not in P.fields or k not in P.fields[s][1]:
            raise Unsupported('anchor vanished: %s.%s' % (s, k))
        tags.add((s, list(P.fields[s][1]).index(k)))
    for m, n in sorted(outside):
        if m and n in P.modules[m].functions:
            fn = P.modules[m].functions[n]
            for t, ins in store_tags(P, P.modules[m], fn):
                if t:
                    k = t[1][1] if isinstance(t[1], tuple) else t[1]
                    ctx.require((t[0], k) not in tags, 'count', '%s changes counts' % n, n)


def match_toks(ctx, f, toks, pattern, want, P):
    """tokens equal the pattern with the wanted values filled in"""
    out = []
    it = iter(want)
    for p in pattern:
        if isinstance(p, bytes):
            out.append(('lit', p))
        elif p[0] == 'int':
            out.append(('int', p[1], '', next(it)))
        else:
            out.append(('str', next(it), 0, '', None))
    return same_word(f, toks, out)


def check_rows(ctx, P, mod, tab, tstruct, estruct, cols, layout, totals):
    """both listings: header, one row of each entry of the whole array, totals"""
    M = P.modules[mod]
    rep = entry_below_main(P, mod, lambda f: calls_name(f, 'sort'), 'sort')
    I = ctx.interp(prims=dict(table_in_array=table_in_array_prim, sort=event_prim('sort')))
    I.array_struct = tstruct
    I.range_hook = ranges(P)
    head, row, tot = layout
    for o in live(I.run(rep, [])):
        ctx.paths += 1
        f = o.st.facts
        arr = [e for e in o.st.events() if e[0] == 'in_array']
        if o.kind != 'ret' or not arr:
            ctx.fail('rows', 'the report is written from the array of the table', rep.name)
            continue
        ctx.require(all(lin_eq(f, e[1], tab) for e in arr), 'rows', 'the report is written from the table', rep.name)
        arr = arr[-1][2]
        cnt = load_at(I, o.st, tab, P, tstruct, 'count')
        doc = document(o.st.events())
        k = [d[0] for d in doc]
        if k != ['toks', 'rows', 'toks', 'rows', 'toks']:
            ctx.fail('rows', 'the report is two listings of rows (%s)' % k, rep.name)
            continue
        ctx.require(same_word(f, doc[0][1], (('lit', head),)), 'rows', 'heading of the first listing', rep.name)
        for j in (1, 3):
            S = doc[j][1]
            v = places(S, arr, 8, cnt)
            sums = {}
            for t in S.trans():
                d = document(t.events)
                r = V(atom(('ld', v, 8))) if v is not None else None
                ok = v is not None and len(d) == 1 and d[0][0] == 'toks' and \
                    match_toks(ctx, t.facts, d[0][1], row, [load_at(I, t.st, r, P, estruct, *c[1]) for c in cols(r)], P)
                ctx.require(ok, 'rows', 'each row shows its own values (%s)' % (show_toks(d[0][1]) if d and d[0][0] == 'toks' else d), S)
                if not ok:
                    continue
                for fld, _ in totals:
                    path = fld if isinstance(fld, tuple) else (fld,)
                    x = load_at(I, t.st, r, P, estruct, *path)
                    for w in S.vars:
                        if w.sym is not None and not w.tmpl and S.pre.facts.value(w.init) == 0 and lin_eq(t.facts, t.nxt[w], add(V(w.sym), x)):
                            sums.setdefault(path, []).append((w, t))
            # totals
            after = doc[j + 1][1]
            alts = []
            for fld, tf in totals:
                path = fld if isinstance(fld, tuple) else (fld,)
                a = [load_at(I, o.st, tab, P, tstruct, tf)] if tf else []
                for w, t in sums.get(path, []):
                    if sum(1 for w2, t2 in sums[path] if w2 is w) == len(S.trans()):
                        a.append(V(w.sym))
                alts.append(a)
            tail = [('lit', b'\n\n' + head)] if j == 1 else []
            import itertools
            ok = any(same_word(f, after, fill(tot, c) + tail) for c in itertools.product(*alts))
            ctx.require(ok, 'total', 'the listing ends with the sums of its rows (%s)' % show_toks(after), S)


def fill(pattern, vals):
    it = iter(vals)
    return [('lit', p) if isinstance(p, bytes) else ('int', p[1], '', next(it)) for p in pattern]


def wordfreq(ctx):
    P = ctx.program('wordfreq')
    entry = reach_entry(P, 'wordfreq', 'read_text')
    if len(entry.params) != 1:
        raise Unsupported('the function of wordfreq that reads a file takes %d arguments' % len(entry.params))
    prims = dict(table_lookup=lookup_prim, table_insert=insert_prim, read_text=reset_prim('read_text'),
                 list_empty=reset_prim('list_empty'))

    def find_words(I, fr, ins, st, a):
        return [(st.event('lists', 'find_words', st.facts.norm(a[0]), tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), None)]
    prims['find_words'] = find_words
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    fname = arg('filename', 1, ptr=True)
    tab, text, wl = one_global(P, 'wordfreq', 'Termtable'), one_global(P, 'wordfreq', 'Text'), one_global(P, 'wordfreq', 'Wordlist')
    outs = live(I.run(entry, [fname]))
    in_loops(ctx, outs, entry.name)
    emptied(ctx, outs, entry.name)
    done = set()
    for o in outs:
        ctx.paths += 1
        f = o.st.facts
        ls = [e for e in o.st.events() if e[0] == 'lists']
        names = [e[1] for e in ls if e[1] in FILL]
        ok = o.kind == 'ret' and names == ['read_text', 'find_words']
        if ok:
            r, w = [e for e in ls if e[1] in FILL]
            ok = lin_eq(f, r[3][0], text) and lin_eq(f, r[3][1], fname) and lin_eq(f, w[3][0], wl) and lin_eq(f, w[3][1], text)
        ctx.require(ok, 'files', 'the file is read once and its words are found once', entry.name)
        ctx.require(not [e for e in o.st.events() if e[0] in ('lookup', 'insert')], 'count', 'only words count', entry.name)
        # the order: words are found, then counted, then discarded
        seq = [e for e in o.st.events() if e[0] == 'loop' or (e[0] == 'lists' and lin_eq(f, e[2], wl)) or (e[0] == 'lists' and lin_eq(f, e[2], text) and e[1] == 'read_text')]
        loops = [i for i, e in enumerate(seq) if e[0] == 'loop']
        fw = [i for i, e in enumerate(seq) if e[0] == 'lists' and e[1] == 'find_words']
        em = [i for i, e in enumerate(seq) if e[0] == 'lists' and e[1] == 'list_empty' and fw and i > fw[0]]
        ctx.require(bool(loops) and bool(fw) and fw[0] < loops[0] and (not em or em[0] > loops[-1]), 'count', 'the words found are counted', entry.name)
        for S in loops_of(o.st):
            if S.lid in done:
                continue
            done.add(S.lid)
            if len(done) > 1:
                raise Unsupported('wordfreq goes over the words by several loops')
            w = walk_var(S, P.off('Word', 'next'))
            if w is None:
                ctx.fail('count', 'the words are walked one after the other', S)
                continue
            ctx.require(lin_eq(S.pre.facts, w.init, load_at(I, S.pre, wl, P, 'Wordlist', 'first')), 'count', 'the walk starts with the first word', S)
            for t in S.trans():
                ctx.paths += 1
                r = counted_once(ctx, I, P, S, t, tab, 'Term', [(('wac', ('Wac', 'count')), ONE)], 'word')
                if r is None:
                    continue
                e, key = r
                f = t.facts
                s = V(atom(('ld', add(V(w.sym), C(P.off('Word', 'string'))), 8)))
                ctx.require(same_word(f, key, (('str', s, 0, '', None),)), 'count', 'a word counts under its own spelling', S)
            for x in S.exits():
                ctx.require(dead(x) or fatal(S, x) or x.st.facts.decide(V(w.sym), '==') is True, 'count', 'the walk ends with the last word', S)
    check_rows(ctx, P, 'wordfreq', tab, 'Termtable', 'Term',
               lambda row: (('int', ('wac', ('Wac', 'count'))), ('str', ('key',))),
               (b'   Count\n', [('int', 8), b'   ', ('str',), b'\n'], [('int', 8), b'   Total\n']),
               [(('wac', ('Wac', 'count')), None)])
    mainloop(ctx, P, 'wordfreq', entry)
    owners(ctx, P, 'wordfreq', entry, {('Wac', 'count')})
