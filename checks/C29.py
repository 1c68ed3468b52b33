"""C29: the derived reports agree with the accuracy reports they are made from."""
from .common import *
from .C11 import one_global, glob
from .C27 import percent, streams

RULE = ('main of each tool is interpreted with the two files read as abstract inputs (what a structure holds afterwards is unknown). groupacc: the '
        'generic iteration over the characters of the group file writes one row of the count, the misses, the percentage and the spelled character '
        'exactly when the count in the report is positive and the character is neither blank nor newline, adds exactly these numbers to the totals '
        'and nothing otherwise; the last row holds the totals. nonstopacc: the first line holds the totals of the report; the generic iteration over the '
        'words of the stopword file looks that word up once in each of the two tables of the report, takes off the counts found, and writes one more '
        'numbered line unless nothing is left; the walk ends only at the last word or when nothing is left.')
ASSUME = ['reading (C01-C03, C05, C06, C17), table lookup (C21), character spelling (C04), files (C22, C23)',
          'counts of a report are not negative', 'a stopword is listed once']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; symbolic floating-point terms; per-iteration effect comparison'


def reader(name, over=0):
    """reads into its first argument: what the structure holds afterwards is unknown"""
    def p(I, fr, ins, st, a):
        f = st.facts
        b, o = interp.base_of(f.norm(a[0]))
        st = st.event('read', name, tuple(f.norm(x) for x in a), I.line(fr, ins))
        return [(st.put(('hv', ('read', name, sum(1 for e in st.events() if e[0] == 'read')), ('base', b))), None)]
    return p


def startup(P, mod):
    """the state in which main starts, as far as variables of simple type go"""
    st = interp.State(Facts())
    for g, d in P.modules[mod].globals.items():
        if d['external'] or d['const'] or d['ty'].k != 'int':
            continue
        v = 0 if d['init'] is None or d['init'][0] == 'zero' else d['init'][1] if d['init'][0] == 'int' else None
        if v is None:
            continue
        b = atom(('glob', mod if d['internal'] else '', g), '@' + g, obj='global')
        st = st.put(('st', b, ZERO, d['ty'].a // 8, C(v), None))
    return st


def nonneg(P):
    r = ranges(P)
    ks = {}
    for s in ('Accclass', 'Wac'):
        ks[s] = True

    def h(tag, base, off, ty):
        if tag and tag[0] in ks:
            return (0, 1 << 40)
        return r(tag, base, off, ty)
    return h


def run(ctx):
    groupacc(ctx)
    ctx.P = None
    nonstopacc(ctx)


def start(ctx, P, mod, prims):
    pr = dict(initialize=initialize_prim, char_to_string=spell_prim, table_lookup=lookup_prim,
              open_file=event_prim('open', 'fresh'), close_file=event_prim('close', None))
    pr.update(prims)
    I = ctx.interp(prims=pr)
    I.range_hook = nonneg(P)
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    outs = []
    for o in live(I.run(P.modules[mod].functions['main'], [arg('argc0', 0), argv], startup(P, mod))):
        if o.kind == 'exit' and any(e[0] == 'error' for e in o.st.events()):
            ctx.require(not any(e[0] == 'out' for e in flat(o.st.events())), 'report', 'an error ends the run before a report is written', 'main')
            continue
        ctx.paths += 1
        outs.append(o)
    ctx.require(bool(outs), 'report', 'main of %s writes a report' % mod, 'main')
    return I, argv, argc, outs


def arg_at(I, st, argv, i):
    return I.load(st, add(argv, C(8 * i)), 8, ir.PTR)[0][1]


def reads(ctx, I, o, argv, want, where):
    """the inputs are read once each, from the arguments they are given by, before anything else is done"""
    f = o.st.facts
    ev = list(flat(o.st.events()))
    rd = [e for e in ev if e[0] == 'read']
    first = next((k for k, e in enumerate(ev) if e[0] in ('out', 'lookup')), len(ev))
    got = {e[1]: e[2] for e in rd}
    ok = sorted(e[1] for e in rd) == sorted(want) and all(k < first for k, e in enumerate(ev) if e[0] == 'read')
    for n, args in want.items():
        if not ok:
            break
        for x, y in zip(got[n], args):
            if y is not None and not lin_eq(f, x, y):
                ok = False
    ctx.require(ok, 'inputs', 'the files are read once, each into its place (%s)' % ', '.join('%s%r' % (e[1], e[2]) for e in rd), where)
    return ok


def groupacc(ctx):
    P = ctx.program('groupacc')
    text, acc = one_global(P, 'groupacc', 'Text'), one_global(P, 'groupacc', 'Accdata')
    I, argv, argc, outs = start(ctx, P, 'groupacc', dict(read_text=reader('text'), read_accrpt=reader('report')))
    nx, vo = P.off('Char', 'next'), P.off('Char', 'value')
    for o in outs:
        f = o.st.facts
        if not reads(ctx, I, o, argv, dict(text=(text, arg_at(I, o.st, argv, 0)), report=(acc, arg_at(I, o.st, argv, 1))), 'main'):
            continue
        op = [e for e in o.st.events() if e[0] == 'call' and e[1] == 'open']
        three = f.decide(sub(argc, C(3)), '==')
        ctx.require(len(op) == 1 and three is not None and lin_eq(f, op[0][2][0], arg_at(I, o.st, argv, 2) if three else ZERO), 'report',
                    'the report goes to the file named third, else to the standard output', 'main')
        ss = streams(o.st.events())
        if len(ss) != 1:
            ctx.fail('report', 'the report is written to one stream (%s)' % ss, 'main')
            continue
        doc = document(o.st.events(), ss[0])
        if [d[0] for d in doc] != ['toks', 'rows', 'toks']:
            ctx.fail('report', 'the report is a heading, rows and totals (%s)' % [d[0] for d in doc], 'main')
            continue
        ctx.require(same_word(f, doc[0][1], (('lit', b'   Count   Missed   %Right\n'),)), 'report', 'heading of the report', 'main')
        S = doc[1][1]
        sums = rows(ctx, I, P, S, text, acc, nx, vo, ss[0])
        if sums is None:
            continue
        ok = any(same_word(f, doc[2][1], line(I, f, V(a.sym), V(b.sym)) + [('lit', b'Total\n')]) for a in sums[0] for b in sums[1])
        ctx.require(ok, 'total', 'the last row holds the sums of the rows (%s)' % show_toks(doc[2][1]), 'main')


def line(I, f, count, missed):
    z = f.decide(count, '==')
    if z is None:
        return [('undecided',)]
    return [('int', 8, '', count), ('lit', b' '), ('int', 8, '', missed), ('lit', b' ')] + (
        [('lit', b'  ------   ')] if z else [('flt', 8, '', 2, 'f', percent(I, f, sub(count, missed), count)), ('lit', b'   ')])


def rows(ctx, I, P, S, text, acc, nx, vo, stream):
    w = walk_var(S, nx)
    if w is None:
        ctx.fail('rows', 'the characters of the group file are gone through one after the other', S)
        return None
    ctx.require(lin_eq(S.pre.facts, w.init, load_at(I, S.pre, text, P, 'Text', 'first')), 'rows', 'the walk starts with the first character', S)
    for o in S.exits():
        ctx.require(dead(o) or fatal(S, o) or o.st.facts.decide(V(w.sym), '==') is True, 'rows', 'the walk ends with the last character', S)
    vs = [v for v in S.vars if v.sym is not None and not v.tmpl and S.pre.facts.value(v.init) == 0]
    sums = ([], [])
    good = [{v: True for v in vs}, {v: True for v in vs}]
    el = P.sizeof('Accclass')
    for t in S.trans():
        ctx.paths += 1
        val = V(atom(('ld', add(V(w.sym), C(vo)), 4), None, 0, MAXCP))
        r = add(add(acc, C(P.off('Accdata', 'small_class'))), scale(val, el))
        cnt, mis = load_at(I, t.head, r, P, 'Accclass', 'count'), load_at(I, t.head, r, P, 'Accclass', 'missed')

        def spec(q):
            return q.lt(ZERO, cnt) and not q.eq(val, 32) and not q.eq(val, 10)
        d = document(t.events, stream)
        for f, want in table(t.facts, spec):
            if want:
                wt = line(I, f, cnt, mis) + [('lit', b'{'), ('spell', ZERO, f.norm(val), ONE), ('lit', b'}\n')]
                ok = len(d) == 1 and d[0][0] == 'toks' and same_word(f, d[0][1], wt)
                ctx.require(ok, 'rows', 'the row of a group character shows the numbers of the report (%s)' % (
                    show_toks(d[0][1]) if d and d[0][0] == 'toks' else d), S)
            else:
                ctx.require(not d, 'rows', 'blanks, newlines and characters that do not occur have no row', S)
            for k, x in enumerate((cnt, mis)):
                for v in vs:
                    if not lin_eq(f, t.nxt[v], add(V(v.sym), x if want else ZERO)):
                        good[k][v] = False
    return [[v for v in vs if g[v]] for g in good]


def nonstopacc(ctx):
    P = ctx.program('nonstopacc')
    text, words, wac = one_global(P, 'nonstopacc', 'Text'), one_global(P, 'nonstopacc', 'Wordlist'), one_global(P, 'nonstopacc', 'Wacdata')
    I, argv, argc, outs = start(ctx, P, 'nonstopacc', dict(read_text=reader('text'), read_wacrpt=reader('report'), find_words=reader('words')))
    tabs = [add(wac, C(P.off('Wacdata', k))) for k in ('stopword_table', 'non_stopword_table')]
    for o in outs:
        f = o.st.facts
        if not reads(ctx, I, o, argv, dict(text=(text, arg_at(I, o.st, argv, 0)), report=(wac, arg_at(I, o.st, argv, 1)), words=(words, text)), 'main'):
            continue
        order = [e[1] for e in flat(o.st.events()) if e[0] == 'read']
        ctx.require(order.index('text') < order.index('words'), 'inputs', 'words are found in the text that was read', 'main')
        cnt, mis = [load_at(I, o.st, wac, P, 'Wacdata', ('Wacdata', 'total'), ('Wac', k)) for k in ('count', 'missed')]
        doc = document(o.st.events(), 'stdout')
        z = f.decide(cnt, '==')
        ctx.require(streams(o.st.events()) in ([], ['stdout']), 'curve', 'the curve is written to the standard output', 'main')
        if z is True:
            ctx.require(not doc, 'curve', 'a report without words gives no points', 'main')
            continue
        kinds = [d[0] for d in doc]
        if z is not False or kinds not in (['toks', 'rows'],):
            ctx.fail('curve', 'the curve is one point for the report and one for each stopword (%s)' % kinds, 'main')
            continue
        ctx.require(same_word(f, doc[0][1], point(I, f, ZERO, cnt, mis)), 'curve', 'the curve starts from the totals (%s)' % show_toks(doc[0][1]), 'main')
        curve(ctx, I, P, doc[1][1], words, wac, tabs, cnt, mis)


def point(I, f, n, cnt, mis):
    return [('int', 3, '', n), ('lit', b' '), ('flt', 6, '', 2, 'f', percent(I, f, sub(cnt, mis), cnt)), ('lit', b'\n')]


def found(ctx, I, P, S, st, head, ev, f, w, tabs, so):
    """what the tables of the report hold for the word: (count, missed), or None"""
    key = (('str', V(atom(('ld', add(V(w.sym), C(so)), 8), None)), 0, '', None),)
    lk = [e for e in ev if e[0] == 'lookup']
    if len(lk) != 2 or not all(sum(1 for e in lk if lin_eq(f, e[1], x)) == 1 for x in tabs):
        ctx.fail('curve', 'each stopword is looked up once in both tables (%d times)' % len(lk), S)
        return None
    c, m = ZERO, ZERO
    for e in lk:
        word = load_at(I, head, V(w.sym), P, 'Word', 'string')
        if not same_word(f, e[2], (('str', word, 0, '', None),)):
            ctx.fail('curve', 'the word looked up is the stopword (%s)' % show_toks(e[2]), S)
            return None
        if f.value(e[3]) != 0:
            c = add(c, load_at(I, head, e[3], P, 'Term', ('Term', 'wac'), ('Wac', 'count')))
            m = add(m, load_at(I, head, e[3], P, 'Term', ('Term', 'wac'), ('Wac', 'missed')))
    return c, m


def curve(ctx, I, P, S, words, wac, tabs, cnt, mis):
    nx, so = P.off('Word', 'next'), P.off('Word', 'string')
    w = walk_var(S, nx)
    if w is None:
        ctx.fail('curve', 'the stopwords are gone through one after the other', S)
        return
    ctx.require(lin_eq(S.pre.facts, w.init, load_at(I, S.pre, words, P, 'Wordlist', 'first')), 'curve', 'the walk starts with the first stopword', S)
    f0 = S.pre.facts
    cv = [v for v in S.vars if v.sym is not None and not v.tmpl and lin_eq(f0, v.init, cnt)]
    mv = [v for v in S.vars if v.sym is not None and not v.tmpl and lin_eq(f0, v.init, mis)]
    if not cv or not mv:
        ctx.fail('curve', 'what is left is kept from one stopword to the next', S)
        return
    # several variables may start out with the totals: those that are reduced by what is found
    ok = [(c, m) for c in cv for m in mv if c is not m and all(reduced(ctx, I, P, S, t, w, tabs, so, c, m) for t in S.trans())]
    if not ok:
        ctx.fail('curve', 'the occurrences and misses of each stopword are taken off', S)
        return
    c, m = ok[0]
    last = [t for t in S.trans() if t.facts.decide(t.nxt[c], '==') is True]
    going = [t for t in S.trans() if t not in last]
    for t in S.trans():
        ctx.paths += 1
        f = t.facts
        ctx.require(f.decide(V(w.sym), '!=') is True and (not last or f.decide(V(c.sym), '!=') is True), 'curve', 'the curve goes on only while words are left', S)
        d = document(t.events, 'stdout')
        if t in last:
            ctx.require(not d, 'curve', 'nothing is written for what does not remain', S)
            continue
        ctx.require(f.decide(t.nxt[c], '!=') is True, 'curve', 'the curve goes on only while words are left', S)
        n = d[0][1][0][3] if len(d) == 1 and d[0][0] == 'toks' and d[0][1] and d[0][1][0][0] == 'int' else None
        ctx.require(n is not None and numbered(S, going, n) and same_word(f, d[0][1], point(I, f, n, t.nxt[c], t.nxt[m])), 'curve',
                    'each stopword gives one numbered point of what is left (%s)' % (show_toks(d[0][1]) if d and d[0][0] == 'toks' else d), S)
    for p in S.parts.values():
        for o in p.exits:
            if dead(o) or fatal(S, o):
                continue
            f = o.st.facts
            ev = o.st.events(p.head.ev)
            ctx.require(not document(ev, 'stdout'), 'curve', 'nothing is written for what does not remain', S)
            if f.decide(V(w.sym), '==') is True or last and f.decide(V(c.sym), '==') is True:
                continue
            r = found(ctx, I, P, S, o.st, p.head, list(flat(ev)), f, w, tabs, so)
            ctx.require(r is not None and f.decide(sub(V(c.sym), r[0]), '==') is True, 'curve', 'the walk stops early only when no words are left', S)


def numbered(S, going, n):
    """do the iterations that write a point number them 1, 2, 3, ...?"""
    for v in S.vars:
        if v.sym is None:
            continue
        k = sub(n, V(v.sym))
        if k.const and S.pre.facts.value(add(v.init, k)) == 1 and all(lin_eq(t.facts, t.nxt[v], add(V(v.sym), ONE)) for t in going):
            return True
    return False


def reduced(ctx, I, P, S, t, w, tabs, so, c, m):
    r = found(ctx, I, P, S, t.st, t.head, list(flat(t.events)), t.facts, w, tabs, so)
    return r is not None and lin_eq(t.facts, t.nxt[c], sub(V(c.sym), r[0])) and lin_eq(t.facts, t.nxt[m], sub(V(m.sym), r[1]))
