"""C06: word accuracy reports round-trip and add up."""
from .common import *
from . import reports
from .C05 import key_token, number_of, same
from .C08 import T0
from .C11 import counted_once

RULE = ('write_wacrpt is interpreted over arbitrary numbers; the lines it writes, as fixed lines and as the generic lines of its loops over lengths, '
        'occurrences and words, are the input of the interpretation of read_wacrpt into a structure of arbitrary numbers: it must accept, consume '
        'every line, add each pair of numbers written to the counter and misses they were taken from, hand each word with its numbers to add_term '
        'for the same table once, and change nothing else. The loops write a line for exactly the lengths and occurrences with a positive count, for '
        'each word of both tables when there are any, and the totals of stopwords, non-stopwords and distinct words. add_term adds to exactly its '
        'counters. A file that lacks one of the lines of the title and the totals, or has another kind of line there, must end in an error. '
        'wordaccsum reads every report into one structure. Each percentage a line shows equals 100 times the part over the whole it stands with, algebraically, to two places; a dash only where the whole is not positive.')
ASSUME = ['numbers fit their columns of eight characters', 'counts are not negative (C10)', 'a word is not empty and contains no newline (C19)',
          'getline, sscanf, atoi, strcmp as documented', 'tables (C21), sorting (C30), files (C22, C23)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; the grammar of the output of the writer composed with the reader'

TITLES = [b'UNLV-ISRI OCR Accuracy Report Version 7.0\n', b'ocreval Accuracy Report Version 7.0\n', b'ocreval Word Acc\n', b'\n']
LINES = {2: 'words', 3: 'misrecognized'}
SECTIONS = dict(stopword='stopwords by length', non_stopword='non-stopwords by length', distinct_non_stopword='distinct words by occurrences', phrase='phrases by length')
TABLES = dict(stopword_table='stopwords', non_stopword_table='non-stopwords')
WAC = 16


def run(ctx):
    P = ctx.program()
    if P.sizeof('Wac') != WAC or P.off('Wac', 'count') or P.off('Wac', 'missed') != 8:
        raise Unsupported('layout of Wac')
    terms(ctx, P)
    roundtrip(ctx, P)
    ctx.P = None
    P = ctx.program('wordaccsum')
    reports.sums(ctx, P, 'wordaccsum', 'Wacdata', 'read_wacrpt', 'write_wacrpt')


def terms(ctx, P):
    fn = P.modules['wacrpt'].functions.get('add_term')
    if fn is None or len(fn.params) != 4:
        raise Unsupported('anchor vanished: add_term')
    I = ctx.interp(prims=dict(table_lookup=lookup_prim, table_insert=insert_prim))
    I.range_hook = ranges(P)
    tab = add(obj('wac', P.sizeof('Wacdata')), C(P.off('Wacdata', 'stopword_table')))
    key, cnt, mis = arg('key', 1, ptr=True), arg('count'), arg('missed')
    s0 = interp.State(Facts())
    n = 0
    for o in live(I.run(fn, [tab, key, cnt, mis], s0)):
        ctx.paths += 1
        if o.kind == 'exit':
            continue
        n += 1
        r = counted_once(ctx, I, P, fn.name, T0(s0, o), tab, 'Term', [(('wac', ('Wac', 'count')), cnt), (('wac', ('Wac', 'missed')), mis)], 'word')
        if r is not None:
            ctx.require(same_word(o.st.facts, r[1], (('str', key, 0, '', None),)), 'count', 'a word counts under its key', fn.name)
    ctx.require(n > 0, 'count', 'words are counted', fn.name)


def term_prim(I, fr, ins, st, a):
    f = st.facts
    v = [f.norm(x) for x in a]
    v[1] = tuple(libc.norm_tokens(libc.string_tokens(I, st, v[1])))
    return [(st.event('term', tuple(v), I.line(fr, ins)), None)]


def wac_at(I, st, p, off, k):
    return I.load(st, add(p, add(off, C(8 * k))), 8, ir.Ty('int', 64), ('Wac', k))[0][1]


def numbers(l):
    """the numbers a line of data holds"""
    if len(l) > 2 and l[0][0] == l[2][0] == 'int' and l[0][1] >= 8:
        return [l[0][3], l[2][3]]
    if l and l[0][0] == 'int' and l[0][1] >= 8:
        return [l[0][3]]
    return []


def indexed(P, fld):
    off, size = P.fields['Wacdata'][1][fld]
    return off, size // WAC


def complete(ctx, I, P, o, g, data):
    """what is written: rows of all sections, totals, words; returns which items of the grammar are words of which table"""
    f0 = o.st.facts
    words = {}
    have = []
    for n, i in enumerate(g.items):
        if i[0] != 'rows':
            continue
        S, rows = i[1], i[2]
        kind = None
        for t, l in rows:
            if any(key_token(x) for x in l):
                for fld in TABLES:
                    tab = add(data, C(P.off('Wacdata', fld)))
                    arr = load_at(I, t.head, tab, P, 'Termtable', 'array')
                    c = places(S, arr, 8, load_at(I, t.head, tab, P, 'Termtable', 'count'))
                    if c is None:
                        continue
                    row = I.load(t.head, c, 8, ir.Ty('ptr'), None)[0][1]
                    if l[-2][0] == 'str' and same(t.facts, l[-2][1], load_at(I, t.head, row, P, 'Term', 'key')):
                        kind = fld, c
                        break
            else:
                for fld in SECTIONS:
                    off, m = indexed(P, fld)
                    last = m - 1 if fld != 'distinct_non_stopword' else m - 2
                    c = counted(S, ONE, C(last + 1))
                    if c is not None and numbers(l) and same(t.facts, numbers(l)[0], wac_at(I, t.head, data, add(scale(V(c.sym), WAC), C(off)), 0)):
                        kind = fld, c
                        break
            break
        if kind is None:
            ctx.fail('writing', 'the lines of a loop list lengths, occurrences or words, all of them (%s)' % show_toks(rows[0][1] if rows else ()), S)
            continue
        fld, c = kind
        have.append(fld)
        if fld in TABLES:
            words[n] = fld
        by = {id(t): l for t, l in rows}
        for t in S.trans():
            if not libc.consistent(t.facts):
                continue
            ctx.paths += 1
            l = by.get(id(t))
            if fld in TABLES:
                tab = add(data, C(P.off('Wacdata', fld)))
                row = I.load(t.head, c, 8, ir.Ty('ptr'), None)[0][1]
                want = [load_at(I, t.head, row, P, 'Term', 'wac', ('Wac', k)) for k in ('count', 'missed')]
                ok = l is not None and len(numbers(l)) == 2 and all(same(t.facts, a, b) for a, b in zip(numbers(l), want)) and l[-1] == ('lit', b'\n') and \
                    l[-2][0] == 'str' and same(t.facts, l[-2][1], load_at(I, t.head, row, P, 'Term', 'key'))
                ctx.require(ok, 'writing', 'each word has a line of its count, its misses and itself (%s)' % show_toks(l or ()), S)
                continue
            off = add(scale(V(c.sym), WAC), C(indexed(P, fld)[0]))
            cnt, mis = wac_at(I, t.head, data, off, 0), wac_at(I, t.head, data, off, 1)
            for f, want in table(t.facts, lambda q: q.lt(ZERO, cnt)):
                if not want:
                    continue
                ok = l is not None and len(numbers(l)) == 2 and same(f, numbers(l)[0], cnt) and same(f, numbers(l)[1], mis)
                ctx.require(ok, 'writing', '%s: a positive count has its line (%s)' % (SECTIONS[fld], show_toks(l or ())), S)
    for fld in SECTIONS:
        if fld != 'phrase':
            ctx.require(have.count(fld) == 1, 'writing', '%s are written' % SECTIONS[fld], 'write_wacrpt')
    total = wac_at(I, o.st, data, ZERO, 0)
    for f, some in table(f0, lambda q: q.lt(ZERO, total)):
        ctx.require(have.count('phrase') == 1 if some else have.count('phrase') <= 1, 'writing', 'phrases of a text with words are written', 'write_wacrpt')
        for fld, sec in (('stopword_table', 'stopword'), ('non_stopword_table', 'non_stopword')):
            n = wac_at(I, o.st, data, C(indexed(P, sec)[0]), 0)
            for h, want in table(f, lambda q: q.lt(ZERO, n)):
                ctx.require(have.count(fld) == 1 if some and want else have.count(fld) <= 1, 'writing', '%s are listed when there are any' % TABLES[fld], 'write_wacrpt')
    # single lines
    must = [(ZERO, 0, None), (ZERO, 1, None)]
    lines = [numbers(i[1]) for i in g.items if i[0] == 'line']
    for k in (0, 1):
        want = wac_at(I, o.st, data, ZERO, k)
        ctx.require(sum(len(l) == 1 and same(f0, l[0], want) for l in lines) >= 1, 'writing', 'the totals of all words are written', 'write_wacrpt')
    for off, cond in [(indexed(P, s)[0], None) for s in ('stopword', 'non_stopword', 'distinct_non_stopword')] + [((lambda o, m: o + WAC * (m - 1))(*indexed(P, 'distinct_non_stopword')), True)]:
        cnt, mis = (wac_at(I, o.st, data, C(off), k) for k in (0, 1))
        for f, want in (table(f0, lambda q: q.lt(ZERO, cnt)) if cond else [(f0, True)]):
            n = sum(len(l) == 2 and same(f, l[0], cnt) and same(f, l[1], mis) for l in lines)
            ctx.require(n >= 1 if want else True, 'writing', 'the line of %s is written' % ('the words of many occurrences' if cond else 'a total'), 'write_wacrpt')
    return words


def roundtrip(ctx, P):
    W = ctx.interp(prims=dict(table_in_array=table_in_array_prim, sort=event_prim('sort', None)))
    W.range_hook = ranges(P)
    W.array_struct = 'Termtable'
    data, target = obj('written'), obj('sum')
    fn = 'read_wacrpt'
    n = 0
    seen = set()
    for o, g in reports.written(ctx, P, 'wacrpt', 'write_wacrpt', data, W):
        words = complete(ctx, W, P, o, g, data)
        tc, tm = (load_at(W, o.st, data, P, 'Wacdata', 'total', ('Wac', k)) for k in ('count', 'missed'))
        k = reports.percents(ctx, o.st.facts, g, [(b'Accuracy', sub(tc, tm), tc)], 'write_wacrpt')
        ctx.require(k >= 1, 'percent', 'the accuracy is shown', 'write_wacrpt')
        I, name, outs = reports.reading(ctx, P, 'wacrpt', fn, target, g, o.st.facts, dict(add_term=term_prim))
        ctx.require(bool(outs), 'roundtrip', 'a report is read', fn)
        for r in outs:
            ctx.paths += 1
            if reports.accepted(ctx, r, name, g, fn):
                changes(ctx, I, W, P, r, data, target, g, words, fn)
        if len(g) not in seen:
            # every kind of report the writer produces
            others = {0: TITLES, 1: [b'\n', b'------\n']}
            for k in LINES:
                others[k] = [b'\n', b'Words\n']
            reports.strictness(ctx, P, 'wacrpt', fn, target, g, o.st.facts, dict(add_term=term_prim), None, others, 5)
        seen.add(len(g))


def changes(ctx, I, W, P, r, data, target, g, words, fn):
    b, _ = interp.base_of(target)
    flt = lambda es: [e for e in es if e[0] in ('st', 'cp', 'str') and e[1] is b]
    took(ctx, I, W, P, data, target, g, words, r.st.facts, interp.State(Facts()), r.st, r.st.events(), flt(r.st.entries()), fn)
    for S in loops_of(r.st):
        for t in S.trans():
            if libc.consistent(t.facts):
                ctx.paths += 1
                took(ctx, I, W, P, data, target, g, words, t.facts, t.head, t.st, t.events, flt(mem_since(t)), S)
        for p in S.parts.values():
            for o in p.exits:
                if not libc.consistent(o.st.facts):
                    continue
                if o.kind == 'exit':
                    if not dead(o):
                        ctx.fail('roundtrip', 'a line that was written is accepted', S)
                    continue
                from engine.loops import since
                took(ctx, I, W, P, data, target, g, words, o.st.facts, p.head, o.st, o.st.events(p.head.ev), flt(since(o.st.mem, p.head.mem)), S)


def took(ctx, I, W, P, data, target, g, words, f, before, after, events, stores, where):
    """the numbers of the lines read here are added to the counters they were taken from; words go to add_term"""
    events = list(events)
    pend = []
    for e in events:
        if e[0] != 'line' or e[2] is None:
            continue
        ns = numbers(e[2])
        if e[1] in words:
            calls = [c for c in events if c[0] == 'term']
            if len(calls) != 1 or sum(x[0] == 'line' and x[2] is not None for x in events) != 1:
                ctx.fail('roundtrip', 'each word is taken in once (%d times)' % len(calls), where)
                return
            a = calls[0][1]
            tab = add(target, C(P.off('Wacdata', words[e[1]])))
            ctx.require(lin_eq(f, a[0], tab), 'roundtrip', 'a word is added to the table it comes from (%r)' % (a[0],), where)
            k = [x for x in e[2] if x[0] == 'str'][-1:]
            ctx.require(bool(k) and same_word(f, a[1], tuple(k)), 'roundtrip', 'a word is added as it was written (%s)' % show_toks(a[1]), where)
            ok = len(ns) == 2 and same(f, a[2], ns[0]) and same(f, a[3], ns[1])
            ctx.require(ok, 'roundtrip', 'the count and misses of a word are added (%r, %r)' % (a[2], a[3]), where)
        else:
            pend += ns
    if not any(e[0] == 'line' and e[2] is not None and e[1] in words for e in events):
        ctx.require(not any(c[0] == 'term' for c in events), 'roundtrip', 'only the words of a report are added', where)
    offs = []
    for e in stores:
        if e[0] != 'st' or e[3] != 8:
            ctx.fail('roundtrip', 'the counts are added to', where)
            return
        if not any(lin_eq(f, x, e[2]) for x in offs):
            offs.append(e[2])
    left = list(pend)
    for off in offs:
        k = next((i for i, v in enumerate(left) if any(same(f, v, wac_at(W, interp.State(f), data, sub(off, C(8 * j)), j)) for j in (0, 1))), None)
        if k is None:
            ctx.fail('roundtrip', 'a number is added to the counter it was written from (offset %r, lines hold %s)' % (off, left), where)
            return
        v = left.pop(k)
        tag = next(('Wac', j) for j in (0, 1) if same(f, v, wac_at(W, interp.State(f), data, sub(off, C(8 * j)), j)))
        now, was = (I.load(s, add(target, off), 8, ir.Ty('int', 64), tag) for s in (after.with_facts(f), before.with_facts(f)))
        if len(now) != 1 or len(was) != 1:
            raise Unsupported('counter at %r' % (off,))
        ctx.require(lin_eq(f, now[0][1], add(was[0][1], v)), 'roundtrip', 'a number read is added to its counter once (%r to %r)' % (was[0][1], now[0][1]), where)
    ctx.require(not left, 'roundtrip', 'every number is taken in (%s left out)' % left, where)
