"""C19: words are exactly the word-like segments, in NFC."""
from .common import *
from .C17 import finder
from .C18 import lookup_functions

RULE = ('find_words walks the text segment by segment (generic loop iteration): from one segment it goes on with the character after the last; '
        'a word is appended exactly when the category of the first character is a letter, mark, number, connector punctuation or private use; '
        'its string is the NFC of the UTF-8 encodings of the characters from the first to the last of the segment, and nothing else is appended.')
ASSUME = ['the boundary search returns the last character of the segment (C17)', 'utf8proc_NFC gives the NFC', 'allocation succeeds (C32)',
          'list_insert_last appends (C20)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; decision table over general categories'
WORDY = is_from(list(range(1, 13)) + [29])      # Lu..No, Pc, Co of utf8proc


def run(ctx):
    P = ctx.program()
    m, tab, entry, readers = lookup_functions(P)
    F = finder(P, m, entry)
    on, ov = P.off('Char', 'next'), P.off('Char', 'value')

    def fnb(I, fr, ins, st, a):
        x = st.facts.norm(a[0])
        f0, f1 = st.assume(x, '=='), st.assume(x, '!=')
        r = []
        if f0:
            r.append((f0, C(0)))
        if f1:
            v = atom(('last', x), None, 1)
            interp.mkptr(v)
            r.append((f1, V(v)))
        return r

    def nfc(I, fr, ins, st, a):
        b, o = interp.base_of(st.facts.norm(a[0]))
        g = libc.gather(I, st, b, o) if b is not None else None
        if g is None:
            raise Unsupported('the text given to utf8proc_NFC is not determined')
        v = atom(('nfc', tuple(libc.norm_tokens(g)), st.facts.norm(a[0])), None, 0)
        interp.mkptr(v)
        return [(st, V(v))]

    def append(I, fr, ins, st, a):
        return [(st.event('append', st.facts.norm(a[0]), st.facts.norm(a[1]), I.line(fr, ins)), None)]

    def string_of(t, w):
        """the string of the word at the end of the step"""
        v = I.load(t.st, add(w, C(P.off('Word', 'string'))), 8, ir.PTR)
        if len(v) != 1:
            raise Unsupported('ambiguous word')
        return v[0][1]

    def other(name):
        def h(I, fr, ins, st, a):
            v = atom((name, st.facts.norm(a[0])), None, 0)
            interp.mkptr(v)
            return [(st, V(v))]
        return h
    prims = {(m.name, F.name): fnb, 'utf8proc_NFC': nfc, 'list_insert_last': append}
    for k in ('NFD', 'NFKC', 'NFKD', 'NFKC_Casefold'):
        prims['utf8proc_' + k] = other(k)
    for n in ('list_insert_first', 'list_insert_before', 'list_insert_after', 'list_remove', 'list_empty'):
        prims[n] = event_prim(n)
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    wl, text = arg('wordlist', 1, ptr=True), arg('text', 1, ptr=True)
    start = V(atom(('ld', add(text, C(P.off('Text', 'first'))), 8)))
    n = 0
    seen = set()
    for o in live(I.run('find_words', [wl, text])):
        ctx.paths += 1
        f = o.st.facts
        evs = o.st.events()
        if o.kind == 'exit' and any(e[0] == 'assert' for e in evs):
            continue        # judged below: the loop it belongs to runs from the first to the last character only
        ls = [e for e in evs if e[0] == 'loop']
        if not ls:
            # no loop entered
            ctx.require(o.kind == 'ret' and f.decide(start, '==') is True, 'walk', 'a text is walked', 'find_words')
            continue
        S = ls[0][1]
        if any(e[0] == 'error' for e in evs):
            z = [a for a, d in f.dom.items() if a.key[0] == 'nfc' and d == ((0, 0),)]
            ctx.require(bool(z) or f.decide(start, '==') is True, 'errors', 'the program ends only if a word cannot be normalised', S)
            continue
        cur = None
        for v in S.vars:
            if v.sym is not None and v.ty is not None and v.ty.k == 'ptr' and not v.tmpl and lin_eq(S.pre.facts, v.init, start) and \
                    any(t.nxt[v] != V(v.sym) for t in S.trans()):
                cur = v
        if cur is None:
            raise Unsupported('find_words does not walk the text')
        c = V(cur.sym)
        last = V(atom(('last', c), None, 1))
        ctx.require(f.decide(c, '==') is True and o.kind == 'ret', 'walk', 'the walk ends with the text', S)
        ctx.require(not [e for e in evs if e[0] in ('append', 'call')], 'walk', 'nothing is appended outside the walk', S)
        if id(S) in seen:
            continue
        seen.add(id(S))
        for t in S.trans():
            if dead(t):
                continue
            n += 1
            ctx.require(lin_eq(t.facts, t.nxt[cur], V(atom(('ld', add(last, C(on)), 8)))), 'walk',
                        'the walk goes on after the last character of the segment (%r)' % (t.nxt[cur],), S)
            ap = [e for e in t.events if e[0] == 'append']
            other = [e for e in t.events if e[0] == 'call']
            ctx.require(not other, 'append', 'the list of words only grows at its end', S)
            cat = V(libc.category(t.facts.norm(V(atom(('ld', add(c, C(ov)), 4))))))
            for g, w in table(t.facts, lambda q: q.in_(cat, WORDY)):
                ctx.require(len(ap) == (1 if w else 0), 'filter', 'a segment that starts with a character of category %s is %sa word, %d appended' % (
                    cats(g, cat), '' if w else 'not ', len(ap)), S)
            for e in ap:
                ctx.require(lin_eq(t.facts, e[1], wl), 'append', 'the word goes to the list given', S)
                ctx.require(spelled(ctx, t, string_of(t, e[2]), c, last, on, ov), 'spelling',
                            'the word is the NFC of the characters from the first to the last of its segment', S)
    ctx.require(n >= 2, 'walk', 'segments are looked at', 'find_words')


NAMES = 'Cn Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co'.split()


def cats(f, c):
    v = f.value(c)
    d = ((v, v),) if v is not None else f.domain(f.norm(c).one())
    return '/'.join(NAMES[k] for lo, hi in d for k in range(max(lo, 0), min(hi, 29) + 1))[:60]


def spelled(ctx, t, s, first, last, on, ov):
    a = s.one() if s is not None else None
    if a is None or a.key[0] != 'nfc':
        return False
    toks = a.key[1]
    if len(toks) in (1, 2) and toks[0][0] == 'sacc':
        L = next((e[1] for e in t.events if e[0] == 'loop' and e[1].lid is toks[0][1]), None)
        if L is None:
            return False
        d = L.saccs.get(toks[0][2])
        if d is None or d['init'] != ():
            return False
        after = V(atom(('ld', add(last, C(on)), 8)))

        def before(f, x, op):
            if len(toks) == 1:
                return f.decide(sub(x, after), op) is True
            return f.decide(sub(x, last), op) is True or f.decide(sub(V(atom(('ld', add(x, C(on)), 8))), after), op) is True
        for v in L.vars:
            if v.sym is None or not lin_eq(t.facts, v.init, first) or not L.trans():
                continue
            x = V(v.sym)
            ok = all(lin_eq(u.facts, u.nxt[v], V(atom(('ld', add(x, C(on)), 8)))) for u in L.trans())
            if not ok:
                continue
            for u in L.trans():
                if dead(u):
                    continue
                val = V(atom(('ld', add(x, C(ov)), 4)))
                w = d['delta'][id(u)]
                if len(w) != 1 or w[0][0] != 'u8' or not lin_eq(u.facts, w[0][1], val):
                    return False
                if not before(u.facts, x, '!='):
                    return False
            if len(toks) == 2 and not (toks[1][0] == 'u8' and lin_eq(t.facts, toks[1][1], V(atom(('ld', add(x, C(ov)), 4))))):
                return False
            # left when the character after the last is reached (a text that ends within the segment cannot be)
            return before(t.facts, x, '==')
    raise Unsupported('how the word is spelled is not determined: %s' % (toks,))
