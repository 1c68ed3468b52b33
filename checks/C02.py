"""C02: a suspect marker marks exactly the next character."""
from .common import *
from .textin import *

RULE = ('Every iteration of the loop of read_text over arbitrary bytes either takes a suspect marker that is being interpreted and appends nothing, or '
        'appends one character; with the states of the loop before an iteration labelled "the previous character was such a marker" the flag of the '
        'character equals the label in every iteration, and the label after the iteration is "marker" exactly after a marker. After the input has been '
        'read, values are folded if and only if case_insensitive, and spacing is normalised if and only if normalize; both go over the list from the '
        'first character just read to the end, and folding replaces each value by its lower case and nothing else.')
ASSUME = ['utf8proc_tolower is a function of the character', 'list_insert_last (C20)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; labelling of the abstract states of the loop (typestate)'


def run(ctx):
    P = ctx.program()
    T = Intake(ctx, P)
    seen = set()
    n = 0
    for o in T.outs:
        Ss = T.contents(o)
        if len(Ss) != 1:
            if o.kind == 'ret':
                ctx.fail('marked', 'the characters are read in one loop', T.where)
            continue
        S = Ss[0]
        if id(S) not in seen:
            seen.add(id(S))
            labels(ctx, T, S)
        if o.kind == 'ret':
            n += 1
            after(ctx, P, T, o, S)
    ctx.require(n > 0, 'marked', 'texts are read', T.where)


def labels(ctx, T, S):
    part = lambda x: S.parts[x] if isinstance(x, tuple) else x
    lab = {id(part(S.start)): {False}}
    work = [part(S.start)]
    marks = {}
    while work:
        p = work.pop()
        for t in trans(p):
            if id(t) not in marks:
                marks[id(t)] = set()
                ctx.paths += 1
                d = decoded(t)
                if len(d) != 1:
                    ctx.fail('marked', 'each step decodes one character', S)
                    continue
                marks[id(t)] = [(g, m) for g, m in table(t.facts, lambda k: marker(k, T, d[0][3]))]
            old = lab.setdefault(id(part(t.target)), set())
            new = {m for g, m in marks[id(t)]}
            if not new <= old:
                old |= new
                work.append(part(t.target))
    for p in S.parts.values():
        me = lab.get(id(p), set())
        for t in trans(p):
            cs = chars(t.events)
            for g, m in marks.get(id(t), ()):
                if m:
                    ctx.require(not cs, 'marked', 'a marker that is interpreted does not become a character', S)
                    continue
                if len(cs) != 1:
                    ctx.fail('marked', 'a character that is not a marker is appended', S)
                    continue
                z = g.decide(cs[0][4], '!=')
                if z is None:
                    raise Unsupported('flag of a character: %r' % (cs[0][4],))
                ctx.require(me == {z}, 'marked', 'a character is flagged exactly when a marker stands directly before it (%s after %s)' % (
                    'flagged' if z else 'not flagged', ' or '.join('a marker' if x else 'no marker' for x in sorted(me))), S)


def after(ctx, P, T, o, S):
    f = o.st.facts
    I = T.I
    fold = f.decide(T.option('case_insensitive'), '!=')
    norm = f.decide(T.option('normalize'), '!=')
    if fold is None or norm is None:
        ctx.fail('asked', 'folding and normalising depend on what the tool asked for', T.where)
        return
    kinds = {}
    for L in T.later(o, S):
        k = kind(I, P, L)
        for x in k:
            kinds.setdefault(x, []).append(L)
    ctx.require(('lower' in kinds) is fold, 'asked', 'letters are folded exactly when the tool asked for it', T.where)
    ctx.require(('blank' in kinds) is norm and ('compress' in kinds) is norm, 'asked', 'spacing is normalised exactly when the tool asked for it', T.where)
    for x, Ls in kinds.items():
        for L in Ls:
            v = walk_list(I, P, L)
            if v is None:
                ctx.fail('new', 'the new characters are gone through one by one', L)
                continue
            first_new(ctx, T, L, v, 'new', T.where)
            for p in L.parts.values():
                for e in p.exits:
                    if not dead(e):
                        ctx.require(e.st.facts.decide(V(v.sym), '==') is True, 'new', 'all new characters are gone through', L)
            if x == 'lower':
                lower(ctx, P, I, L, v)


def lower(ctx, P, I, L, v):
    names = list(P.fields['Char'][1])
    for t in trans(L):
        ctx.paths += 1
        old = load_at(I, t.head, V(v.sym), P, 'Char', 'value')
        new = load_at(I, t.st, V(v.sym), P, 'Char', 'value')
        ctx.require(lin_eq(t.facts, new, libc.app_('tolower', t.facts.norm(old), lo=0, hi=MAXCP)), 'fold', 'a value is replaced by its lower case (%r)' % (new,), L)
        bad = changed(P, t, v, {'value'})
        ctx.require(not bad, 'fold', 'folding changes values only (%s)' % bad, L)
