"""C03: spacing normalisation."""
from .common import *
from .textin import *

RULE = ('When read_text normalises, a first loop goes over the new characters and makes exactly the blanks (tab, VT, FF, CR, the no-break space and the categories '
        'Zs, Zl and Zp, never the newline) the character BLANK, changing nothing else. A second loop goes over them with its states labelled "the line so '
        'far has a character other than a blank": it removes and releases exactly the blanks that lead or trail a line, the blanks directly before another blank '
        'and the newlines of empty lines; a blank removed inside a line passes its suspect flag on to the blank after it; all other '
        'characters are left as they are.')
ASSUME = ['list_remove (C20)', 'utf8proc_category is the general category of the character']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; labelling of the abstract states of the loop (typestate)'

BLANK, NEWLINE = 0x20, 0x0a
ZCATS = tuple((libc.CATS.index(c), libc.CATS.index(c)) for c in ('Zs', 'Zl', 'Zp'))


def run(ctx):
    P = ctx.program()
    T = Intake(ctx, P)
    seen = set()
    for o in T.outs:
        if o.kind != 'ret':
            continue
        Ss = T.contents(o)
        f = o.st.facts
        norm = f.decide(T.option('normalize'), '!=')
        if len(Ss) != 1 or norm is None:
            ctx.fail('asked', 'the characters read are normalised when asked for', T.where)
            continue
        if not norm:
            continue
        ks = [(L, kind(T.I, P, L)) for L in T.later(o, Ss[0])]
        ks = [(L, k) for L, k in ks if k & {'blank', 'compress'}]
        if any(len(k) > 1 for L, k in ks):
            raise Unsupported('one loop that does several things')
        ok = [k for L, k in ks] == [{'blank'}, {'compress'}]
        ctx.require(ok, 'asked', 'blanks are made uniform, then removed (%s)' % [k for L, k in ks], T.where)
        if not ok:
            continue
        for L, k in ks:
            if id(L) in seen:
                continue
            seen.add(id(L))
            v = walk_list(T.I, P, L)
            if v is None:
                ctx.fail('new', 'the new characters are gone through one by one', L)
                continue
            first_new(ctx, T, L, v, 'new', T.where)
            for p in L.parts.values():
                for e in p.exits:
                    if not dead(e):
                        ctx.require(e.kind != 'exit' and e.st.facts.decide(V(v.sym), '==') is True, 'new', 'all new characters are gone through', L)
            if k == {'blank'}:
                uniform(ctx, P, T.I, L, v)
            else:
                remove(ctx, P, T, L, v)
    ctx.require(bool(seen), 'asked', 'spacing is normalised when asked for', T.where)


def blank(q, c):
    if q.eq(c, C(NEWLINE)):
        return False
    for b in (9, 11, 12, 13, 0xa0, BLANK):
        if q.eq(c, C(b)):
            return True
    return q.in_(libc.category(c), ZCATS)


def uniform(ctx, P, I, L, v):
    for t in trans(L):
        ctx.paths += 1
        old = load_at(I, t.head, V(v.sym), P, 'Char', 'value')
        new = load_at(I, t.st, V(v.sym), P, 'Char', 'value')
        for g, b in table(t.facts, lambda q: blank(q, t.facts.norm(old))):
            want = C(BLANK) if b else old
            ctx.require(lin_eq(g, new, want), 'uniform', '%s becomes %r, not %r (%s)' % (
                'a blank' if b else 'a character that is no blank', want, new, g.bounds_box(g.norm(old))), L)
        bad = changed(P, t, v, {'value'})
        ctx.require(not bad, 'uniform', 'making blanks uniform changes values only (%s)' % bad, L)


def remove(ctx, P, T, S, v):
    I = T.I
    part = lambda x: S.parts[x] if isinstance(x, tuple) else x
    cv = V(v.sym)
    lab = {id(part(S.start)): {False}}
    work = [part(S.start)]
    while work:
        p = work.pop()
        for me in list(lab[id(p)]):
            for t in trans(p):
                val = load_at(I, t.head, cv, P, 'Char', 'value')
                new = {m for g, m in table(t.facts, lambda q: False if q.eq(val, C(NEWLINE)) else me if q.eq(val, C(BLANK)) else True)}
                old = lab.setdefault(id(part(t.target)), set())
                if not new <= old:
                    old |= new
                    work.append(part(t.target))
    for p in S.parts.values():
        for me in lab.get(id(p), set()):
            for t in trans(p):
                ctx.paths += 1
                iteration(ctx, P, T, S, v, p, t, me, len(lab[id(p)]) > 1)


def iteration(ctx, P, T, S, v, p, t, me, unsure):
    I = T.I
    cv = V(v.sym)
    at = lambda k: load_at(I, t.head, cv, P, 'Char', k)
    val, nxt, sus = at('value'), at('next'), at('suspect')
    ev = [e for e in t.events if e[0] == 'call']
    gone = [e[1] for e in ev]

    def spec(q):
        if q.eq(val, C(NEWLINE)):
            # a blank at the start of a line goes, whatever its flag
            more = not me and q.nz(nxt) and q.eq(load_at(I, t.head, nxt, P, 'Char', 'value'), C(BLANK))
            return (not me, nxt if more else None)
        if not q.eq(val, C(BLANK)):
            return (False, None)
        more = q.nz(nxt)
        nv = load_at(I, t.head, nxt, P, 'Char', 'value') if more else None
        if more and q.eq(nv, C(BLANK)):
            return (True, nxt)
        return (not me or not more or q.eq(nv, C(NEWLINE)), None)
    for g, (rm, heir) in table(t.facts, spec):
        what = 'a newline' if g.decide(sub(val, C(NEWLINE)), '==') else 'a blank' if g.decide(sub(val, C(BLANK)), '==') else 'another character'
        here = '%s %s' % (what, 'in a line with text before it' if me else 'with no text before it in the line')
        if unsure and rm != bool(gone):
            odd = strange(P, I, t, v, p, nxt)
            if odd:
                raise Unsupported('what is removed depends on %s' % odd)
        if not rm:
            ctx.require(not gone, 'kept', '%s is kept' % here, S)
        else:
            ok = gone == ['remove', 'free'] and lin_eq(g, ev[0][2][0], T.text) and lin_eq(g, ev[0][2][1], cv) and lin_eq(g, ev[1][2][0], cv)
            ctx.require(ok, 'removed', '%s is removed%s and released' % (here, ' (before another blank or the end of the line)' if me else ''), S)
            if not ok:
                continue
        bad = []
        for e in mem_since(t):
            if e[0] != 'st' or e[1].obj == 'alloca':
                continue
            a = add(V(e[1]), e[2])
            if gone and e[5] and e[5][0] == 'Char' and any(lin_eq(g, a, add(cv, C(P.off('Char', k)))) for k in P.fields['Char'][1]):
                continue
            if heir is not None and lin_eq(g, a, add(heir, C(P.off('Char', 'suspect')))):
                continue
            x = I.load(t.head, a, e[3], ir.Ty('int', 8 * e[3]), e[5])
            if len(x) == 1 and lin_eq(g, x[0][1], e[4]):
                continue
            bad.append('%r' % (a,))
        ctx.require(not bad, 'kept', 'other characters are left as they are (%s)' % bad, S)
        if heir is not None and me:
            # before the text of a line all blanks go
            old = load_at(I, t.head, heir, P, 'Char', 'suspect')
            new = load_at(I, t.st, heir, P, 'Char', 'suspect')
            for h, w in table(g, lambda q: q.nz(old) or q.nz(sus)):
                ctx.require(h.decide(new, '!=') is w, 'flag', 'a blank kept from a run is suspect if any of the run was (%r)' % (new,), S)


def strange(P, I, t, v, p, nxt):
    """what else an iteration depends on"""
    ok = set()
    for k in ('value', 'next', 'suspect'):
        for b in (V(v.sym), nxt):
            x = t.facts.norm(load_at(I, t.head, b, P, 'Char', k)).one()
            if x is not None:
                ok.add(x)
    seen = set(t.facts.dom) | {a for l in list(t.facts.le) + list(t.facts.ne) for a, _ in l.t}
    had = set(p.head.facts.dom) | {a for l in list(p.head.facts.le) + list(p.head.facts.ne) for a, _ in l.t}
    for a in seen - had:
        if a in ok or a is v.sym or isinstance(a.key, tuple) and a.key[0] in ('category',):
            continue
        return a
    return None
