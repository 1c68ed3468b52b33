"""C33: the text comparison displays every difference."""
from .common import *
from .C10 import transposed

RULE = ('main of synctext is interpreted over arbitrary texts and an arbitrary alignment. It reads every file into the text of its own and hands '
        'exactly these texts to the alignment. The loop that shows the alignment goes over its segments from first to last; for a matched one it '
        'shows each of its characters once, in order, as in the first text; for an unmatched one the number of unmatched segments so far. The loop that lists '
        'the differences goes over the same segments, numbers the unmatched ones in the same way and shows for each text in order its name and exactly '
        'its characters of the segment. With -T each text is shown with every character once, the matched segments under their numbers. A character is '
        'shown as suspect if and only if -s is given and it is (for a matched one: in any of the texts).')
ASSUME = ['char_to_string (C04)', 'the segments of an alignment (C14)', 'list and option contracts (C20, C25)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; comparison of what each iteration writes with its specification'


class X:
    pass


def run(ctx):
    P = ctx.program('synctext')
    prims = dict(initialize=initialize_prim, read_text=reads, char_to_string=spell_prim)
    for k in ('transpose_sync', 'synchronize', 'fastukk_sync'):
        prims[k] = named(k)
    I = ctx.interp(prims=prims)
    base = ranges(P)
    flags = {v for row in options(P, 'synctext')[1].values() for v in row.values() if isinstance(v, str)}

    def hook(tag, b, off, ty):
        # an option is on or off (C25)
        if b.obj == 'global' and b.key[2] in flags and off.const and off.c == 0:
            return 0, 1
        return base(tag, b, off, ty)
    I.range_hook = hook
    x = X()
    x.ctx, x.P, x.I = ctx, P, I
    argv = arg('argv', 1, ptr=True)
    x.argv = argv
    x.argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    x.flag = {}
    for c in 'HsT':
        g = option_target(P, 'synctext', c)
        if g is None:
            raise Unsupported('option -%s' % c)
        x.flag[c] = g
    x.seen = {}
    n = 0
    outs = live(I.run(P.modules['synctext'].functions['main'], [arg('argc0', 0), argv]))
    x.sw = {c: switch(I, P, g) for c, g in x.flag.items()}
    for o in outs:
        ctx.paths += 1
        ev = list(o.st.events())
        if any(e[0] == 'error' for e in ev):
            ctx.require(not document(ev), 'shown', 'nothing is shown after an error', 'main')
            continue
        n += 1
        one(x, o, ev)
    ctx.require(n > 0, 'shown', 'the comparison is shown', 'main')


def reads(I, fr, ins, st, a):
    f = st.facts
    st = st.event('call', 'read_text', tuple(f.norm(x) for x in a), I.line(fr, ins))
    b, o = interp.base_of(f.norm(a[0]))
    return [(st.put(('hv', ('read', st.extra.get('iter', ())), ('base', b))), None)]


def named(k):
    def p(I, fr, ins, st, a):
        f = st.facts
        lists = a
        st = st.event('align', k, tuple(f.norm(x) for x in a), I.line(fr, ins))
        sts = [st]
        if k == 'synchronize':
            # it takes between 2 and 16 texts, or ends the program
            sts = [(s.assume(sub(C(2), n), '<='), n) for s, n in I.cast(st, 'trunc', f.norm(a[1]), 32, 16)]
            sts = [s.assume(sub(n, C(16)), '<=') for s, n in sts if s is not None]
        return [(forget(s, lists), None) for s in sts if s is not None]
    return p


def forget(st, lists):
    for x in lists:
        b, o = interp.base_of(st.facts.norm(x))
        if b is not None:
            st = st.put(('hv', ('align', 'lists'), ('base', b)))
    return st


def switch(I, P, g):
    """the value of an option"""
    d = P.modules['synctext'].globals[g]
    a = V(interp.glob_atom('synctext' if d['internal'] else '', g))
    return I.load(interp.State(Facts()), a, d['ty'].a // 8, d['ty'], None)[0][1]


def truth(f, l):
    """is it true? (bitwise operations on flags included)"""
    r = f.decide(l, '!=')
    if r is not None:
        return r
    a = f.norm(l).one()
    if a is not None and isinstance(a.key, tuple) and a.key[0] in ('and', 'or') and len(a.key) == 3 and all(f.bounds_box(f.norm(k)) >= (0, 0) and f.bounds_box(f.norm(k))[1] <= 1 for k in a.key[1:]):
        r = [truth(f, k) for k in a.key[1:]]
        if a.key[0] == 'and':
            return False if False in r else True if r == [True, True] else None
        return True if True in r else False if r == [False, False] else None
    return None


def one(x, o, ev):
    ctx, P, I, f = x.ctx, x.P, x.I, o.st.facts
    al = [e for e in ev if e[0] == 'align']
    if len(al) != 1:
        ctx.fail('aligned', 'the texts are aligned once (%d)' % len(al), 'main')
        return
    k, args = al[0][1], al[0][2]
    ctx.require(f.decide(x.sw['T'], '!=') is (k == 'transpose_sync'), 'aligned', 'transposed matches are looked for exactly when asked', 'main')
    if k == 'transpose_sync':
        text, second = args[2], args[3]
        ctx.require(lin_eq(f, second, add(text, C(P.sizeof('Text')))) and f.decide(sub(x.argc, C(2)), '==') is True, 'aligned', 'both texts are aligned (%r, %r)' % (text, second), 'main')
        lists = args[:2]
    elif k == 'synchronize':
        text, lists = args[2], args[:1]
        ctx.require(lin_eq(f, args[1], x.argc), 'aligned', 'all texts are aligned (%r)' % (args[1],), 'main')
    else:
        text, lists = args[1], args[:1]
        ctx.require(f.decide(sub(x.argc, C(2)), '==') is True, 'aligned', 'all texts are aligned', 'main')
    i = ev.index(al[0])
    rd = ev[:i]
    for S in [e[1] for e in rd if e[0] == 'loop']:
        for t in S.trans():
            for e in t.events:
                if e[0] == 'call' and e[1] == 'read_text':
                    r = steps(S, t.facts, e[2][0])
                    ok = r is not None and r[1] == P.sizeof('Text') and lin_eq(S.pre.facts, r[0], text)
                    ctx.require(ok, 'read', 'each file is read into the text of its own (%r)' % (e[2][0],), S)
    ctx.require(visits_all(rd, f, x.argv, x.argc, lambda e: e[2][1] if e[0] == 'call' and e[1] == 'read_text' else None), 'read', 'every file is read, in order', 'main')
    ctx.require(not any(e[0] == 'call' and e[1] == 'read_text' for e in flat(ev[i:])), 'read', 'the texts are read before they are aligned', 'main')
    loops = []
    for kind, d in document(ev):
        if kind == 'rows' and not plain(d):
            loops.append(d)
    if k == 'transpose_sync':
        want = [(lists[0], text, transposed_segment), (lists[1], second, transposed_segment)]
    else:
        want = [(lists[0], text, shown_segment), (lists[0], text, difference)]
    ok = len(loops) == len(want)
    ctx.require(ok, 'shown', 'the alignment is shown, then the differences (%s)' % loops, 'main')
    if not ok:
        return
    for S, (sl, tx, fn) in zip(loops, want):
        key = (id(S), fn.__name__)
        if key in x.seen:
            continue
        x.seen[key] = True
        w = walk_from(I, S, P, 'Sync')
        first = load_at(I, S.pre, sl, P, 'Synclist', 'first')
        ok = w is not None and lin_eq(S.pre.facts, w.init, first)
        ctx.require(ok, 'shown', 'the segments are gone through from the first on', S)
        if not ok:
            continue
        for q in S.exits():
            if not dead(q) and not fatal(S, q):
                ctx.require(q.st.facts.decide(V(w.sym), '==') is True, 'shown', 'all segments are gone through', S)
        x.text = tx
        x.sl = sl
        x.k = k
        number = numbering(x, S, w) if fn is not transposed_segment else None
        for t in S.trans():
            if not libc.consistent(t.facts):
                continue
            ctx.paths += 1
            m = load_at(I, t.head, V(w.sym), P, 'Sync', 'match')
            for g, matched in table(t.facts, lambda q: q.nz(m)):
                fn(x, S, t, g, V(w.sym), matched, number)


def plain(S):
    """a loop that writes nothing but fixed characters"""
    return all(k == 'toks' and all(z[0] == 'lit' for z in d) for t in S.trans() for k, d in document(t.events))


def numbering(x, S, w):
    """the counter of the unmatched segments: the number of an unmatched segment in terms of the state at its iteration"""
    I, P = x.I, x.P
    r = []
    for v in S.vars:
        if v.sym is None or v is w or v.tmpl or v.ty is None or v.ty.k != 'int':
            continue
        ok = bool(S.trans())
        for t in S.trans():
            m = load_at(I, t.head, V(w.sym), P, 'Sync', 'match')
            for g, matched in table(t.facts, lambda q: q.nz(m)):
                ok = ok and lin_eq(g, t.nxt[v], V(v.sym) if matched else add(V(v.sym), ONE))
        if ok:
            r.append(add(V(v.sym), sub(ONE, v.init)))
    return r


def numbered(g, l, number):
    return number and any(lin_eq(g, l, n) for n in number)


def char_at(x, st, ti, i):
    """the character at position i of the text whose descriptor is at ti"""
    a = load_at(x.I, st, ti, x.P, 'Text', 'array')
    r = x.I.load(st, add(a, scale(i, 8)), 8, ir.Ty('ptr'), None)
    if len(r) != 1:
        raise Unsupported('character of a text')
    return r[0][1]


def bound(x, st, sync, n, field):
    s = load_at(x.I, st, sync, x.P, 'Sync', 'substr')
    return load_at(x.I, st, add(s, scale(n, x.P.sizeof('Substr'))), x.P, 'Substr', field)


def rows(x, ev, what, S):
    """split a document into what is before, the loop and what is after"""
    d = document(ev)
    ls = [k for k, (kind, v) in enumerate(d) if kind == 'rows' and not plain(v)]
    if len(ls) != 1:
        return None
    k = ls[0]
    toks = lambda z: libc.norm_tokens(sum((tuple(v) for kind, v in z if kind == 'toks'), ()))
    return toks(d[:k]), d[k][1], toks(d[k + 1:])


def transposed_segment(x, S, t, g, sync, matched, number):
    ctx = x.ctx
    r = rows(x, t.events, 'segment', S)
    if r is None:
        ctx.fail('characters', 'the characters of every segment are shown', S)
        return
    before, L, after = r
    num = x.I.load(t.head, load_at(x.I, t.head, sync, x.P, 'Sync', 'match'), 8, ir.Ty('int', 64), None)[0][1] if matched else None
    ok = before == () and after == () if not matched else (
        len(before) == 3 and before[0] == ('lit', b'{') and before[1][0] == 'int' and lin_eq(g, before[1][3], num) and before[2] == ('lit', b':') and after == (('lit', b'}'),))
    ctx.require(ok, 'numbers', 'a matched segment is shown under its number, an unmatched one without (%s)' % (before,), S)
    span(x, t, g, L, sync, x.text, ZERO, False)


def shown_segment(x, S, t, g, sync, matched, number):
    ctx = x.ctx
    if not matched:
        d = document(t.events)
        ok = len(d) == 1 and d[0][0] == 'toks'
        z = d[0][1] if ok else ()
        ok = len(z) == 3 and z[0] == ('lit', b'{') and z[1][0] == 'int' and z[2] == ('lit', b'}')
        ctx.require(ok and numbered(g, z[1][3], number), 'numbers', 'an unmatched segment is shown by the number of its footnote (%s)' % (z,), S)
        return
    r = rows(x, t.events, 'segment', S)
    if r is None or r[0] or r[2]:
        ctx.fail('characters', 'a matched segment is shown by its characters, each once', S)
        return
    span(x, t, g, r[1], sync, x.text, ZERO, True)


def difference(x, S, t, g, sync, matched, number):
    ctx, P, I = x.ctx, x.P, x.I
    if matched:
        ctx.require(not document(t.events), 'footnotes', 'matched segments are not listed among the differences', S)
        return
    r = rows(x, t.events, 'difference', S)
    if r is None:
        ctx.fail('footnotes', 'a footnote shows every text', S)
        return
    before, K, after = r
    i = next((k for k, z in enumerate(before) if z[0] == 'int'), None)
    ok = i is not None and i > 0 and before[i - 1][0] == 'lit' and before[i - 1][1].endswith(b'{') and i + 1 < len(before) and before[i + 1] == ('lit', b'}\n') and numbered(g, before[i][3], number) and \
        all(z[0] == 'lit' for k, z in enumerate(before) if k != i) and not after
    ctx.require(ok, 'numbers', 'a footnote has the number shown in the text (%s)' % (before,), S)
    c = counted(K, ZERO, x.argc) if x.k == 'synchronize' else counted(K, ZERO, x.argc) or counted(K, ZERO, C(2))
    if c is None:
        ctx.fail('footnotes', 'a footnote shows every text once, in order', K)
        return
    i = V(c.sym)
    for u in K.trans():
        if not libc.consistent(u.facts):
            continue
        ctx.paths += 1
        f = u.facts
        r = rows(x, u.events, 'text', K)
        if r is None:
            ctx.fail('footnotes', 'a footnote shows the characters of each text', K)
            continue
        before, L, after = r
        name = I.load(u.head, add(x.argv, scale(i, 8)), 8, ir.Ty('ptr'), None)[0][1]
        ok = len(before) == 2 and before[0][0] == 'str' and lin_eq(f, before[0][1], name) and before[0][4] is None and before[1][0] == 'lit' and before[1][1].strip() == b'{' and \
            len(after) == 1 and after[0][0] == 'lit' and after[0][1] == b'}\n'
        ctx.require(ok, 'footnotes', 'the characters of a text stand under its name (%s)' % (before,), K)
        span(x, u, f, L, sync, add(x.text, scale(i, P.sizeof('Text'))), i, False, True)


def span(x, t, g, L, sync, ti, n, joint, wrap=False):
    """the loop shows exactly the characters of the segment in one text"""
    ctx, P, I = x.ctx, x.P, x.I
    start, stop, length = (bound(x, t.head, sync, n, k) for k in ('start', 'stop', 'length'))
    c = counted(L, start, add(stop, ONE)) or counted(L, start, add(start, length)) if True else None
    at = V(c.sym) if c else None
    if c is None:
        c = counted(L, ZERO, length) or counted(L, ZERO, add(sub(stop, start), ONE))
        at = add(start, V(c.sym)) if c else None
    if c is None:
        ctx.fail('characters', 'exactly the characters of the segment are shown', L)
        return
    for u in L.trans():
        if not libc.consistent(u.facts):
            continue
        ctx.paths += 1
        f = u.facts
        d = document(u.events)
        z = d[0][1] if len(d) == 1 and d[0][0] == 'toks' else ()
        if not z or z[0][0] != 'spell':
            ctx.fail('characters', 'each character is shown (%s)' % (z,), L)
            continue
        ch = char_at(x, u.head, ti, at)
        val = load_at(I, u.head, ch, P, 'Char', 'value')
        sus = load_at(I, u.head, ch, P, 'Char', 'suspect')
        ctx.require(lin_eq(f, z[0][2], val) and f.decide(z[0][3], '==') is True, 'characters', 'each character of the segment is shown as it is (%r, not %r)' % (z[0][2], val), L)
        ok = len(z) == 1 or wrap and f.decide(sub(val, C(10)), '==') is True and all(
            y[0] == 'lit' and not y[1].strip() or y[0] == 'str' and not libc.string_tokens(I, u.head, y[1]) for y in z[1:])
        ctx.require(ok, 'characters', 'nothing but the characters is shown (%s)' % (z[1:],), L)
        if not joint:
            for h, s in table(f, lambda q: q.nz(x.sw['s']) and q.nz(sus)):
                ctx.require(truth(h, z[0][1]) is s, 'suspect', 'a character is shown as suspect exactly when asked for and it is (%r)' % (z[0][1],), L)
        else:
            any_suspect(x, L, u, sync, sub(at, start), z[0][1], sus)


def any_suspect(x, L, u, sync, i, shown, own):
    """a matched character is suspect if it is in any of the texts"""
    ctx, P, I = x.ctx, x.P, x.I
    f = u.facts
    for h, asked in table(f, lambda q: q.nz(x.sw['s'])):
        z = truth(h, shown)
        if not asked:
            ctx.require(z is False, 'suspect', 'no character is shown as suspect unless asked for', L)
            continue
        here = [e[1] for e in u.events if e[0] == 'loop']
        left = [y for y in u.st.extra.get('left', ()) if any(y[0] is Q for Q in here)]
        if len(left) != 1:
            ctx.fail('suspect', 'a matched character is shown as suspect when it is in any text', L)
            continue
        Q, fl, p, o = left[0]
        lab, c, cv = found_any(x, Q, sync, i)
        if c is None:
            ctx.fail('suspect', 'all texts are asked whether a character is suspect', Q)
            continue
        for me in lab.get(id(p), set()):
            for k, hit in table(o.st.facts, lambda q: me or q.nz(cv(p.head)) if o.st.facts.decide(sub(V(c.sym), x.num), '<') is True or
                                o.st.facts.decide(add(sub(V(c.sym), x.num), ONE), '<=') is True else me):
                if not hit:
                    ctx.require(k.decide(sub(x.num, V(c.sym)), '<=') is True, 'suspect', 'all texts are asked whether a character is suspect', Q)
                ctx.require(z is hit, 'suspect', 'a matched character is shown as suspect exactly when it is in any text (%r)' % (shown,), L)


def found_any(x, Q, sync, i):
    P, I = x.P, x.I
    x.num = x.argc
    c = counted(Q, ZERO, x.num, True)
    if c is None and x.k == 'fastukk_sync':
        x.num = C(2)
        c = counted(Q, ZERO, x.num, True)
    if c is None:
        return {}, None, None
    j = V(c.sym)

    def cv(st):
        ch = char_at(x, st, add(x.text, scale(j, P.sizeof('Text'))), add(bound(x, st, sync, j, 'start'), i))
        return load_at(I, st, ch, P, 'Char', 'suspect')
    lab = labels(Q, False, lambda t, me: {True} if me else {m for g, m in table(t.facts, lambda q: q.nz(cv(t.head)))})
    return lab, c, cv
