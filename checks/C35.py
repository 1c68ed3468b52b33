"""C35: confusions are named by what was confused."""
from .common import *
from .C11 import one_global, glob
from .C08 import align
from .C05 import got, KEY_MAX

RULE = ('In the interpretation of main of accuracy over an arbitrary alignment, the name handed to add_conf is "{", the text of the correct segment, '
        '"}-{", the text of the generated segment, "}" and a newline. Each of the two texts is built by a loop, empty at first, whose generic iteration '
        'appends the spelling of the next character of the segment of its side to it and to nothing else, exactly as long as the text stays within '
        'the limit; when characters remain "..." is appended, otherwise nothing.')
ASSUME = ['the alignment (C14)', 'spelling (C04), at most 20 bytes for a character', 'strcat, strlen, sprintf as documented']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries over symbolic texts'
LIMIT = 24


def run(ctx):
    P = ctx.program('accuracy')
    prims = dict(initialize=initialize_prim, char_to_string=spell_prim, add_class=event_prim('class', None), add_conf=got('conf'),
                 read_text=event_prim('read_text', None), fastukk_sync=align('align'), write_accrpt=event_prim('write', None))
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    tx = [g for g, d in P.modules['accuracy'].globals.items() if repr(d['ty']) == '[2 x %struct.Text]']
    if len(tx) != 1:
        raise Unsupported('anchor vanished: the two texts of accuracy')
    text = glob(tx[0])
    n = 0
    for o in live(I.run(P.modules['accuracy'].functions['main'], [arg('argc0', 0), arg('argv', 1, ptr=True)])):
        ctx.paths += 1
        for S in loops_of(o.st):
            if not any(e[0] == 'got' for e in flat([('loop', S)])):
                continue
            w = walk_var(S, P.off('Sync', 'next'))
            if w is None:
                ctx.fail('names', 'the segments are gone through one after the other', S)
                continue
            for t in S.trans():
                for e in t.events:
                    if e[0] == 'got':
                        n += 1
                        ctx.paths += 1
                        name(ctx, I, P, S, t, V(w.sym), text, e)
    ctx.require(n >= 1, 'names', 'confusions are reported', 'main')


def content(f, t, R):
    """the token is what is stored at R"""
    if t[0] == 'sacc':
        b, o = interp.base_of(f.norm(R))
        return b is t[2] and o.const and o.c == 0
    return t[0] == 'str' and lin_eq(f, t[1], R) and t[3] == '' and not t[4]


def item(I, P, st, sync, k, fld):
    arr = load_at(I, st, sync, P, 'Sync', 'substr')
    return load_at(I, st, add(arr, scale(k, P.sizeof('Substr'))), P, 'Substr', fld)


def name(ctx, I, P, S, t, sync, text, e):
    key = e[2][1]
    where = S
    at = list(t.events).index(e)
    sides = {}
    ls = [x[1] for x in t.events[:at] if x[0] == 'loop']
    for L in ls:
        for k in (0, 1):
            r = side(ctx, I, P, L, t, sync, text, C(k))
            if r is not None:
                sides[k] = r[:2]
        v = counted(L, ZERO, C(2))
        if v is None:
            continue
        found = []
        for u in L.trans():
            if not libc.consistent(u.facts):
                continue
            r = None
            for M in [x[1] for x in u.events if x[0] == 'loop']:
                r = r or side(ctx, I, P, M, u, sync, text, V(v.sym))
            found.append((u, r))
        if not any(r for u, r in found):
            continue
        ctx.require(all(r for u, r in found), 'names', 'the text of either side is put together', L)
        for u, r in found:
            if r is None:
                continue
            for k in (0, 1):
                R = deep_subst(r[0], {v.sym: C(k)})
                sides[k] = (R, None)
            ellipsis(ctx, I, u, r, L)
    if set(sides) != {0, 1}:
        ctx.fail('names', 'the name of a confusion is made of the characters of the correct and of the generated text (%s)' % show_toks(key), where)
        return
    f = t.facts
    want = [('lit', b'{')]
    for k in (0, 1):
        R, cut = sides[k]
        want += [('str', R)] + [('lit', b'...')] * (cut is not None and cut(f)) + [('lit', b'}-{' if k == 0 else b'}\n')]
    want = libc.norm_tokens([x if x[0] == 'lit' else ('str', x[1], 0, '', None) for x in want])
    ok = len(want) == len(key) and all(a == b if a[0] == 'lit' else content(f, b, a[1]) for a, b in zip(want, key))
    ctx.require(ok, 'names', 'the name of a confusion is the text of both sides in braces (%s)' % show_toks(key), where)
    ctx.require(2 * (LIMIT + 3) + 6 <= KEY_MAX, 'names', 'names are short', where)


def side(ctx, I, P, L, t, sync, text, k):
    """L puts the text of side k together: (where, function telling from facts whether it is cut)"""
    lo, hi = item(I, P, t.head, sync, k, 'start'), item(I, P, t.head, sync, k, 'stop')
    tr = [u for u in L.trans() if libc.consistent(u.facts)]
    vs = [v for v in L.vars if v.sym is not None and not v.tmpl and lin_eq(L.pre.facts, v.init, lo) and
          tr and all(lin_eq(u.facts, u.nxt[v], add(V(v.sym), ONE)) for u in tr)]
    if not vs or not any(x[0] == 'str' and any(y[0] == 'spell' for y in x[3]) for u in tr for x in mem_since(u)):
        return None
    j = V(vs[0].sym)
    R = None
    for u in tr:
        ctx.paths += 1
        c = I.load(u.head, add(load_at(I, u.head, add(text, scale(k, P.sizeof('Text'))), P, 'Text', 'array'), scale(j, 8)), 8, ir.PTR)[0][1]
        sp = ('spell', ZERO, load_at(I, u.head, c, P, 'Char', 'value'), ONE)
        app = [x for x in mem_since(u) if x[0] == 'str' and len(x[3]) == 2]
        app = [x for x in app if same_word(u.facts, x[3][1:], (sp,)) and content(u.facts, x[3][0], add(V(x[1]), x[2]))]
        used = lengths(L, tr, sp)
        if not app:
            # put behind what is there by a variable that holds its length
            app = [x for x in mem_since(u) if x[0] == 'str' and same_word(u.facts, x[3], (sp,)) and any(w.sym in dict(x[2].t) for w in used)]
            app = [(x[0], x[1], sub(x[2], V(w.sym)), x[3], x) for x in app for w in used if not any(q.sym is not None and q.sym in dict(sub(x[2], V(w.sym)).t) for q in L.vars)]
        if len(app) != 1:
            ctx.fail('names', 'each character of the segment is appended once (%s)' % [show_toks(x[3]) for x in mem_since(u) if x[0] == 'str'], L)
            return None
        x = app[0]
        r = add(V(x[1]), x[2])
        if R is not None and not lin_eq(u.facts, r, R):
            ctx.fail('names', 'the characters of one side form one text', L)
            return None
        R = r
        others = [y for y in mem_since(u) if y is not x and y is not x[-1] and not (y[0] == 'str' and same_word(u.facts, y[3], (sp,)) and not lin_eq(u.facts, y[2], x[2])) and y[0] in ('st', 'str', 'cp', 'piece', 'u8') and y[1] is x[1]]
        ctx.require(not others, 'names', 'nothing else is written into the text', L)
        ctx.require(u.facts.decide(sub(j, hi), '<=') is True, 'names', 'only characters of the segment are named', L)
        n = ([libc.tok_len(x[3][0])] if len(x[3]) == 2 else []) + [V(w.sym) for w in used]
        if not any(u.facts.decide(sub(add(m, libc.tok_len(sp)), C(LIMIT)), '<=') is True for m in n):
            ctx.fail('names', 'the text stays within %d bytes' % LIMIT, L)
    empty = libc.string_tokens(I, L.pre, R)
    ctx.require(not empty, 'names', 'the text is empty at first (%s)' % show_toks(empty), L)
    for o in L.exits():
        if dead(o) or fatal(L, o) or not libc.consistent(o.st.facts):
            continue
        f = o.st.facts
        fin = f.decide(sub(hi, add(j, C(-1))), '<=')       # j > hi
        if f.decide(add(sub(hi, j), ONE), '<=') is True:
            continue
        sp = ('spell', ZERO, load_at(I, o.st, I.load(o.st, add(load_at(I, o.st, add(text, scale(k, P.sizeof('Text'))), P, 'Text', 'array'), scale(j, 8)), 8, ir.PTR)[0][1],
                                     P, 'Char', 'value'), ONE)
        hd = next(p.head for p in L.parts.values() if o in p.exits)
        old = [libc.toks_len(libc.norm_tokens(libc.string_tokens(I, hd, R)))] + \
            [V(w.sym) for w in lengths(L, tr, sp)]
        long_ = any(f.decide(sub(C(LIMIT + 1), add(m, libc.tok_len(sp))), '<=') is True for m in old)
        ctx.require(long_, 'names', 'a character is left out only when the text would exceed %d bytes' % LIMIT, L)

    def cut(f):
        return f.decide(sub(j, hi), '<=') is not False
    return R, cut, L, j, hi, used


def lengths(L, tr, sp):
    """variables that hold the length of what was put together so far"""
    return [w for w in L.vars if w.sym is not None and not w.tmpl and L.pre.facts.value(w.init) == 0 and
            all(lin_eq(y.facts, sub(y.nxt[w], V(w.sym)), libc.tok_len(sp)) for y in tr)]


def ellipsis(ctx, I, u, r, S):
    """what is appended after the loop over the characters of a side"""
    R, cut, L, j, hi = r[:5]
    b, o = interp.base_of(u.facts.norm(R))
    later = []
    for x in u.st.entries():
        if x[0] == 'hv':
            if x[2][0] == 'base' and x[2][1] is b:
                break
            continue
        if x[0] in ('st', 'str', 'cp', 'piece', 'u8') and x[1] is b:
            later.append(x)
    for f, c in table(u.facts, lambda q: q.le(j, hi)):
        if c:
            ok = len(later) == 1 and later[0][0] == 'str' and lin_eq(f, later[0][2], o) and len(later[0][3]) == 2 and \
                later[0][3][1] == ('lit', b'...') and content(f, later[0][3][0], R) or \
                len(later) == 1 and later[0][0] == 'str' and later[0][3] == (('lit', b'...'),) and \
                any(lin_eq(f, later[0][2], add(o, V(w.sym))) for w in r[5])
            ctx.require(ok, 'names', 'a text that is cut ends in "..." (%s)' % [show_toks(x[3]) for x in later if x[0] == 'str'], S)
        else:
            ctx.require(not later, 'names', 'a text that is complete is left as it is', S)
