"""C01: text intake is strict, complete UTF-8 decoding."""
from .common import *
from .textin import *

RULE = ('read_text is interpreted over an input of arbitrary bytes (getc, fread and utf8proc_iterate by their contracts): each iteration of its loop '
        'decodes exactly the bytes from the first one not yet used, as many as their first byte announces, appends that one character unless it is a '
        'suspect marker being interpreted, and leaves the next byte as the first one not used; the loop is left only at the end of the input, or with '
        'an error when the bytes there cannot be the start of a valid sequence: an impossible first byte, fewer bytes left than it announces, or a '
        'failure to decode exactly these bytes. Reading starts at the start of the file, or, when a header was asked for and found, after it. '
        'cstring_to_text does the same for strings.')
ASSUME = ['getc, fread, fgets, fseek as documented; utf8proc_iterate accepts exactly the valid UTF-8 sequences and utf8proc_utf8class gives the length a first byte announces',
          'read errors are reported when the file is closed (C22)', 'list_insert_last (C20)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries over the positions of a byte stream'


def run(ctx):
    P = ctx.program()
    T = Intake(ctx, P)
    seen = set()
    n = 0
    for o in T.outs:
        ctx.paths += 1
        ev = list(o.st.events())
        Ss = T.contents(o)
        where = T.where
        if o.kind == 'exit' and not any(e[0] == 'error' for e in ev):
            ctx.fail('strict', 'reading stops only with an error', where)
        if not Ss:
            # stopped before reading
            ok = o.kind == 'exit' and (any(e[0] == 'seek failed' for e in ev) or not any(e[0] == 'open' for e in ev) and
                                       o.st.facts.value(T.name) == 0 and o.st.facts.decide(T.option('find_header'), '!=') is True)
            ctx.require(ok, 'complete', 'a text is read', where)
            continue
        n += 1
        if len(Ss) != 1:
            ctx.fail('complete', 'each byte is read once (%s)' % Ss, where)
            continue
        S = Ss[0]
        op = [e for e in ev if e[0] == 'open']
        ok = len(op) == 1 and lin_eq(o.st.facts, op[0][1], T.name) and op[0][2] == b'r'
        ctx.require(ok, 'complete', 'the text is read from the file asked for', where)
        if o.kind == 'ret':
            ctx.require([e[1] for e in ev if e[0] == 'close'] == [op[0][3]], 'complete', 'the file is closed', where)
            ctx.require(not chars(e for e in ev), 'complete', 'only what was read becomes text', where)
        if id(S) in seen:
            continue
        seen.add(id(S))
        header(ctx, P, T, S)
        loop(ctx, P, T, S)
    ctx.require(n > 0, 'complete', 'texts are read', 'read_text')
    for o in T.outs:
        if o.kind == 'ret':
            found(ctx, P, T, o)
    strings(ctx, P)


def loop(ctx, P, T, S):
    c = T.ahead(S)
    for t in trans(S):
        ctx.paths += 1
        f = t.facts
        q = sub(pos(t.head), C(c))
        d = decoded(t)
        if len(d) != 1:
            ctx.fail('complete', 'each step decodes one character (%d)' % len(d), S)
            continue
        _, n, bs, cp = d[0]
        ok = all(lin_eq(f, b, byte(add(q, C(i)))) for i, b in enumerate(bs))
        if not ok and any(e[0] == 'loop' for e in t.events):
            raise Unsupported('the bytes of a character are read in a loop')
        ctx.require(ok, 'complete', 'the character decoded is made of the next %d bytes in order (%s)' % (n, ', '.join('%r' % b for b in bs)), S)
        ctx.require(lin_eq(f, sub(pos(t.st), C(c)), add(q, C(n))), 'complete', 'decoding goes on after the %d bytes of the character' % n, S)
        cs = chars(t.events)
        for g, m in table(f, lambda k: marker(k, T, cp)):
            if m:
                continue
            ok = len(cs) == 1 and lin_eq(g, cs[0][1], T.text) and lin_eq(g, cs[0][3], cp)
            ctx.require(ok, 'complete', 'a character that was decoded is appended once, unchanged (%s)' % [e[3] for e in cs], S)
    for p in S.parts.values():
        for x in p.exits:
            if dead(x):
                continue
            ctx.paths += 1
            f = x.st.facts
            q = sub(pos(p.head), C(c))
            b0 = byte(q)
            ev = list(x.st.events(p.head.ev))
            if fatal(S, x):
                ctx.require(hopeless(f, q, ev), 'strict', 'a text is refused only where it is not valid UTF-8 (first byte %s)' % (f.bounds_box(f.norm(b0)),), S)
                continue
            ctx.require(f.decide(add(b0, ONE), '==') is True, 'complete', 'reading goes on to the end of the input', S)
            ctx.require(not chars(ev), 'complete', 'nothing is appended at the end of the input', S)


def lengths(f, b0):
    """lengths a first byte may announce (0: none)"""
    v = f.norm(b0)
    x = v.one()
    out = set()
    for n, dom in list(LEAD.items()) + [(0, ((0x80, 0xc1), (0xf5, 0xff)))]:
        if v.const:
            if is_contains(dom, v.c):
                out.add(n)
        elif x is None:
            out.add(n)
        elif f.assume_dom(x, dom) is not None:
            k = V(atom(('u8class', b0), None, 0, 4))
            g = f.assume_dom(x, dom)
            if n == 0 or g.assume(sub(k, C(n)), '==') is not None:
                out.add(n)
    return out


def hopeless(f, q, ev):
    """the bytes from position q on cannot start with a valid sequence"""
    b0 = byte(q)
    ns = lengths(f, b0)
    if ns <= {0}:
        return f.decide(scale(b0, -1), '<=') is True
    for i in range(1, 4):
        if f.decide(add(byte(add(q, C(i))), ONE), '==') is True and all(n == 0 or i < n for n in ns):
            return True         # the input ends within the character
    for e in ev:
        if e[0] == 'short':
            d = f.norm(sub(add(e[1], C(e[2])), q))
            if d.const and all(n == 0 or d.c <= n for n in ns):
                return True
        if e[0] == 'undecoded':
            _, n, bs, L = e
            if (L < 0 or L >= n) and ns <= {n, 0} and len(bs) >= n and all(lin_eq(f, b, byte(add(q, C(i)))) for i, b in enumerate(bs[:n])):
                return True
    return False


# ------------------------------------------------------------ the header
def header(ctx, P, T, S):
    """where the text starts"""
    f = S.pre.facts
    ev = list(S.pre.events())
    q = sub(pos(S.pre), C(T.ahead(S)))
    opt = T.option('find_header')
    k = max([i for i, e in enumerate(ev) if e[0] == 'seek'], default=-1)
    if f.decide(opt, '==') is True:
        ctx.require(not any(e[0] in ('header', 'eof') for e in flat(ev)), 'header', 'no header is skipped unless asked for', T.where)
        ctx.require(lin_eq(f, q, ZERO), 'complete', 'a text without a header starts with the first byte (%r)' % (q,), T.where)
        return
    cmp = line_cmp(f, ZERO)
    if cmp is None:
        if any(e[0] == 'eof' for e in ev):
            # an empty file
            ctx.require(lin_eq(f, q, ZERO), 'complete', 'a text without a header starts with the first byte (%r)' % (q,), T.where)
            return
        ctx.fail('header', 'the first line decides about a header', T.where)
        return
    c, pre, same = cmp
    ctx.require(pre and c.startswith(b'ocreval Vendor-Independent Interface'), 'header', 'a header is told by the title (%r)' % c, T.where)
    if not same:
        ctx.require(lin_eq(f, q, ZERO), 'complete', 'a text without a header starts with the first byte (%r)' % (q,), T.where)
        return
    # the header ends with the second divider
    L = [e[1] for e in ev if e[0] == 'loop']
    if len(L) != 1 or k >= 0:
        ctx.fail('header', 'a header is skipped', T.where)
        return
    skip(ctx, P, T, L[0], S)


def skip(ctx, P, T, L, S):
    """the loop that skips the lines of a header counts dividers"""
    cnt = None
    for t in trans(L):
        ctx.paths += 1
        rd = [e for e in t.events if e[0] == 'header']
        ok = len(rd) == 1 and not any(e[0] in ('getc', 'fread') for e in t.events)
        ctx.require(ok, 'header', 'a header is skipped line by line', L)
        if not ok:
            return
        m = line_cmp(t.facts, rd[0][1])
        if m is None:
            ctx.fail('header', 'each line is compared with the divider', L)
            return
        c, pre, same = m
        ctx.require(c.startswith(b'------') and not pre, 'header', 'the end of a header is told by its divider (%r)' % c, L)
        ch = [v for v in L.vars if v.sym is not None and v.kind != 'x' and not lin_eq(t.facts, t.nxt[v], V(v.sym)) and v.ty is not None and v.ty.k == 'int']
        if same:
            ctx.require(len(ch) == 1 and lin_eq(t.facts, t.nxt[ch[0]], add(V(ch[0].sym), ONE)) and lin_eq(L.pre.facts, ch[0].init, ZERO), 'header', 'dividers are counted', L)
            cnt = ch[0] if ch else None
        else:
            ctx.require(not ch, 'header', 'only dividers are counted', L)
    if cnt is None:
        ctx.fail('header', 'dividers are counted', L)
        return
    for p in L.parts.values():
        for x in p.exits:
            if dead(x):
                continue
            ev = [e[0] for e in x.st.events(p.head.ev)]
            two = x.st.facts.decide(sub(V(cnt.sym), C(2)), '==') is True
            ctx.require(two and not ev or ev == ['eof'], 'header', 'a header ends with its second divider, or with the file', L)
        for t in p.trans:
            ctx.require(t.facts.decide(sub(V(cnt.sym), ONE), '<=') is True, 'header', 'no line after the second divider belongs to the header', L)


def line_cmp(f, p):
    """(constant, only its start, equal?) when the line at this position was compared and the result is known"""
    for l in list(f.dom) + [a for x in list(f.le) + list(f.ne) for a, _ in x.t] + [a for a in getattr(f, 'eq', {})]:
        k = l.key
        if isinstance(k, tuple) and k[0] == 'line cmp' and lin_eq(f, k[1], p):
            v = f.decide(V(l), '==')
            if v is not None:
                return k[2], k[3], v
    return None


def found(ctx, P, T, o):
    """found_header tells whether there was a header"""
    f = o.st.facts
    got = load_at(T.I, o.st, T.opt, P, 'Textopt', 'found_header')
    if f.decide(T.option('find_header'), '==') is True:
        return
    cmp = line_cmp(f, ZERO)
    have = bool(cmp and cmp[2])
    ctx.require(f.decide(got, '!=') is have, 'header', 'found_header tells whether there was a header (%r)' % (got,), T.where)


# ------------------------------------------------------------ strings
def strings(ctx, P):
    fn = P.modules['text'].functions.get('cstring_to_text')
    if fn is None:
        return
    text = obj('text', P.sizeof('Text'))
    lp, start = list_prims(P, text)

    def iterate(I, fr, ins, st, a):
        f = st.facts
        if f.value(f.norm(a[1])) is None or f.value(f.norm(a[1])) >= 0 and f.value(f.norm(a[1])) < 4:
            raise Unsupported('length of a string to decode')
        p = f.norm(a[0])
        db, do = interp.base_of(f.norm(a[2]))
        cp = V(atom(('decode at', p), 'decode(%r)' % p, 1, MAXCP))
        n = V(atom(('length at', p), 'length(%r)' % p, 1, 4))
        e = V(atom(('error at', p), 'error', -9, -1))
        return [(st.put(('st', db, do, 4, cp, None)).event('decoded', p, cp, n), n), (st.put(('st', db, do, 4, C(-1), None)).event('undecoded', p), e)]
    pr = dict(lp)
    pr['utf8proc_iterate'] = iterate
    I = ctx.interp(prims=pr)
    I.range_hook = ranges(P)
    s = arg('string', 1, ptr=True)
    for o in live(I.run(fn, [text, s], start(I, interp.State(Facts())))):
        ctx.paths += 1
        Ls = loops_of(o.st)
        if o.kind != 'ret' or len(Ls) != 1:
            ctx.fail('strings', 'a string is gone through once', fn.name)
            continue
        S = Ls[0]
        w = None
        for t in trans(S):
            d, cs = decoded(t), chars(t.events)
            ok = len(d) == 1 and len(cs) == 1 and lin_eq(t.facts, cs[0][3], d[0][2]) and lin_eq(t.facts, cs[0][1], text) and t.facts.decide(cs[0][4], '==') is True
            ctx.require(ok, 'strings', 'each character of a string is appended once, unchanged and not suspect', S)
            if not ok:
                return
            c = [v for v in S.vars if v.sym is not None and lin_eq(t.facts, V(v.sym), d[0][1]) and lin_eq(t.facts, t.nxt[v], add(d[0][1], d[0][3])) and lin_eq(S.pre.facts, v.init, s)]
            ctx.require(len(c) == 1, 'strings', 'decoding goes on after the character', S)
            if len(c) != 1:
                return
            w = c[0]
        if w is None:
            ctx.fail('strings', 'strings are decoded', S)
            return
        b = I.load(o.st, V(w.sym), 1, ir.Ty('int', 8), None)[0][1]
        if o.st.facts.decide(o.val, '!=') is True:
            ctx.require(o.st.facts.decide(b, '==') is True, 'strings', 'a string is accepted at its end', fn.name)
        else:
            ctx.require(o.st.facts.value(o.val) == 0 and any(e[0] == 'undecoded' for e in o.st.events()), 'strings', 'a string is refused only where it cannot be decoded', fn.name)

