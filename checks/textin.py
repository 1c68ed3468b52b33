"""the input of read_text as a sequence of bytes: primitives and the analysis shared by C01, C02 and C03"""
from .common import *

POS = 'text-pos'
LEAD = {1: ((0, 0x7f),), 2: ((0xc2, 0xdf),), 3: ((0xe0, 0xef),), 4: ((0xf0, 0xf4),)}       # of well-formed sequences
CLASS = {0: ((0x80, 0xbf), (0xf8, 0xff)), 1: ((0, 0x7f),), 2: ((0xc0, 0xdf),), 3: ((0xe0, 0xef),), 4: ((0xf0, 0xf7),)}     # utf8proc_utf8class
CODE = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}


def byte(p):
    """what getc returns at this position"""
    return V(atom(('byte', p), 'byte(%r)' % p, -1, 255))


def pos(st):
    return st.facts.norm(st.extra[POS])


def p_getc(I, fr, ins, st, a):
    p = pos(st)
    return [(st.setx(POS, add(p, ONE)).event('getc', p), byte(p))]


def p_ungetc(I, fr, ins, st, a):
    p = pos(st)
    c = st.facts.norm(a[0])
    if not lin_eq(st.facts, c, byte(sub(p, ONE))):
        raise Unsupported('ungetc of something else')
    return [(st.setx(POS, sub(p, ONE)).event('ungetc', p), c)]


def p_fread(I, fr, ins, st, a):
    f = st.facts
    size, n = f.norm(a[1]), f.norm(a[2])
    p = pos(st)
    b, o = interp.base_of(f.norm(a[0]))
    if f.value(size) == 1:
        total, whole = n, None
    elif f.value(n) == 1:
        total, whole = size, ONE
    else:
        raise Unsupported('fread of %r elements of %r bytes' % (n, size))
    out = []
    lo, hi = f.bounds_box(total)
    if hi > 64:
        raise Unsupported('fread of %r bytes' % (total,))
    for k in range(max(lo, 0), hi + 1):
        s = st.assume(sub(total, C(k)), '==')
        if s is None:
            continue
        if I.access_hook:
            s = I.access_hook(I, fr, ins, s, a[0], k, 'store')
        full = s
        for i in range(k):
            full = full and full.assume(scale(byte(add(p, C(i))), -1), '<=')
        if full is not None:
            for i in range(k):
                full = full.put(('st', b, add(o, C(i)), 1, I.cast(full, 'trunc', byte(add(p, C(i))), 32, 8)[0][1], None))
            out.append((full.setx(POS, add(p, C(k))).event('fread', p, k), whole if whole is not None else C(k)))
        if k:
            r = V(atom(('short', p, k), 'short', 0, k - 1))
            t = s
            for i in range(k):
                t = t.put(('st', b, add(o, C(i)), 1, V(atom(('part', p, k, i), 'part', -128, 127)), None))
            out.append((t.setx(POS, add(p, r)).event('short', p, k), r if whole is None else ZERO))
    return out


def p_iterate(I, fr, ins, st, a):
    f = st.facts
    L = f.value(f.norm(a[1]))
    if L is None:
        # a length of its own
        lo, hi = f.bounds_box(f.norm(a[1]))
        if lo < 0 or hi > 16:
            raise Unsupported('utf8proc_iterate with a length of %r' % (a[1],))
        out = []
        for k in range(lo, hi + 1):
            s = st.assume(sub(f.norm(a[1]), C(k)), '==')
            if s is not None:
                out += p_iterate(I, fr, ins, s, [a[0], C(k)] + list(a[2:]))
        return out
    out = []
    dst = f.norm(a[2])
    db, do = interp.base_of(dst)

    def put(s, v):
        if I.access_hook:
            s = I.access_hook(I, fr, ins, s, dst, 4, 'store')
        return s.put(('st', db, do, 4, s.facts.norm(v), None))
    if L == 0:
        return [(put(st, C(-1)), ZERO)]
    lim = 4 if L < 0 else L

    def at(s, i):
        r = I.load(s, add(a[0], C(i)), 1, ir.Ty('int', 8), None)
        if len(r) != 1:
            raise Unsupported('bytes to decode')
        s, x = r[0][0], s.facts.norm(r[0][1])
        r = I.cast(s, 'zext', x, 8, 32)
        if len(r) != 1:
            raise Unsupported('bytes to decode')
        return r[0][0], s.facts.norm(r[0][1])

    def lead(s, dom):
        s2, b0 = at(s, 0)
        x = b0.one()
        if b0.const:
            return (s2, b0) if is_contains(dom, b0.c) else (None, None)
        if x is None:
            raise Unsupported('first byte %r' % (b0,))
        g = s2.facts.assume_dom(x, dom)
        return (s2.with_facts(g), b0) if g is not None else (None, None)

    for n in range(0, 5):
        s, b0 = lead(st, CLASS[n])
        if s is None:
            continue
        s = s.assume(sub(V(atom(('u8class', b0), None, 0, 4)), C(n)), '==')
        if s is None:
            continue
        bs = [b0]
        for i in range(1, min(n, lim)):
            s, x = at(s, i)
            bs.append(x)
        if n != 1:
            e = V(atom(('iterate-error', tuple(bs), lim), 'error', -9, -1))
            out.append((put(s, C(-1)).event('undecoded', n, tuple(bs), L), e))
        if 1 <= n <= lim:
            s, b0 = lead(s, LEAD[n])
            if s is not None:
                cp = bs[0] if n == 1 else V(atom(('decode',) + tuple(bs), 'decode(%s)' % ','.join('%r' % x for x in bs), *CODE[n]))
                out.append((put(s, cp).event('decoded', n, tuple(bs), cp), C(n)))
    return out


def list_prims(P, text):
    """list_insert_last on the text: the ends of the list change, so do the links of what was last before"""
    tb, to = interp.base_of(text)
    off = {k: P.off('Text', k) for k in ('first', 'last', 'count')}
    before = {}

    def insert(I, fr, ins, st, a):
        f = st.facts
        l, c = f.norm(a[0]), f.norm(a[1])
        v = load_at(I, st, c, P, 'Char', 'value')
        s = load_at(I, st, c, P, 'Char', 'suspect')
        st = st.event('char', l, c, v, s, I.line(fr, ins))
        if lin_eq(f, l, text):
            st = st.put(('st', tb, add(to, C(off['first'])), 8, V(FIRST), ('Text', 0)))
            st = st.put(('st', tb, add(to, C(off['last'])), 8, V(LAST), ('Text', 1)))
            lb, lo = interp.base_of(before['last'])
            st = st.put(('st', lb, add(lo, C(P.off('Char', 'next'))), 8, V(NEXT), ('Char', 1)))
        return [(st, None)]

    def start(I, st):
        before['last'] = load_at(I, st, text, P, 'Text', 'last')
        return st
    return dict(list_insert_last=insert), start


def remove_prim(P):
    """list_remove: the links of the neighbours and the ends of the list change"""
    names = list(P.fields['Char'][1])

    def p(I, fr, ins, st, a):
        f = st.facts
        args = tuple(f.norm(x) for x in a)
        old = {k: load_at(I, st, args[1], P, 'Char', k) for k in ('next', 'prev')}
        st = st.event('call', 'remove', args, I.line(fr, ins))
        n = ('removed', sum(1 for e in st.events() if e[0] == 'call'), st.extra.get('iter', ()))
        b, o = interp.base_of(args[0])
        st = st.put(('hv', n, ('base', b)))
        for k in ('next', 'prev'):
            st = st.put(('hv', n, ('tag', ('Char', names.index(k)))))
        b, o = interp.base_of(args[1])
        for k in ('next', 'prev'):
            st = st.put(('st', b, add(o, C(P.off('Char', k))), 8, old[k], ('Char', names.index(k))))
        return [(st, None)]
    return p


def free_prim(P):
    """free: what a released character holds is unknown"""
    names = list(P.fields['Char'][1])

    def p(I, fr, ins, st, a):
        f = st.facts
        args = tuple(f.norm(x) for x in a[:1])
        st = st.event('call', 'free', args, I.line(fr, ins))
        b, o = interp.base_of(args[0])
        if b is not None:
            n = sum(1 for e in st.events() if e[0] == 'call')
            for k, (off, sz) in P.fields['Char'][1].items():
                x = V(atom(('freed', args[0], k, n), 'freed.%s' % k))
                if sz == 8:
                    x = V(interp.mkptr(atom(('freed', args[0], k, n), 'freed.%s' % k, 1)))
                st = st.put(('st', b, add(o, C(off)), sz, x, ('Char', names.index(k))))
        return [(st, None)]
    return p


FIRST = interp.mkptr(atom(('text first',), 'first character', 1))
LAST = interp.mkptr(atom(('text last',), 'last character', 1))
NEXT = interp.mkptr(atom(('text next',), 'first new character', 1))


def p_fgets(I, fr, ins, st, a):
    """one line, or nothing at the end of the file"""
    p = pos(st)
    e = V(atom(('line end', p), 'lineend(%r)' % p, 1))
    s = libc.buf_put(I, fr, ins, st, a[0], [('other', ('line', p))])
    return [(st.event('eof', p), ZERO), (s.setx(POS, e).event('header', p, e), a[0])]


def p_fseek(I, fr, ins, st, a):
    f = st.facts
    if f.value(f.norm(a[1])) != 0 or f.value(f.norm(a[2])) != 0:
        raise Unsupported('fseek elsewhere')
    return [(st.setx(POS, ZERO).event('seek', ZERO), ZERO), (st.event('seek failed',), C(-1))]


def p_rewind(I, fr, ins, st, a):
    return [(st.setx(POS, ZERO).event('seek', ZERO), None)]


def compare(name):
    old = libc.PRIMS[name]

    def p(I, fr, ins, st, a):
        f = st.facts
        ts = []
        for x in a[:2]:
            try:
                ts.append(tuple(libc.string_tokens(I, st, x)))
            except Unsupported:
                ts.append(None)
        for x, y in ((0, 1), (1, 0)):
            if ts[x] and len(ts[x]) == 1 and ts[x][0][0] == 'other' and ts[y] is not None and all(t[0] == 'lit' for t in ts[y]):
                c = b''.join(t[1] for t in ts[y])
                if len(a) > 2:
                    n = f.value(f.norm(a[2]))
                    if n is None:
                        raise Unsupported('strncmp of %r characters' % (a[2],))
                    c = c[:n]
                return [(st, V(atom(('line cmp', ts[x][0][1][1], c, len(a) > 2), 'linecmp', -255, 255)))]
        return old(I, fr, ins, st, a)
    return p


def p_errmsg(I, fr, ins, st, a):
    return [(st, V(interp.mkptr(atom(('errmsg',), 'errmsg', 1))))]


def announced(I, st, addr, size, ty, tag):
    """the number of bytes a first byte announces: one case per number"""
    b, off = interp.base_of(addr)
    if b is None or b.obj != 'global' or b.key[1:3] != ('', 'utf8proc_utf8class') or size != 1:
        return None
    f = st.facts
    off = f.norm(off)
    k, x = V(atom(('u8class', off), None, 0, 4)), off.one()
    out = []
    for n in range(5):
        s = st.assume(sub(k, C(n)), '==')
        if s is None:
            continue
        if off.const:
            if not is_contains(CLASS[n], off.c):
                continue
        elif x is not None:
            g = s.facts.assume_dom(x, CLASS[n])
            if g is None:
                continue
            s = s.with_facts(g)
        out.append((s, C(n)))
    return out


def prims():
    d = dict(utf8proc_errmsg=p_errmsg, getc=p_getc, fgetc=p_getc, _IO_getc=p_getc, getc_unlocked=p_getc, ungetc=p_ungetc, fread=p_fread, utf8proc_iterate=p_iterate, fgets=p_fgets,
             fseek=p_fseek, rewind=p_rewind)
    for n in ('strcmp', 'strncmp'):
        d[n] = compare(n)
    return d


# ------------------------------------------------------------ reading a text
class Intake:
    """the runs of read_text"""
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        fn = P.modules['text'].functions.get('read_text')
        if fn is None or len(fn.params) != 3:
            raise Unsupported('anchor vanished: read_text')
        self.text = obj('text', P.sizeof('Text'))
        self.opt = arg('opt', 1, ptr=True)
        self.name = arg('name', 0, ptr='null')
        lp, start = list_prims(P, self.text)
        pr = prims()
        pr.update(lp)
        pr.update(list_remove=remove_prim(P), free=free_prim(P))
        self.I = I = ctx.interp(prims=pr)
        I.opts['zext_fork'] = False
        I.range_hook = ranges(P)
        I.load_hook = announced
        I.opts['short_loops'] = True
        s0 = start(I, interp.State(Facts()).setx(POS, ZERO))
        self.s0 = s0
        self.last = load_at(I, s0, self.text, P, 'Text', 'last')
        self.outs = live(I.run(fn, [self.text, self.name, self.opt], s0))
        self.where = 'read_text'

    def option(self, k):
        return load_at(self.I, self.s0, self.opt, self.P, 'Textopt', k)

    def contents(self, o):
        """the loop that reads the characters"""
        r = [S for S in loops_of(o.st) if any(e[0] in ('decoded', 'undecoded') for t in S.trans() for e in t.events) or
             any(e[0] in ('decoded', 'undecoded', 'short') for p in S.parts.values() for x in p.exits for e in x.st.events(p.head.ev))]
        return r

    def ahead(self, S):
        """bytes read ahead of the loop"""
        n = 0
        for e in S.pre.events():
            if e[0] in ('open', 'loop', 'header', 'seek', 'eof'):
                n = 0
            elif e[0] == 'getc':
                n += 1
            elif e[0] == 'ungetc':
                n -= 1
            elif e[0] in ('fread', 'short', 'decoded', 'char'):
                raise Unsupported('characters read outside the loop')
        return n

    def done(self, S):
        """[(part, exit)] of the loop that go on"""
        return [(p, x) for p in S.parts.values() for x in p.exits if not fatal(S, x) and not dead(x)]

    def later(self, o, S):
        """the loops after that one"""
        ls = loops_of(o.st)
        k = next(i for i, x in enumerate(ls) if x is S)
        return ls[k + 1:]


def trans(S):
    """the iterations of a loop or of a part of one"""
    return [t for t in (S.trans if isinstance(S.trans, list) else S.trans()) if libc.consistent(t.facts)]


def marker(q, intake, cp):
    """is the character a suspect marker that is interpreted?"""
    if not q.nz(intake.option('find_markers')):
        return False
    m = intake.option('suspect_marker')
    if q.nz(m):
        return q.eq(cp, m)
    return q.eq(cp, C(ord('^')))


def decoded(t):
    return [e for e in t.events if e[0] == 'decoded']


def chars(events):
    return [e for e in events if e[0] == 'char']


# ------------------------------------------------------------ what is done with the new characters
def kind(I, P, L):
    """('lower' | 'blank' | 'compress', cursor) of a loop over the new characters"""
    k = set()
    off = P.off('Char', 'value')
    for t in trans(L):
        if any(e[0] == 'call' and e[1] in ('remove', 'free') for e in t.events):
            k.add('compress')
        for e in mem_since(t):
            if e[0] == 'st' and e[5] and e[5][0] == 'Char' and e[2].const and list(P.fields['Char'][1])[e[5][1]] == 'value':
                v = t.facts.norm(e[4])
                if v.one() is not None and v.one().key[0] == 'freed':
                    continue
                k.add('lower' if v.one() is not None and v.one().key[0] == 'tolower' else 'blank')
    return k


def walk_list(I, P, L):
    """the loop variable going from character to character"""
    w = [v for v in L.vars if v.sym is not None and not v.tmpl and not v.flag and trans(L) and
         all(lin_eq(t.facts, t.nxt[v], load_at(I, t.head, V(v.sym), P, 'Char', 'next')) for t in trans(L))]
    return w[0] if len(w) == 1 else None


def first_new(ctx, intake, L, v, rule, where):
    """the cursor starts at the first character read"""
    I, P = intake.I, intake.P
    st = L.pre
    for f, had in table(st.facts, lambda q: q.nz(intake.last)):
        s = st.with_facts(f)
        want = load_at(I, s, intake.last, P, 'Char', 'next') if had else load_at(I, s, intake.text, P, 'Text', 'first')
        got = f.norm(v.init)
        ok = lin_eq(f, got, want) or norm_deep(f, got) == norm_deep(f, want)
        ctx.require(ok, rule, 'exactly the characters just read are gone through (from %r, not %r)' % (got, want), L)


def changed(P, t, v, fields):
    """what an iteration stores outside these fields of the current character"""
    out = []
    names = list(P.fields['Char'][1])
    for e in mem_since(t):
        if e[0] != 'st':
            out.append(e[0])
            continue
        b = e[1]
        if e[5] is None and getattr(b, 'obj', None) and b.key[0] == 'alloca':
            continue
        a = add(V(b), e[2])
        if not any(lin_eq(t.facts, a, add(V(v.sym), C(P.off('Char', k)))) for k in fields):
            out.append('%r' % (a,))
    return out
