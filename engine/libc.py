"""Models of libc / utf8proc routines and of the token-string domain."""
import re
from . import ir
from .terms import *


def U():
    from . import interp
    return interp


# ------------------------------------------------------------ utf-8 lengths
def u8len_const(c):
    if c < 0:
        return 0
    if c < 0x80:
        return 1
    if c < 0x800:
        return 2
    if c < 0x10000:
        return 3
    if c < 0x110000:
        return 4
    return 0


def u8len(cp):
    if cp.const:
        return C(u8len_const(cp.c))
    return V(atom(('u8len', cp), None, 1, 4))


# ------------------------------------------------------------------ tokens
# ('lit', bytes) ('u8', cp) ('int', width, flags, value) ('hex', width, flags, upper, value)
# ('flt', width, prec, value) ('str', ptr, width, prec) ('byte', value) ('char', suspect, value, fake)
def norm_tokens(toks, st=None):
    out = []
    for t in toks:
        if t[0] == 'u8' and t[1].const:
            t = ('lit', bytes(enc(t[1].c)))
        elif t[0] == 'byte' and t[1].const:
            t = ('lit', bytes([t[1].c & 255]))
        if t[0] == 'lit':
            if not t[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + t[1])
                continue
        out.append(t)
    return tuple(out)


def enc(c):
    if 0xD800 <= c <= 0xDFFF or c > 0x10FFFF or c < 0:
        return '\\u{%x}'.encode() % c
    return chr(c).encode('utf-8')


def tok_len(t):
    if t[0] == 'lit':
        return C(len(t[1]))
    if t[0] == 'u8':
        return u8len(t[1])
    if t[0] == 'byte':
        return ONE
    if t[0] == 'fix':
        return C(t[1])
    a = atom(('toklen',) + t, None, 0, 1 << 40)
    return V(a)


def toks_len(toks):
    r = ZERO
    for t in toks:
        r = add(r, tok_len(t))
    return r


FMT = re.compile(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diouxXcsfgeEGp%n])')


def parse_format(I, st, fmt, args, fr=None):
    """format bytes + argument Lins -> token list"""
    toks = []
    i = 0
    k = 0
    for m in FMT.finditer(fmt):
        if m.start() > i:
            toks.append(('lit', fmt[i:m.start()]))
        i = m.end()
        fl, w, pr, ln, cv = m.groups()
        cv = cv.decode()
        if cv == '%':
            toks.append(('lit', b'%'))
            continue

        def nxt():
            nonlocal k
            if k >= len(args):
                return V(atom(('missing-format-argument', k)))
            v = args[k]
            k += 1
            return st.facts.norm(v)
        if w == b'*':
            w = nxt()
        else:
            w = int(w) if w else 0
        if pr == b'*':
            pr = nxt()
        elif pr is not None:
            pr = int(pr)
        fl = fl.decode()
        v = nxt()
        if cv in 'di':
            toks.append(('int', w, fl, v))
        elif cv == 'u':
            toks.append(('int', w, fl, v))
        elif cv in 'xX':
            toks.append(('hex', w, fl, cv == 'X', v))
        elif cv == 'c':
            toks.append(('byte', v) if not w else ('bytew', w, fl, v))
        elif cv == 's':
            if w or pr is not None:
                toks.append(('str', v, w, fl, pr))
            else:
                toks += string_tokens(I, st, v)
        elif cv in 'feEgG':
            toks.append(('flt', w, fl, pr, cv, v))
        else:
            raise U().Unsupported('format %%%s' % cv)
    if i < len(fmt):
        if b'%' in fmt[i:]:
            raise U().Unsupported('format %r' % fmt)
        toks.append(('lit', fmt[i:]))
    return toks


def format_const(I, st, v):
    """constant bytes of a format string argument"""
    s = I.cstring(st.facts.norm(v))
    if s is None:
        raise U().Unsupported('non-constant format string')
    return s


def format_args(I, st, v, args):
    """format bytes and arguments; a format put together from constants and numbers takes these as its widths"""
    s = I.cstring(st.facts.norm(v))
    if s is not None:
        return s, args
    toks = string_tokens(I, st, v)
    fmt, args = b'', list(args)
    for t in toks:
        if t[0] == 'lit':
            fmt += t[1]
        elif t[0] == 'int' and not t[1] and not t[2] and re.search(rb'%[-+ #0]*\.?$', fmt.replace(b'%%', b'  ')):
            n = sum((w == b'*') + (p == b'*') + (c != b'%') for fl, w, p, ln, c in (m.groups() for m in FMT.finditer(fmt)))
            n += 1 if re.search(rb'\*\.$', fmt) else 0
            fmt += b'*'
            args.insert(n, t[3])
        else:
            raise U().Unsupported('non-constant format string')
    return fmt, args


def string_tokens(I, st, ptr):
    """tokens of the C string at ptr"""
    ptr = st.facts.norm(ptr)
    s = I.cstring(ptr)
    if s is not None:
        return [('lit', s)] if s else []
    b, o = U().base_of(ptr)
    if b is not None and (b.obj in ('alloca', 'heap') or (b.obj == 'global')):
        r = gather(I, st, b, o)
        if r is not None:
            return r
    return [('str', ptr, 0, '', None)]


def settle(st, toks):
    """characters that are known by now, or known to be ASCII"""
    out = []
    for t in toks:
        if t[0] == 'u8':
            v = st.facts.norm(t[1])
            if v.const:
                t = ('lit', enc(v.c))
            else:
                lo, hi = st.facts.bounds_box(v)
                if lo is not None and hi is not None and 0 <= lo and hi <= 127:
                    t = ('byte', v)
        out.append(t)
    return tuple(out)


def gather(I, st, base, off):
    """tokens of the C string stored at base+off, or None when nothing is known"""
    log = []        # newest first
    hv = None
    for e in st.entries():
        if e[0] == 'hv':
            if e[2][0] == 'base' and e[2][1] is base:
                hv = e[1]
                break
        elif e[1] is base:
            log.append(e if e[0] != 'str' else e[:3] + (settle(st, e[3]),) + tuple(e[4:]))
    if not log and hv is not None:
        return [('str', add(V(base), off), hv, '', None)]
    out = []
    cur = off
    for _ in range(200):
        hit = None
        for idx, e in enumerate(log):
            d = st.facts.norm(sub(e[2], cur))
            if d.const and d.c == 0:
                hit = (idx, e)
                break
            if e[0] == 'st' and d.const and d.c != 0:
                continue
            # an entry that starts before cur and may cover it
            if e[0] == 'str':
                # does cur fall on a token boundary of e?
                p = e[2]
                for j, t in enumerate(e[3]):
                    p = add(p, tok_len(t))
                    dd = st.facts.norm(sub(p, cur))
                    if dd.const and dd.c == 0:
                        hit = (idx, ('str', base, cur, e[3][j + 1:]))
                        break
                    if dd.const and 0 < dd.c and t[0] == 'lit' and dd.c < len(t[1]):
                        hit = (idx, ('str', base, cur, (('lit', t[1][len(t[1]) - dd.c:]),) + tuple(e[3][j + 1:])))
                        break
                if hit:
                    break
        if hit is None:
            return None if not out and cur is off else out + [('unterminated',)]
        idx, e = hit
        if e[0] == 'st':
            if e[3] != 1:
                return out + [('unterminated',)]
            v = st.facts.norm(e[4])
            if v.const and v.c == 0:
                return out
            if not v.const and I.truth_known(st, v) is None:
                return out + [('byte?', v)]
            out.append(('byte', v))
            cur = add(cur, ONE)
            continue
        if e[0] == 'u8':
            out.append(('u8', e[3]))
            cur = add(cur, u8len(e[3]))
            continue
        if e[0] == 'piece':
            out.append(e[3])
            cur = st.facts.norm(add(cur, e[4]))
            continue
        if e[0] == 'str':
            # newer writes inside its extent?
            cut = None
            for n in log[:idx]:
                d = st.facts.norm(sub(n[2], cur))
                p = ZERO
                for j, t in enumerate(list(e[3]) + [('nul',)]):
                    dd = st.facts.norm(sub(p, d))
                    if dd.const and dd.c == 0 and (j > 0 or True) and not (d.const and d.c == 0):
                        if cut is None or j < cut:
                            cut = j
                    if t[0] != 'nul':
                        p = add(p, tok_len(t))
            if cut is None:
                return out + list(e[3])
            out += list(e[3][:cut])
            cur = add(cur, toks_len(e[3][:cut]))
            continue
        return out + [('unterminated',)]
    return None


def first_byte(st, cp):
    """first byte (as signed char) of the encoding of cp"""
    out = []
    s = st.assume(sub(cp, C(127)), '<=')
    if s is not None:
        out.append((s, cp))
    s = st.assume(sub(C(128), cp), '<=')
    if s is not None:
        out.append((s, V(atom(('tb', ('u8', cp), ZERO), None, -128, -1))))
    return out


def load_text(I, st, e, off, size, ty):
    """load of `size` bytes at off from a text entry e; None if e does not cover off"""
    if e[0] == 'str':
        d = st.facts.norm(sub(off, e[2]))
        if d.const and d.c < 0:
            return None
        p = ZERO
        rest = list(settle(st, e[3]))
        while True:
            q = st.facts.norm(sub(d, p))
            if q.const and q.c < 0:
                return None
            if not rest:
                if q.const and q.c == 0 and size == 1:
                    return [(st, ZERO)]
                if q.const:
                    return None
                break
            t = rest[0]
            if q.const and t[0] == 'lit' and q.c + size <= len(t[1]) and size == 1:
                b = t[1][q.c]
                return [(st, C(b - 256 if b > 127 else b))]
            if q.const and t[0] == 'byte' and q.c == 0 and size == 1:
                return [(st, t[1])]
            if t[0] not in ('lit', 'byte'):
                r = st.facts.norm(sub(q, tok_len(t)))
                if not (r.const and r.c >= 0) and st.facts.decide(scale(r, -1), '<=') is not True:
                    if size == 1 and t[0] == 'hex' and q.const and 0 <= q.c < max(1, t[1]) and t[2] == '0':
                        a = atom(('tb', t, q), 'byte(hex,%r)' % (q,), 48, 70 if t[3] else 102)
                        s = st.assume_dom(a, ((48, 57), (65, 70)) if t[3] else ((48, 57), (97, 102)))
                        return [(s, V(a))] if s is not None else []
                    # unknown byte of a symbolic token
                    if size == 1 and t[0] == 'u8' and q.const and q.c == 0 and I.opts.get('u8bytes'):
                        return first_byte(st, t[1])
                    if size == 1 and t[0] == 'fix':
                        # a padded number
                        return [(st, V(atom(('tb', t, q), 'byte(%s,%r)' % (t[0], q), 32, 57)))]
                    if size == 1:
                        nonneg = t[0] in ('u8',)
                        a = atom(('tb', t, q), 'byte(%s,%r)' % (t[0], q), -128, 127)
                        if nonneg:
                            return [(s, V(a)) for s in [st.assume(V(a), '!=')] if s]
                        return [(st, V(a))]
                    return None
            p = add(p, tok_len(t))
            rest.pop(0)
        a = atom(('sb', e[1], e[2], e[3], d), 'strbyte', -128, 127)
        return [(st, V(a))]
    if e[0] == 'u8':
        d = st.facts.norm(sub(off, e[2]))
        if d.const and d.c < 0:
            return None
        if d.const and d.c == 0 and size == 1:
            a = atom(('tb', ('u8', e[3]), ZERO), None, -128, 127)
            return [(st, V(a))]
        n = u8len(e[3])
        r = st.facts.decide(sub(n, d), '<=')
        if r is True:
            return None
        if r is False:
            return [(st, V(atom(('tb', ('u8', e[3]), d), None, -128, 127)))]
        s1 = st.assume(sub(n, d), '<=')
        out = []
        if s1 is not None:
            out += I.load(s1, add(V(e[1]), off), size, ty)
        s2 = st.assume(add(sub(d, n), ONE), '<=')
        if s2 is not None:
            out.append((s2, V(atom(('tb', ('u8', e[3]), d), None, -128, 127))))
        return out
    if e[0] == 'bytes':
        d = st.facts.norm(sub(off, e[2]))
        r1 = st.facts.decide(scale(d, -1), '<=')
        r2 = st.facts.decide(add(sub(d, e[3]), ONE), '<=')
        if r1 is False or r2 is False:
            return None
        return [(st, e[4](st, d))]
    return None


# ------------------------------------------------------------------- prims
def out_event(I, fr, ins, st, stream, toks, ret=None):
    s = st.event('out', st.facts.norm(stream), norm_tokens(toks), I.line(fr, ins))
    n = I.fresh('outret', lo=-1, hi=2 ** 31 - 1) if ret is None else ret
    return [(s, n)]


def p_fprintf(I, fr, ins, st, a):
    return out_event(I, fr, ins, st, a[0], parse_format(I, st, *format_args(I, st, a[1], a[2:])))


def std(I, name):
    return V(atom(('std', name), name))


def p_printf(I, fr, ins, st, a):
    return out_event(I, fr, ins, st, std(I, 'stdout'), parse_format(I, st, *format_args(I, st, a[0], a[1:])))


def p_fputs(I, fr, ins, st, a):
    return out_event(I, fr, ins, st, a[1], string_tokens(I, st, a[0]))


def p_puts(I, fr, ins, st, a):
    return out_event(I, fr, ins, st, std(I, 'stdout'), string_tokens(I, st, a[0]) + [('lit', b'\n')])


def p_fputc(I, fr, ins, st, a):
    return out_event(I, fr, ins, st, a[1], [('byte', a[0])])


def p_putchar(I, fr, ins, st, a):
    return out_event(I, fr, ins, st, std(I, 'stdout'), [('byte', a[0])])


def buf_put(I, fr, ins, st, dst, toks):
    dst = st.facts.norm(dst)
    b, o = U().base_of(dst)
    if b is None:
        raise U().Unsupported('string written to unknown object')
    s = st
    if I.opts.get('write_hook'):
        s = I.opts['write_hook'](I, fr, ins, s, b, o, add(toks_len(toks), ONE))
    return s.put(('str', b, o, norm_tokens(toks)))


def p_sprintf(I, fr, ins, st, a):
    toks = parse_format(I, st, *format_args(I, st, a[1], a[2:]))
    return [(buf_put(I, fr, ins, st, a[0], toks), toks_len(norm_tokens(toks)))]


def p_snprintf(I, fr, ins, st, a):
    toks = parse_format(I, st, format_const(I, st, a[2]), a[3:])
    n = toks_len(norm_tokens(toks))
    s = buf_put(I, fr, ins, st, a[0], toks)     # truncation reported through the event
    return [(s.event('snprintf', a[1], n, I.line(fr, ins)), n)]


def p_strcpy(I, fr, ins, st, a):
    return [(buf_put(I, fr, ins, st, a[0], string_tokens(I, st, a[1])), a[0])]


def p_strcat(I, fr, ins, st, a):
    d = st.facts.norm(a[0])
    cur = string_tokens(I, st, d)
    return [(buf_put(I, fr, ins, st, d, list(cur) + list(string_tokens(I, st, a[1]))), a[0])]


def p_strlen(I, fr, ins, st, a):
    return [(st, toks_len(norm_tokens(string_tokens(I, st, a[0]))))]


def strcmp_atom(op, x, y, extra=()):
    """three-way comparison as an antisymmetric atom; returns Lin"""
    if x == y:
        return ZERO
    kx, ky = repr(x), repr(y)
    if ky < kx:
        return scale(V(atom((op, y, x) + extra, None, -2 ** 31 + 1, 2 ** 31 - 1)), -1)
    return V(atom((op, x, y) + extra, None, -2 ** 31 + 1, 2 ** 31 - 1))


NUMBER = (min(b' +-.'), max(b'9'))


def text_prefix(I, st, ptr):
    """list of (lowest, highest) bytes of the text at ptr as far as it is known; the end is (0, 0)"""
    def lit(b):
        return [(x, x) for x in b]
    c = I.cstring(ptr)
    if c is not None:
        return lit(c + b'\0')
    b, o = U().base_of(ptr)
    if b is None or not any(e[0] == 'str' and e[1] is b for e in st.entries()):
        return []
    t = gather(I, st, b, o)
    if t is None:
        return []
    out = []
    for x in norm_tokens(t):
        if x[0] == 'lit':
            out += lit(x[1])
        elif x[0] == 'fix':
            # a number, padded with blanks
            out += [NUMBER] * x[1]
        elif x[0] == 'hex' and x[2] == '0':
            return out + [(48, 70 if x[3] else 102)] * max(1, x[1])
        elif x[0] == 'byte':
            lo, hi = st.facts.bounds_box(st.facts.norm(x[1]))
            if not (lo is not None and hi is not None and 0 < lo and hi <= 127):
                return out
            out.append((lo, hi))
        else:
            return out
    return out + [(0, 0)]


def text_compare(I, st, x, y, n=None):
    p, q = text_prefix(I, st, x), text_prefix(I, st, y)
    m = min(len(p), len(q)) if n is None else min(len(p), len(q), n)
    for k in range(m):
        if p[k][0] > q[k][1]:
            return ONE
        if p[k][1] < q[k][0]:
            return C(-1)
        if not p[k][0] == p[k][1] == q[k][0] == q[k][1]:
            return None
        if p[k][0] == 0:
            return ZERO
    if n is not None and m == n:
        return ZERO
    return None


def p_strcmp(I, fr, ins, st, a):
    x, y = st.facts.norm(a[0]), st.facts.norm(a[1])
    r = text_compare(I, st, x, y)
    if r is not None:
        return [(st, r)]
    cx, cy = I.cstring(x), I.cstring(y)
    if cx is not None and cy is not None:
        return [(st, C((cx > cy) - (cx < cy)))]
    if cx is not None:
        x = V(atom(('cstr', cx), repr(cx)))
    if cy is not None:
        y = V(atom(('cstr', cy), repr(cy)))
    return [(st, strcmp_atom('strcmp', x, y))]


def p_strncmp(I, fr, ins, st, a):
    x, y, n = [st.facts.norm(v) for v in a]
    if n.const:
        r = text_compare(I, st, x, y, n.c)
        if r is not None:
            return [(st, r)]
    cx, cy = I.cstring(x), I.cstring(y)
    if cx is not None:
        x = V(atom(('cstr', cx), repr(cx)))
    if cy is not None:
        y = V(atom(('cstr', cy), repr(cy)))
    return [(st, strcmp_atom('strncmp', x, y, (n,)))]


def heap_atom(I, fr, ins, st, kind, size=None):
    it = st.extra.get('iter', ())
    n = st.extra.get('nalloc', 0)
    a = atom((kind, fr.uid, (ins.blk, ins.idx), it, n), '%s#%d%s' % (kind, n, ''.join("'%s" % (x,) for x in it)), obj='heap')
    if a.meta is None:
        a.meta = {}
    a.meta['size'] = size
    a.meta['site'] = (fr.mod.name, fr.fn.name, ir.line_of(fr.mod, ins.dbg))
    return st.setx('nalloc', n + 1), V(a)


def p_calloc(I, fr, ins, st, a):
    sz = st.facts.norm(a[0])
    v2 = st.facts.value(st.facts.norm(a[1]))
    v1 = st.facts.value(sz)
    if v2 is not None:
        size = scale(sz, v2)
    elif v1 is not None:
        size = scale(a[1], v1)
    else:
        size = None
    st, v = heap_atom(I, fr, ins, st, 'calloc', size)
    return [(st, v)]


def p_malloc(I, fr, ins, st, a):
    st, v = heap_atom(I, fr, ins, st, 'malloc', st.facts.norm(a[0]))
    return [(st, v)]


def p_free(I, fr, ins, st, a):
    return [(st.event('free', st.facts.norm(a[0]), I.line(fr, ins)), None)]


def p_strdup(I, fr, ins, st, a):
    toks = norm_tokens(string_tokens(I, st, a[0]))
    st, v = heap_atom(I, fr, ins, st, 'strdup', add(toks_len(toks), ONE))
    b, o = U().base_of(v)
    return [(st.put(('str', b, o, toks)), v)]


def p_memcpy(I, fr, ins, st, a):
    d, s, n = [st.facts.norm(x) for x in a[:3]]
    nv = st.facts.value(n)
    if nv is None:
        try:
            toks = string_tokens(I, st, s)
            whole = st.facts.norm(sub(n, add(toks_len(norm_tokens(toks)), ONE)))
        except U().Unsupported:
            whole = None
        if whole is not None and st.facts.value(whole) == 0:
            return [(buf_put(I, fr, ins, st, d, toks), a[0])]
        # one of a few sizes
        at = n.t[0][0] if len(n.t) == 1 else None
        if at is not None:
            dom = st.facts.domain(at)
            vals = [k for lo, hi in dom for k in range(lo, hi + 1)] if sum(hi - lo + 1 for lo, hi in dom) <= 16 else None
            if vals:
                res = []
                for k in vals:
                    s1 = st.assume(sub(V(at), C(k)), '==')
                    if s1 is not None:
                        res += p_memcpy(I, fr, ins, s1, a)
                return res
        raise U().Unsupported('memcpy of unknown size')
    db, do = U().base_of(d)
    sb, so = U().base_of(s)
    if db is None or sb is None:
        raise U().Unsupported('memcpy')
    if I.access_hook:
        st = I.access_hook(I, fr, ins, st, d, nv, 'store')
        st = I.access_hook(I, fr, ins, st, s, nv, 'load')
    return [(st.put(('cp', db, do, nv, sb, so, st.mem)), a[0])]


def p_memset(I, fr, ins, st, a):
    d, v, n = [st.facts.norm(x) for x in a[:3]]
    b, o = U().base_of(d)
    if b is None or not v.const:
        raise U().Unsupported('memset')
    return [(st.put(('bytes', b, o, n, lambda s, k: ZERO if v.c == 0 else V(atom(('memset', v.c))))), a[0])]


def p_encode(I, fr, ins, st, a):
    cp = st.facts.norm(a[0])
    dst = st.facts.norm(a[1])
    vv = st.facts.value(cp)
    if vv is not None:
        cp = C(vv)
    res = []
    if cp.const:
        n = u8len_const(cp.c)
        if n == 0:
            return [(st, ZERO)]
        cases = [(st, C(n))]
    else:
        ok = st.assume(scale(cp, -1), '<=')
        if ok is not None:
            ok = ok.assume(sub(cp, C(0x10FFFF)), '<=')
        cases = []
        if ok is not None:
            cases.append((ok, u8len(cp)))
        for l, op in ((add(cp, ONE), '<='), (sub(C(0x110000), cp), '<=')):
            s = st.assume(l, op)
            if s is not None:
                res.append((s, ZERO))
    for s, n in cases:
        b, o = U().base_of(dst)
        if b is None:
            raise U().Unsupported('encode target')
        if I.opts.get('write_hook'):
            s = I.opts['write_hook'](I, fr, ins, s, b, o, n)
        res.append((s.put(('u8', b, o, cp, n)), n))
    return res


def category(cp):
    return atom(('category', cp), 'category(%r)' % cp, 0, 29)


def p_category(I, fr, ins, st, a):
    return [(st, V(category(st.facts.norm(a[0]))))]


def p_get_property(I, fr, ins, st, a):
    cp = st.facts.norm(a[0])
    v = atom(('props', cp), 'props(%r)' % cp)
    U().mkptr(v)
    return [(st.setx('props', True), V(v))]


def p_tolower(I, fr, ins, st, a):
    return [(st, app_('tolower', st.facts.norm(a[0]), lo=0, hi=0x10FFFF))]


def app_(op, *args, **kw):
    return U().app(op, *args, **kw)


def p_exit(I, fr, ins, st, a):
    return [('exit', U().Outcome('exit', st.event('exit', st.facts.norm(a[0]), I.line(fr, ins))))]


def p_assert_fail(I, fr, ins, st, a):
    return [('exit', U().Outcome('exit', st.event('assert', I.line(fr, ins))))]


def ev(name, **kw):
    def h(I, fr, ins, st, args):
        return U().generic_event(name, **kw)(I, fr, ins, st, args)
    return h


def _pick(st, x, y, big):
    d = sub(x, y)
    out = []
    for l, r in ((d, y if big else x), (add(scale(d, -1), ONE), x if big else y)):
        s = st.assume(l, '<=')
        if s is not None:
            out.append((s, r))
    return out


def p_abs(I, fr, ins, st, a):
    return _pick(st, a[0], scale(a[0], -1), True)


def p_smax(I, fr, ins, st, a):
    return _pick(st, a[0], a[1], True)


def p_smin(I, fr, ins, st, a):
    return _pick(st, a[0], a[1], False)


def p_fmuladd(I, fr, ins, st, a):
    return [(st, I.farith('fadd', I.farith('fmul', a[0], a[1]), a[2]))]


def p_sqrt(I, fr, ins, st, a):
    return [(st, app_('sqrt', a[0], fl=True))]


def p_pow(I, fr, ins, st, a):
    return [(st, app_('pow', a[0], a[1], fl=True))]


def _fpick(pred):
    def prim(I, fr, ins, st, a):
        out = []
        for s, c in I.fcmp(st, pred, a[0], a[1]):
            for s2, t in I.truth(s, c):
                out.append((s2, a[0] if t else a[1]))
        return out
    return prim


def p_fabs(I, fr, ins, st, a):
    z = V(atom(('fconst', 0.0), '0', fl=True))
    out = []
    for s, c in I.fcmp(st, 'olt', a[0], z):
        for s2, t in I.truth(s, c):
            out.append((s2, I.farith('fsub', z, a[0]) if t else a[0]))
    return out


def p_allocate(I, fr, ins, st, a):
    return p_calloc(I, fr, ins, st, a)


def p_open_file(I, fr, ins, st, a):
    mode = I.cstring(st.facts.norm(a[1]))
    n = sum(1 for e in st.events() if e[0] == 'open')
    f = atom(('file', st.facts.norm(a[0]), mode, n, st.extra.get('iter', ())), 'file%d' % n)
    U().mkptr(f)
    return [(st.event('open', st.facts.norm(a[0]), mode, V(f), I.line(fr, ins)), V(f))]


def p_close_file(I, fr, ins, st, a):
    return [(st.event('close', st.facts.norm(a[0]), I.line(fr, ins)), None)]


def p_error(I, fr, ins, st, a):
    nm = ins.a[0][1]
    msg = I.cstring(st.facts.norm(a[0]))
    return [('exit', U().Outcome('exit', st.event('error', msg, tuple(st.facts.norm(x) for x in a[1:]), I.line(fr, ins))))]


def p_terminate(I, fr, ins, st, a):
    return [('exit', U().Outcome('exit', st.event('terminate', I.line(fr, ins))))]


PRIMS = {
    'fprintf': p_fprintf, 'printf': p_printf, 'fputs': p_fputs, 'puts': p_puts, 'fputc': p_fputc, 'putc': p_fputc,
    '_IO_putc': p_fputc, 'putchar': p_putchar, 'sprintf': p_sprintf, 'snprintf': p_snprintf,
    'strcpy': p_strcpy, 'strcat': p_strcat, 'strlen': p_strlen, 'strcmp': p_strcmp, 'strncmp': p_strncmp,
    'calloc': p_calloc, 'malloc': p_malloc, 'free': p_free, 'strdup': p_strdup,
    'llvm.memcpy.p0.p0.i64': p_memcpy, 'llvm.memset.p0.i64': p_memset, 'memcpy': p_memcpy,
    'utf8proc_encode_char': p_encode, 'utf8proc_category': p_category, 'utf8proc_get_property': p_get_property,
    'utf8proc_tolower': p_tolower, 'exit': p_exit, '__assert_fail': p_assert_fail,
    'abs': p_abs, 'labs': p_abs, 'llvm.abs.i32': p_abs, 'llvm.abs.i64': p_abs, 'llvm.abs.i16': p_abs,
    'llvm.smax.i64': p_smax, 'llvm.smin.i64': p_smin, 'llvm.smax.i32': p_smax, 'llvm.smin.i32': p_smin,
    'llvm.fmuladd.f64': p_fmuladd, 'sqrt': p_sqrt, 'pow': p_pow, 'fmin': _fpick('olt'), 'fmax': _fpick('ogt'), 'llvm.minnum.f64': _fpick('olt'),
    'llvm.maxnum.f64': _fpick('ogt'), 'fabs': p_fabs, 'llvm.fabs.f64': p_fabs, 'llvm.sqrt.f64': p_sqrt, 'llvm.pow.f64': p_pow,
    'allocate': p_allocate, 'open_file': p_open_file, 'close_file': p_close_file,
    'error': p_error, 'error_string': p_error, 'terminate': p_terminate,
    'warning_string': ev('warning_string'),
}
for _n in ('signal', '__sysv_signal', '__bsd_signal', 'bsd_signal', 'sigaction', 'getpid', 'unlink', 'remove', 'ferror', 'fflush', 'fclose', 'feof'):
    PRIMS[_n] = ev(_n)
PRIMS['fopen'] = ev('fopen')


def gather_open(I, st, base, off, end):
    """tokens stored from off up to offset end (end None: a terminated string)"""
    if end is None:
        return gather(I, st, base, off)
    s2 = st.put(('st', base, st.facts.norm(end), 1, ZERO, None))
    return gather(I, s2, base, off)


CATS = ['Cn', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Mn', 'Mc', 'Me', 'Nd', 'Nl', 'No', 'Pc', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Po', 'Sm',
        'Sc', 'Sk', 'So', 'Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Cs', 'Co']


def consistent(f):
    """no contradiction between float comparisons, nor between a character range and its general category (Latin only: stable in every Unicode version)"""
    import unicodedata
    fl = {}
    for a, d in list(f.dom.items()):
        if isinstance(a.key, tuple) and a.key[0] in ('feq', 'flt') and len(d) == 1 and d[0][0] == d[0][1]:
            x, y = a.key[1], a.key[2]
            k = (x, y) if repr(x) <= repr(y) else (y, x)
            r = 'eq' if a.key[0] == 'feq' else 'lt' if (x, y) == k else 'gt'
            fl.setdefault(k, {})[r] = d[0][0]
    for k, m in fl.items():
        t = sum(m.values())
        if t > 1 or (len(m) == 3 and t == 0):
            return False
    for a, d in list(f.dom.items()):
        if isinstance(a.key, tuple) and a.key[0] == 'category':
            cp = f.norm(a.key[1])
            if len(cp.t) != 1 or cp.t[0][1] != 1:
                if not cp.const:
                    continue
                dom = ((cp.c, cp.c),)
            else:
                dom = tuple((lo + cp.c, hi + cp.c) for lo, hi in f.domain(cp.t[0][0]))
            if not dom or dom[0][0] < 0:
                continue
            if dom[-1][1] >= 0x250:
                if sum(hi - lo + 1 for lo, hi in dom) > 64:
                    continue
                # characters whose category has not changed since Unicode 3.2
                cs = [chr(c) for lo, hi in dom for c in range(lo, hi + 1)]
                if all(unicodedata.category(c) == unicodedata.ucd_3_2_0.category(c) != 'Cn' for c in cs) and not any(
                        is_contains(d, CATS.index(unicodedata.category(c))) for c in cs):
                    return False
                continue
            if not any(is_contains(d, CATS.index(unicodedata.category(chr(c)))) for lo, hi in dom for c in range(lo, hi + 1)):
                return False
    return True
