"""reading a report that was just written: the lines the writer produces, as a sequence of fixed lines and of lines written in loops, are fed to the reader"""
from .common import *

POS = 'report-line'


class Grammar:
    """lines of one run of a writer: ('line', tokens) or ('rows', loop, [(transition, tokens)])"""
    def __init__(self):
        self.items = []
        self.err = None

    def __len__(self):
        return len(self.items)


def const_of(tok):
    return tok[1] if tok[0] == 'lit' else None


def lines(toks, ends):
    """split a token string into complete lines; (lines, rest)"""
    out, cur = [], []
    for t in toks:
        if t[0] == 'lit':
            parts = t[1].split(b'\n')
            for p in parts[:-1]:
                cur.append(('lit', p + b'\n'))
                out.append(libc.norm_tokens(cur))
                cur = []
            if parts[-1]:
                cur.append(('lit', parts[-1]))
        elif ends(t):
            cur.append(t)
            out.append(libc.norm_tokens(cur))
            cur = []
        else:
            cur.append(t)
    return out, cur


def grammar(events, stream, ends=lambda t: False):
    g = Grammar()
    rest = []
    for e in events:
        if e[0] == 'out':
            if e[1] != stream:
                continue
            ls, rest = lines(list(rest) + list(e[2]), ends)
            g.items += [('line', l) for l in ls]
        elif e[0] == 'loop':
            S = e[1]
            rows = []
            any_ = False
            for t in S.trans():
                if not libc.consistent(t.facts):
                    continue
                tk = []
                for x in t.events:
                    if x[0] == 'out' and x[1] == stream:
                        tk += list(x[2])
                    elif x[0] == 'loop' and any(y[0] == 'out' and y[1] == stream for z in x[1].trans() for y in flat(z.events)):
                        g.err = 'rows of varying shape'
                tk = libc.norm_tokens(tk)
                if not tk:
                    continue
                any_ = True
                ls, r2 = lines(tk, ends)
                if r2 or rest or len(ls) != 1:
                    g.err = 'a row of %d lines' % len(ls)
                    return g
                rows.append((t, ls[0]))
            if any_:
                for o in S.exits():
                    hd = next(p.head for p in S.parts.values() if o in p.exits)
                    if o.kind != 'goto' and not fatal(S, o) and not dead(o):
                        g.err = 'the rows end in the middle'
                    if not fatal(S, o) and any(x[0] == 'out' and x[1] == stream for x in flat(o.st.events(hd.ev))):
                        g.err = 'output while leaving the rows'
                g.items.append(('rows', S, rows))
    if rest:
        g.items.append(('line', libc.norm_tokens(rest)))
        g.err = g.err or 'the last line is incomplete'
    return g


def shape(g):
    """hashable description of the grammar, to tell runs of the writer apart"""
    return tuple((i[0], i[1]) if i[0] == 'line' else ('rows', i[1].lid, tuple(l for t, l in i[2])) for i in g.items)


# ------------------------------------------------------------ fixed width
def fixed(toks):
    """numbers fit their columns (an assumption of these formats): the width of a token is its field width"""
    out = []
    for t in toks:
        if t[0] in ('int', 'flt') and isinstance(t[1], int) and t[1] >= 8:
            t = ('fix', t[1], t)
        elif t[0] == 'int' and t[1] == 2:
            t = ('fix', 2, t)
        out.append(t)
    return tuple(out)


def outside(f, g):
    """the facts of a run of the writer that are not about the last iteration of one of its loops"""
    from engine.loops import variant
    lids = [i[1].lid for i in g.items if i[0] == 'rows']

    def keep(l):
        return not any(variant(l, x) for x in lids)
    h = Facts()
    for l in f.le:
        if keep(l):
            h = h.assume(l, '<=')
    for l in f.ne:
        if keep(l):
            h = h.assume(l, '!=')
    for a, d in f.dom.items():
        if keep(V(a)):
            h = h.assume_dom(a, d)
    return h


def renamed(f, S, t, toks, inst):
    """the row written by an iteration of the loop S of the writer, as one of many: the variables of the loop get names of their own"""
    m = {}
    for v in S.vars:
        if v.sym is not None:
            a = atom(('row', S.lid, v.name) + inst, '%s.row' % v.name, v.sym.lo, v.sym.hi, None, v.sym.fl)
            if v.sym.meta and v.sym.meta.get('ptr'):
                interp.mkptr(a)
            m[v.sym] = V(a)

    def sb(x):
        if isinstance(x, Lin):
            return deep_subst(x, m)
        if isinstance(x, tuple):
            return tuple(sb(y) for y in x)
        return x
    for l in t.facts.le:
        f = f.assume(sb(l), '<=')
        if f is None:
            return None, None
    for l in t.facts.ne:
        f = f.assume(sb(l), '!=')
        if f is None:
            return None, None
    for a, d in t.facts.dom.items():
        x = sb(V(a))
        b = x.one()
        if b is not None:
            f = f.assume_dom(b, d)
        elif x.const and not is_contains(d, x.c):
            return None, None
        if f is None:
            return None, None
    return f, sb(toks)


class Feed:
    """input primitives reading the lines of a grammar; cuts: the file ends before this line; bad: this line is something else"""
    def __init__(self, g, cut=None, other=None):
        self.g, self.cut, self.other = g, cut, other

    def at(self, I, st, k):
        """[(state, tokens or None at the end of file)] for the next line at position k"""
        g = self.g
        if self.cut is not None and k >= self.cut or k >= len(g):
            return [(st.setx(POS, C(k)).event('line', k, None), None)]
        it = g.items[k]
        if it[0] == 'line':
            return [(st.setx(POS, C(k + 1)).event('line', k, it[1]), it[1] if self.other != k else ())]
        out = []
        n = sum(1 for e in st.events() if e[0] == 'line')
        for t, l in it[2]:
            f, l = renamed(st.facts, it[1], t, l, (st.extra.get('iter', ()), n))
            if f is None:
                continue
            out.append((st.with_facts(f).setx(POS, C(k)).event('line', k, l), l))
        return out + self.at(I, st, k + 1)

    def next(self, I, st):
        p = st.facts.norm(st.extra[POS])
        if p.const:
            return self.at(I, st, p.c)
        out = []
        for k in range(len(self.g) + 1):
            s = st.assume(sub(p, C(k)), '==')
            if s is not None:
                out += self.at(I, s, k)
        return out

    def fgets(self, I, fr, ins, st, a):
        out = []
        for s, l in self.next(I, st):
            if l is None:
                out.append((s, ZERO))
            else:
                out.append((libc.buf_put(I, fr, ins, s, a[0], list(fixed(l)) or [('other', 'line')]).event('room', s.facts.norm(a[1]), l), a[0]))
        return out

    def getline(self, I, fr, ins, st, a):
        out = []
        for s, l in self.next(I, st):
            if l is None:
                out.append((s, C(-1)))
                continue
            toks = list(fixed(l)) or [('other', 'line')]
            b, o = interp.base_of(s.facts.norm(a[0]))
            h = atom(('buffer', b, o), 'line', obj='heap')
            s = s.put(('st', b, o, 8, V(h), None)).put(('str', h, ZERO, libc.norm_tokens(toks)))
            n = libc.toks_len(libc.norm_tokens(toks))
            s = s.assume(sub(ONE, n), '<=')
            if s is not None:
                out.append((s, n))
        return out

    def prims(self):
        return dict(fgets=self.fgets, getline=self.getline, sscanf=p_sscanf, __isoc99_sscanf=p_sscanf, __isoc23_sscanf=p_sscanf, atoi=p_atoi, atol=p_atoi,
                    strtol=p_strtol, utf8proc_iterate=p_iterate)


WS = b' \t\n\v\f\r'


def inner(t):
    return t[2] if t[0] == 'fix' else t


def skip_ws(toks):
    toks = list(toks)
    while toks and toks[0][0] == 'lit':
        r = toks[0][1].lstrip(WS)
        if r:
            toks[0] = ('lit', r)
            break
        toks.pop(0)
    return toks


def number(I, toks, base=10):
    """(value Lin or None when this is no number, remaining tokens) of the text; raises when that cannot be told"""
    toks = skip_ws(toks)
    if not toks:
        return None, toks
    t = inner(toks[0])
    if t[0] == 'lit':
        import re
        m = re.match(rb'[+-]?(0[xX][0-9a-fA-F]+|[0-9a-fA-F]+)' if base == 16 else rb'[+-]?\d+', t[1])
        if not m:
            if re.match(rb'[+-]$', t[1]) and len(toks) > 1:
                raise Unsupported('number %r' % (toks[:2],))
            return None, toks
        if m.end() == len(t[1]) and len(toks) > 1:
            nx = inner(toks[1])
            if nx[0] in ('int', 'hex', 'flt', 'str', 'sacc'):
                raise Unsupported('number running into %r' % (nx,))
        return C(int(m.group(), base)), [('lit', t[1][m.end():])] * (m.end() < len(t[1])) + toks[1:]
    if t[0] == 'int' and base == 10 or t[0] == 'hex' and base == 16:
        rest = toks[1:]
        nx = inner(rest[0]) if rest else ('lit', b'')
        if nx[0] == 'lit' and (not nx[1] or not nx[1][:1].isalnum()):
            return t[2 if False else 3] if t[0] == 'int' else t[4], rest
        if nx[0] == 'int' and nx[1] > 0:
            # padded in front only as long as the number is narrow
            return V(atom(('digits', t, nx), 'digits')), [('rest', t)] + rest[1:]
        if nx[0] in ('flt', 'hex', 'u8', 'str'):
            return V(atom(('digits', t, nx), 'digits')), [('rest', t)] + rest[1:]
        raise Unsupported('number followed by %r' % (nx,))
    if t[0] in ('hex', 'int'):
        # digits of another base
        return V(atom(('digits', t, base), 'digits')), [('rest', t)] + toks[1:]
    if t[0] == 'other' or t[0] == 'rest' and t[1][0] == 'flt' and t[1][3]:
        return None, toks       # the point
    if t[0] == 'flt':
        if base == 10:
            # the integer part
            return V(atom(('intpart', t), 'intpart')), [('rest', t)] + toks[1:]
    if t[0] == 'u8' and base in (10, 16):
        raise Unsupported('number in a text of any characters')
    raise Unsupported('number in %r' % (t,))


def p_sscanf(I, fr, ins, st, a):
    fmt = libc.format_const(I, st, a[1])
    start = libc.norm_tokens(libc.string_tokens(I, st, a[0]))
    toks = list(start)
    maybe = []
    n, k, args = 0, 0, [st.facts.norm(x) for x in a[2:]]
    failed = False
    while k < len(fmt):
        c = fmt[k:k + 1]
        if c in WS and c != b'':
            toks = skip_ws(toks)
            k += 1
            continue
        if c != b'%':
            if toks and toks[0][0] == 'lit' and toks[0][1][:1] == c:
                toks[0] = ('lit', toks[0][1][1:])
                if not toks[0][1]:
                    toks.pop(0)
                k += 1
                continue
            if toks and inner(toks[0])[0] not in ('lit', 'other'):
                raise Unsupported('sscanf format %r' % fmt)
            failed = True
            break
        import re
        m = re.match(rb'%(\*?)(\d*)(hh|h|ll|l)?([dixXun])', fmt[k:])
        if not m:
            raise Unsupported('sscanf format %r' % fmt)
        k += m.end()
        star, w, ln, cv = m.groups()
        if w:
            raise Unsupported('sscanf width')
        size = {b'l': 8, b'll': 8, None: 4, b'h': 2, b'hh': 1}[ln]
        if cv == b'n':
            off = sub(libc.toks_len(start), libc.toks_len(libc.norm_tokens(toks)))
            st = store(I, fr, ins, st, args.pop(0), off, size)
            continue
        if not skip_ws(toks) and n == 0:
            return [(st, C(-1))]
        try:
            v, toks2 = number(I, toks, 16 if cv in b'xX' else 10)
        except Unsupported:
            # perhaps no number
            maybe.append((st, C(n)))
            v, toks2 = V(atom(('number in', tuple(toks)), 'number')), [('rest', tuple(toks))]
        if v is None:
            failed = True
            break
        toks = toks2
        if star:
            continue
        st = store(I, fr, ins, st, args.pop(0), v, size)
        n += 1
    return maybe + [(st, C(n))]


def store(I, fr, ins, st, addr, v, size):
    b, o = interp.base_of(addr)
    if I.access_hook:
        st = I.access_hook(I, fr, ins, st, addr, size, 'store')
    tag = None
    return st.put(('st', b, o, size, st.facts.norm(v), tag))


def p_atoi(I, fr, ins, st, a):
    toks = libc.norm_tokens(libc.string_tokens(I, st, a[0]))
    try:
        v, r = number(I, toks)
    except Unsupported:
        v = V(atom(('number in', tuple(toks)), 'number', -2 ** 31, 2 ** 31 - 1))
    return [(st, v if v is not None else ZERO)]


def p_strtol(I, fr, ins, st, a):
    base = st.facts.value(st.facts.norm(a[2]))
    end = st.facts.norm(a[1])
    if base not in (10, 16):
        raise Unsupported('strtol base')
    toks = libc.norm_tokens(libc.string_tokens(I, st, a[0]))
    try:
        v, r = number(I, toks, base)
    except Unsupported:
        v, r = V(atom(('number in', tuple(toks)), 'number')), [('rest', tuple(toks))]
    if not (end.const and end.c == 0):
        n = ZERO if v is None else sub(libc.toks_len(toks), libc.toks_len(libc.norm_tokens(r)))
        st = store(I, fr, ins, st, end, add(a[0], n), 8)
    return [(st, v if v is not None else ZERO)]


def p_iterate(I, fr, ins, st, a):
    """utf8proc_iterate on a text whose first character is known as such"""
    toks = libc.norm_tokens(libc.string_tokens(I, st, a[0]))
    lim = st.facts.value(st.facts.norm(a[1]))
    if lim is None or 0 <= lim < 4:
        raise Unsupported('utf8proc_iterate limit')
    if not toks:
        return [(store(I, fr, ins, st, st.facts.norm(a[2]), ZERO, 4), ONE)]
    t = toks[0]
    if t[0] == 'lit':
        for n in range(1, 5):
            try:
                c = t[1][:n].decode('utf-8')
            except UnicodeDecodeError:
                continue
            return [(store(I, fr, ins, st, st.facts.norm(a[2]), C(ord(c)), 4), C(n))]
        raise Unsupported('utf8proc_iterate on %r' % (t,))
    if t[0] == 'byte':
        s = st.assume(sub(ONE, t[1]), '<=')
        s = s and s.assume(sub(t[1], C(127)), '<=')
        if s is None:
            raise Unsupported('utf8proc_iterate on a byte')
        return [(store(I, fr, ins, s, s.facts.norm(a[2]), t[1], 4), ONE)]
    if t[0] != 'u8':
        # any character, or none
        n = V(atom(('iterate', tuple(toks)), None, -8, 4))
        return [(store(I, fr, ins, st, st.facts.norm(a[2]), V(atom(('char', tuple(toks)), None, -1, 0x10ffff)), 4), n)]
    out = []
    n = libc.u8len(t[1])
    for l, w in ((sub(t[1], C(127)), ONE), (sub(C(128), t[1]), None)):
        s = st.assume(l, '<=')
        if s is None:
            continue
        s = s.assume(sub(n, ONE), '==') if w is not None else s.assume(sub(C(2), n), '<=')
        if s is not None:
            out.append((store(I, fr, ins, s, s.facts.norm(a[2]), t[1], 4), s.facts.norm(n)))
    return out


# ------------------------------------------------------------ the checks
def written(ctx, P, mod, fn, data, I, ends=lambda t: False):
    """[(outcome, grammar)] of the runs of a writer, one for each shape of report"""
    name = arg('name', 0, ptr='null')
    out, seen = [], set()
    for o in live(I.run(P.modules[mod].functions[fn], [data, name])):
        ev = list(o.st.events())
        op = [e for e in ev if e[0] == 'open']
        ctx.paths += 1
        if o.kind != 'ret':
            if not any(e[0] in ('error', 'exit') for e in ev):
                ctx.fail('writing', 'a report is written', fn)
            continue
        ok = len(op) == 1 and lin_eq(o.st.facts, op[0][1], name) and op[0][2] == b'w' and \
            [e[1] for e in ev if e[0] == 'close'] == [op[0][3]] and all(e[1] == op[0][3] for e in flat(ev) if e[0] == 'out')
        ctx.require(ok, 'writing', 'the report is written to the file asked for, which is closed', fn)
        if not ok:
            continue
        g = grammar(ev, op[0][3], ends)
        if g.err and g.err.startswith('a row of'):
            ctx.fail('writing', 'each row is one line (%s)' % g.err, fn)
            continue
        if g.err:
            raise Unsupported('%s: %s' % (fn, g.err))
        out.append((o, g))
    ctx.require(bool(out), 'writing', 'a report is written', fn)
    return out


def reading(ctx, P, mod, fn, target, g, facts, prims, setup=None, feed=None, range_hook=None, st=None):
    """outcomes of reading a report"""
    fd = feed or Feed(g)
    pr = fd.prims()
    pr.update(prims)
    I = ctx.interp(prims=pr)
    I.opts['u8bytes'] = I.opts['small_counters'] = True
    I.range_hook = range_hook or ranges(P)
    st = (st or interp.State(facts)).with_facts(outside(facts, g)).setx(POS, ZERO)
    if setup:
        st = setup(I, st)
    name = arg('name2', 0, ptr='null')
    return I, name, live(I.run(P.modules[mod].functions[fn], [target, name], st))


def strictness(ctx, P, mod, fn, target, g, facts, prims, values, others, last, **kw):
    """a file lacking one of the first lines, or having something else there, is refused"""
    for k, subst in [(k, None) for k in range(last + 1)] + [(k, x) for k in sorted(others) for x in others[k]]:
        fd = Feed(g, cut=k) if subst is None else Feed(replaced(g, k, subst))
        I, name, outs = reading(ctx, P, mod, fn, target, g, facts, prims, feed=fd, **kw)
        for r in outs:
            ctx.paths += 1
            refused = r.kind == 'exit' and any(e[0] == 'error' for e in r.st.events())
            what = 'a file ending before line %d is refused' % (k + 1) if subst is None else 'a file with %r for line %d is refused' % (subst, k + 1)
            ctx.require(refused, 'strict', what, fn)


def replaced(g, k, b):
    h = Grammar()
    h.items = list(g.items)
    h.items[k] = ('line', (('lit', b),) if b else ())
    return h


def accepted(ctx, o, name, g, fn):
    """a report is accepted and read to its end"""
    ev = list(o.st.events())
    f = o.st.facts
    op = [e for e in ev if e[0] == 'open']
    if o.kind != 'ret':
        ctx.fail('roundtrip', 'a report that was written is accepted (%s)' % [e[1] for e in ev if e[0] == 'error'], fn)
        return False
    ok = len(op) == 1 and lin_eq(f, op[0][1], name) and op[0][2] == b'r' and [e[1] for e in ev if e[0] == 'close'] == [op[0][3]]
    ctx.require(ok, 'roundtrip', 'the report is read from the file asked for, which is closed', fn)
    end = lin_eq(f, o.st.extra[POS], C(len(g)))
    ctx.require(end, 'roundtrip', 'a report is read to its end (line %r of %d)' % (o.st.extra[POS], len(g)), fn)
    return ok and end


def room(ctx, o, fn, bound=None):
    """lines fit into the buffer they are read into"""
    for e in flat(o.st.events()):
        if e[0] == 'room':
            f = o.st.facts
            toks, extra = [], 0
            for x in fixed(e[2]):
                if bound and x[0] == 'str':
                    extra += bound
                elif x[0] == 'hex' and f.bounds_box(f.norm(x[4]))[1] is not None:
                    extra += max(x[1], len('%x' % f.bounds_box(f.norm(x[4]))[1]))
                else:
                    toks.append(x)
            n = add(libc.toks_len(libc.norm_tokens(tuple(toks))), C(extra))
            v = f.value(n)
            if v is None:
                v = f.bounds_box(f.norm(n))[1]
            z = f.value(e[1])
            ctx.require(z is not None and v < z, 'room', 'a line of %s characters fits into the buffer of the reader (%s)' % (v, z), fn)


def sums(ctx, P, tool, struct, reader, writer):
    """main of the tool reads every report into one structure, empty at first, and writes that"""
    from .C11 import one_global
    data = one_global(P, tool, struct)
    b, _ = interp.base_of(data)
    init = P.modules[tool].globals[b.key[2]]['init']
    ctx.require(init is None or init[0] == 'zero', 'sums', 'the sums start at zero', tool)
    I = ctx.interp(prims={'initialize': initialize_prim, reader: event_prim('read', None), writer: event_prim('write', None)})
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    n = 0
    for o in live(I.run(P.modules[tool].functions['main'], [arg('argc0', 0), argv])):
        ctx.paths += 1
        f = o.st.facts
        ev = list(o.st.events())
        if o.kind == 'exit' and any(e[0] == 'error' for e in ev):
            ctx.require(not any(e[0] == 'call' for e in flat(ev)), 'sums', 'nothing is read or written after an error', tool)
            continue
        n += 1
        calls = [e for e in flat(ev) if e[0] == 'call']
        w = [e for e in ev if e[0] == 'call' and e[1] == 'write']
        ok = len(w) == 1 and calls[-1] is w[0] and sum(e[1] == 'write' for e in calls) == 1 and lin_eq(f, w[0][2][0], data) and lin_eq(f, w[0][2][1], ZERO)
        ctx.require(ok, 'sums', 'the sums are written once, to the standard output, after all reports', tool)
        ctx.require(all(lin_eq(f, e[2][0], data) for e in calls), 'sums', 'all reports are read into the same structure', tool)
        ctx.require(visits_all(ev, f, argv, argc, lambda e: e[2][1] if e[0] == 'call' and e[1] == 'read' else None), 'sums', 'each report is read once', tool)
        for e in o.st.entries():
            if e[0] in ('st', 'cp', 'str', 'hv') and (e[1] is b or e[0] == 'hv' and len(e[2]) > 1 and e[2][1] is b):
                ctx.fail('sums', 'only reading changes the sums', tool)
    ctx.require(n >= 1, 'sums', 'main of %s processes reports' % tool, tool)


# ------------------------------------------------------------ percentages
def percents(ctx, f0, g, labels, where):
    """every percentage of a report is that of the two numbers before it in its line (count and misses), or the one its label names;
    where there is nothing to take a part of, a dash is shown. labels: [(label, part, whole)], the first that fits counts"""
    from .C28 import Ring, Reader
    n = 0
    for it in g.items:
        for f, line in [(f0, it[1])] if it[0] == 'line' else [(t.facts, l) for t, l in it[2]]:
            toks = [t[2] if t[0] == 'fix' else t for t in line]
            text = b''.join(t[1] if t[0] == 'lit' else b'\\0' for t in toks)
            fl = [k for k, t in enumerate(toks) if t[0] == 'flt']
            dash = [k for k, t in enumerate(toks) if t[0] == 'lit' and b' ------' in t[1] and b'-------' not in t[1]]
            for k in fl + dash:
                ints = [t[-1] for t in toks[:k] if t[0] == 'int']
                if len(ints) >= 2:
                    whole = f.norm(ints[-2])
                    part = f.norm(sub(ints[-2], ints[-1]))
                else:
                    c = [x for x in labels if x[0] in text]
                    if not c:
                        continue
                    part, whole = f.norm(c[0][1]), f.norm(c[0][2])
                n += 1
                if k in dash:
                    ctx.require(f.decide(whole, '<=') is True, 'percent', 'a dash is shown where there is nothing to take a part of', where)
                    continue
                t = toks[k]
                R = Ring()
                rd = Reader(R, {})
                ok = f.decide(whole, '==') is False and t[3] == 2 and t[4] == 'f'
                try:
                    ok = ok and R.same(rd.lin(f.norm(t[-1])), R.over(R.mul(R.const(100), rd.lin(part)), rd.lin(whole)))
                except Unsupported:
                    ok = False
                ctx.require(ok, 'percent', 'the percentage shown is that of the numbers it stands with', where)
    return n
