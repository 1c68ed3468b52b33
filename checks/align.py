"""contracts of the alignment routines (sync.c), shared by C14, C15 and C16"""
from .common import *

REJECT = 126
I64 = ir.Ty('int', 64)


class Ctl:
    """what an alignment check works with; `want` are the classes of obligations it reports"""
    def __init__(self, ctx, P, want):
        self.ctx, self.P, self.want = ctx, P, want
        self.n = 0

    def interp(self, prims):
        p = {}
        for k, v in prims.items():
            if isinstance(k, str) and not k.startswith('*') and k in self.mod.functions:
                k = (self.name, k)
            p[k] = v
        I = self.ctx.interp(prims=p)
        I.range_hook = ranges(self.P)
        I.array_struct = 'Text'
        return I

    def module(self, name):
        self.name = name
        self.mod = self.P.modules[name]
        self.fields = ir.struct_fields(self.mod)
        return self

    def sync(self):
        return self.module('sync')

    def glob(self, name):
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported('variable %s' % name)
        return interp.glob_atom(self.name if g['internal'] else '', name)

    def off(self, struct, fld):
        return self.fields[struct][1][fld][0]

    def member(self, I, st, base, struct, fld, ty=None):
        o, size = self.fields[struct][1][fld]
        ty = ty or ir.Ty('int', 8 * size)
        return get(I, st, add(base, C(o)), size, ty, (struct, list(self.fields[struct][1]).index(fld)))

    def fn(self, name):
        f = self.mod.functions.get(name)
        if f is None or f.entry is None:
            raise Unsupported('function %s' % name)
        return f

    def need(self, cond, cls, msg, where=None):
        for c in (cls,) if isinstance(cls, str) else cls:
            if c in self.want:
                self.ctx.require(cond, c, msg, where)
                break
        return cond


def head(S, part):
    return S.parts[part.key].head if not hasattr(part, 'head') else part.head


def get(I, st, addr, size=8, ty=None, tag=('ty', 'i64')):
    """the one value memory holds there, or None"""
    r = I.load(st, addr, size, ty or I64, tag)
    r = [x for x in r if libc.consistent(x[0].facts)]
    return r[0][1] if len(r) == 1 else None


def syms(S):
    return {v.sym: v for v in S.vars if v.sym is not None and not v.tmpl}


def holds_tuple(tr, st, ev, ref, direct, same=None):
    """does the tuple tr stay `ref` or become one for which direct(tuple, state, events, ref) is shown, on every way through the loops of ev?
    Returns None if so, else a reason."""
    f = st.facts
    if any(x is None for x in tr):
        return 'unknown value'
    if ref is not None and all(lin_eq(f, a, b) for a, b in zip(tr, ref)):
        return None
    r = direct(tr, st, ev, ref)
    if r is None:
        return None
    for n in range(len(ev) - 1, -1, -1):
        e = ev[n]
        if e[0] != 'loop':
            continue
        S = e[1]
        sy = syms(S)
        if not any(a in sy for x in tr for a, k in x.t):
            continue
        ini = tuple(subst_lin(x, {a: v.init for a, v in sy.items()}) for x in tr)
        w = holds_tuple(ini, S.pre, ev[:n], ref, direct)
        if w is not None:
            return w
        for p in S.parts.values():
            for t in p.trans:
                if not libc.consistent(t.facts):
                    continue
                nxt = tuple(subst_lin(x, {a: t.nxt[v] for a, v in sy.items()}) for x in tr)
                w = holds_tuple(nxt, t.st, list(t.events), tr, direct)
                if w is not None:
                    return w
        return None
    return r


def run_of(I, st, ev, start, end, pair, maxlead=4):
    """is every offset of [start, end) one for which pair(state, offset) is shown, offsets being visited one by one by a loop of ev
    (or few in number)?  None if so, else a reason"""
    f = st.facts
    d = f.norm(sub(end, start))
    if d.const:
        if d.c < 0:
            return 'a run of negative length'
        if d.c > maxlead:
            return 'characters that were not looked at'
        for q in range(d.c):
            w = pair(st, add(start, C(q)))
            if w:
                return w
        return None
    why = 'the length is not that of a run of compared characters'
    for n in range(len(ev) - 1, -1, -1):
        if ev[n][0] != 'loop':
            continue
        S = ev[n][1]
        for v in S.vars:
            if v.sym is None or v.tmpl or v.ty is not None and v.ty.k != 'int' or not S.trans():
                continue
            c = f.norm(sub(end, V(v.sym)))
            for k in (ZERO, ONE):
                z = add(sub(start, v.init), k)
                if not c.const and lin_eq(f, add(V(v.sym), z), end):
                    c = z
                    break
            else:
                z = None
            if not c.const and z is None:
                # counted from the start of the run, or from some other fixed place
                if any(a in syms(S) for a, k in c.t) or not any(a is v.sym for a, k in end.t):
                    continue
            E = add(V(v.sym), c)
            ok = True
            for t in S.trans():
                if not libc.consistent(t.facts):
                    continue
                s = t.facts.norm(sub(t.nxt[v], V(v.sym)))
                if s.const and s.c == 0:
                    continue
                if not (s.const and s.c == 1):
                    ok = False
                    break
                w = pair(t.st, E)
                if w:
                    why = w
                    ok = False
                    break
            if not ok:
                continue
            w = run_of(I, S.pre, ev[:n], start, add(v.init, c), pair, maxlead)
            if w is None:
                return None
            why = w
    return why


def at(x, I, st, arr, i):
    """(value of the character at position i of the array, None) or (None, reason)"""
    p = get(I, st, add(arr, scale(i, 8)), 8, ir.PTR, ('ty', 'ptr'))
    if p is None:
        return None
    return load_at(I, st, p, x.P, 'Char', 'value')


def equal_pair(x, I, st, c1, p, c2, q, what):
    v1, v2 = at(x, I, st, c1, p), at(x, I, st, c2, q)
    if v1 is None or v2 is None:
        return 'which characters are compared is unknown'
    f = st.facts
    if not lin_eq(f, v1, v2):
        return 'two different %s may be matched' % what
    if f.decide(sub(v1, C(REJECT)), '!=') is not True and f.decide(sub(v2, C(REJECT)), '!=') is not True:
        return 'reject characters may be matched'
    return None


def longest_match(x):
    """either nothing is changed and the given length is returned, or a longer run of equal, non-reject characters inside both ranges
    is found, whose places are stored"""
    fn = x.fn('longest_match')
    kinds = [p[0].k for p in fn.params]
    if kinds != ['int', 'ptr', 'int', 'int', 'ptr', 'int', 'int', 'ptr', 'ptr']:
        raise Unsupported('parameters of longest_match')
    I = x.interp({})
    m1, m2 = obj('m1', 8), obj('m2', 8)
    a = dict(maxlen=arg('maxlen', 0, 1 << 40), c1=arg('c1', 1, ptr=True), start1=arg('start1', 0, 1 << 40), stop1=arg('stop1', -1, 1 << 40),
             c2=arg('c2', 1, ptr=True), start2=arg('start2', 0, 1 << 40), stop2=arg('stop2', -1, 1 << 40))
    args = list(a.values()) + [m1, m2]
    st0 = interp.State(Facts())
    ref = (a['maxlen'], get(I, st0, m1), get(I, st0, m2))
    where = 'longest_match'
    seen = 0
    whys = []

    def pair(st, p, q):
        f = st.facts
        if f.decide(sub(a['start1'], p), '<=') is not True or f.decide(sub(p, a['stop1']), '<=') is not True or \
                f.decide(sub(a['start2'], q), '<=') is not True or f.decide(sub(q, a['stop2']), '<=') is not True:
            return 'a match may reach outside the given ranges'
        return equal_pair(x, I, st, a['c1'], p, a['c2'], q, 'characters')

    def direct(tr, st, ev, rf):
        L, p, q = tr
        if rf is not None and st.facts.decide(add(sub(rf[0], L), ONE), '<=') is not True:
            return 'a match that is not longer may replace the longest one'
        return run_of(I, st, ev, p, add(p, L), lambda s, e: pair(s, e, add(sub(e, p), q)))
    outs = live(I.run(fn, args, st0))
    for o in outs:
        x.ctx.paths += 1
        seen += 1
        if o.kind != 'ret':
            continue
        tr = (o.val, get(I, o.st, m1), get(I, o.st, m2))
        whys.append(holds_tuple(tr, o.st, list(o.st.events()), ref, direct))
    x.need(seen > 0, 'matched', 'longest_match returns', where)
    bad = [w for w in whys if w]
    if any('outside' in w for w in bad):
        x.need(False, 'inside', 'longest_match: %s' % bad[0], where)
    x.need(not bad, 'matched', 'longest_match finds runs of equal, non-reject characters, each longer than the one before: %s' % (bad or 'yes'), where)
    if 'longest' in x.want:
        longest(x, I, a, outs, where)


def longest(x, I, a, outs, where):
    """no run longer than the one returned is passed over"""
    done = set()
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        f = o.st.facts
        ls = [S for S in loops_of(o.st) if S.trans()]
        if not ls:
            ok = f.decide(sub(sub(a['stop1'], a['start1']), add(o.val, C(-1))), '<=') is True or \
                f.decide(sub(sub(a['stop2'], a['start2']), add(o.val, C(-1))), '<=') is True
            x.need(ok, 'longest', 'every place is tried', where)
            continue
        if len(ls) != 1:
            raise Unsupported('loops of longest_match')
        S = ls[0]
        if (S.lid, o.val) in done:
            continue
        done.add((S.lid, o.val))
        x.need(over(S, a), 'longest', 'every place is tried where a longer run may start', where)
        for v, k in over(S, a):
            for q in S.exits():
                if not dead(q) and not fatal(S, q):
                    x.need(past(q.st.facts, v, k, a, o.val), 'longest', 'every place is tried where a longer run may start', where)
            for t in S.trans():
                if not libc.consistent(t.facts):
                    continue
                R = subst_lin(o.val, {s: t.nxt[w] for s, w in syms(S).items()})
                inner = [e[1] for e in t.events if e[0] == 'loop' and (e[1].trans() or not e[1].exits() or any(not dead(q) for q in e[1].exits()))]
                skip = [L for L in inner if not over(L, a)]
                inner = [L for L in inner if over(L, a)]
                if not inner and len(skip) == 1:
                    x.need(False, 'longest', 'every place is tried where a longer run may start', where)
                    continue
                if len(inner) != 1:
                    raise Unsupported('loops of longest_match')
                L = inner[0]
                for w, k2 in over(L, a):
                    if k2 == k:
                        raise Unsupported('loops of longest_match')
                    at1 = (V(v.sym), V(w.sym)) if k == '1' else (V(w.sym), V(v.sym))
                    for q in L.exits():
                        if not dead(q) and not fatal(L, q):
                            x.need(past(q.st.facts, w, k2, a, R), 'longest', 'every place is tried where a longer run may start', where)
                    for u in L.trans():
                        if libc.consistent(u.facts):
                            n += 1
                            z = tried(x, I, u, L, at1, a, subst_lin(R, {s: u.nxt[y] for s, y in syms(L).items()}))
                            x.need(not z, 'longest', 'longest_match: %s' % (z or 'the longest run'), where)
    x.need(n > 0, 'longest', 'the places are tried', where)


def over(S, a):
    """[(counter, '1' | '2')] of a loop over the places of a text"""
    return [(v, k) for v, init, step in counters(S) if step == 1 for k in '12' if lin_eq(S.pre.facts, init, a['start' + k])][:1]


def past(f, v, k, a, R):
    """no longer run than R starts from there on"""
    return f.decide(add(sub(sub(a['stop' + k], R), V(v.sym)), ONE), '<=') is True


def tried(x, I, u, L, at1, a, R):
    f = u.facts
    p, q = at1

    def differ(st, i, j):
        h = st.facts
        if h.decide(add(sub(a['stop1'], i), ONE), '<=') is True or h.decide(add(sub(a['stop2'], j), ONE), '<=') is True:
            return True
        v1, v2 = at(x, I, st, a['c1'], i), at(x, I, st, a['c2'], j)
        return v1 is not None and v2 is not None and (h.decide(sub(v1, v2), '!=') is True or
                                                      any(h.decide(sub(v, C(REJECT)), '==') is True for v in (v1, v2)))
    if differ(u.st, p, q):
        return None
    for e in u.events:
        if e[0] != 'loop':
            continue
        for v in e[1].vars:
            if v.sym is None or v.tmpl or v.ty is not None and v.ty.k != 'int':
                continue
            for c in (ZERO, ONE):
                E = add(V(v.sym), add(sub(p, v.init), c))
                if all(dead(o) or fatal(e[1], o) or differ(o.st, E, add(sub(E, p), q)) for o in e[1].exits()) and \
                        f.decide(sub(sub(E, p), R), '<=') is True:
                    return None
    return 'a longer run may be passed over'


def lm_prim(I, fr, ins, st, a):
    """contract of longest_match"""
    f = st.facts
    a = [f.norm(v) for v in a]
    key = (sum(1 for e in st.events() if e[0] == 'lm'), st.extra.get('iter', ()))
    L, x1, x2 = (V(atom(('lm', n) + key, n)) for n in ('len', 'x1', 'x2'))
    out = [(st.event('lm', a, None, None, None, I.line(fr, ins)), a[0])]
    s = st.event('lm', a, L, x1, x2, I.line(fr, ins))
    for c in (sub(add(a[0], ONE), L), sub(a[2], x1), sub(add(x1, L), add(a[3], ONE)), sub(a[5], x2), sub(add(x2, L), add(a[6], ONE))):
        s = s and s.assume(c, '<=')
    if s:
        for p, v in ((a[7], x1), (a[8], x2)):
            b, o = interp.base_of(p)
            if b is None:
                raise Unsupported('place of a match')
            s = s.put(('st', b, o, 8, v, ('ty', 'i64')))
        out.append((s, L))
    return out


def named(name, *keep):
    def h(I, fr, ins, st, a):
        return [(st.event(name, tuple(st.facts.norm(v) for v in a), I.line(fr, ins)), ZERO if ins.ty is not None and ins.ty.k != 'void' else None)]
    return h


def recursion(I, fr, ins, st, fn, a):
    return [(st.event('again', fn.name, tuple(st.facts.norm(v) for v in a), I.line(fr, ins)), None)]


def text_array(I, st, P, text, i):
    return deref(I, st, add(text, scale(i, P.sizeof('Text'))), P, 'Text', 'array')


def deref(I, st, base, P, struct, fld):
    """a member that is a pointer"""
    o, size = P.fields[struct][1][fld]
    return get(I, st, add(base, C(o)), 8, ir.PTR, (struct, list(P.fields[struct][1]).index(fld)))


def segment(I, st, P, sync, i, fld):
    s = deref(I, st, sync, P, 'Sync', 'substr')
    return None if s is None else load_at(I, st, add(s, scale(i, P.sizeof('Substr'))), P, 'Substr', fld)


def spans(S, e, lo, hi):
    """do the values of e over the iterations of S run through lo .. hi-1, each once (up or down)?"""
    for v, init, step in counters(S):
        k = dict(e.t).get(v.sym, 0)
        if not k or abs(k * step) != 1:
            continue
        e0 = subst_lin(e, {v.sym: init})
        up = k * step == 1
        g = S.pre.facts
        if not lin_eq(g, e0, lo if up else sub(hi, ONE)):
            continue
        inr = (lambda t: t.facts.decide(add(sub(e, hi), ONE), '<=')) if up else (lambda t: t.facts.decide(sub(lo, e), '<='))
        end = (lambda o: o.st.facts.decide(sub(hi, e), '<=')) if up else (lambda o: o.st.facts.decide(add(sub(e, lo), ONE), '<='))
        if all(inr(t) is True for t in S.trans()) and all(dead(o) or fatal(S, o) or end(o) is True for o in S.exits()):
            return True
    return False


def has_event(ev, k):
    return any(e[0] == k for e in flat(ev))


def recursive_sync(x):
    """the match found is one of the first text with every other text, by going through the texts with ever shorter runs"""
    P = x.P
    fn = x.fn('recursive_sync')
    if [p[0].k for p in fn.params] != ['ptr', 'int', 'ptr', 'ptr']:
        raise Unsupported('parameters of recursive_sync')
    I = x.interp({'longest_match': lm_prim, 'save_match': named('save'), '*recursion': recursion})
    where = 'recursive_sync'
    N = arg('num', 2, 16)
    lst, text, sync = obj('list'), obj('text'), obj('seg')
    saved = 0
    for o in live(I.run(fn, [lst, N, text, sync])):
        x.ctx.paths += 1
        ev = list(o.st.events())
        sv = [n for n, e in enumerate(ev) if e[0] == 'save']
        if any(e[0] == 'loop' and has_event([e], 'save') for e in ev):
            raise Unsupported('matches saved in a loop')
        x.need(len(sv) <= 1, 'matched', 'one match is saved for a segment', where)
        for n, e in enumerate(ev):
            if e[0] == 'again':
                x.need(bool(sv) and sv[0] < n, 'matched', 'the rest is aligned after the match', where)
        if not sv:
            if o.kind == 'ret':
                x.need(no_common(x, I, o, N, sync), 'longest', 'a segment is only left as it is if nothing in it is common to all texts', where)
            continue
        saved += 1
        e = ev[sv[0]]
        for fld in ('prev', 'next'):
            q = deref(I, o.st, sync, P, 'Sync', fld)
            ag = [c for c in ev[sv[0]:] if c[0] == 'again' and lin_eq(o.st.facts, c[2][3], q)]
            x.need(o.st.facts.decide(q, '==') is True or len(ag) == 1 and all(lin_eq(o.st.facts, u, v) for u, v in zip(ag[0][2], (lst, N, text))),
                   'longest', 'the segments on both sides of a match are aligned in turn', where)
        sl = [c for c in ev[:sv[0]] if c[0] == 'loop' and has_event([c], 'lm')]
        if len(sl) != 1 or has_event([c for c in ev if c[0] != 'loop'], 'lm'):
            raise Unsupported('structure of recursive_sync')
        S = sl[0][1]
        a = e[1]
        f = o.st.facts
        x.need(len(a) == 6 and lin_eq(f, a[0], lst) and lin_eq(f, a[1], N) and lin_eq(f, a[2], sync), 'matched', 'the match is saved in the segment being aligned', where)
        fresh = a[5].one() is not None and a[5].one().obj == 'heap'
        x.need(fresh, 'number', 'a match has a number of its own', where)
        x.need(f.decide(sub(ONE, a[4]), '<=') is True or positive(S, a[4]), 'inside', 'a match is not empty', where)
        w = pairwise(x, I, o, S, a[3], a[4], N, text, sync)
        if w and w.startswith('inside'):
            x.need(False, 'inside', 'recursive_sync: %s' % w, where)
            w = None
        x.need(not w, ('matched', 'longest'), 'every text has the characters of the match at the place given for it: %s' % (w or 'yes'), where)
    x.need(saved > 0, ('matched', 'longest'), 'a match is saved', where)


def no_common(x, I, o, N, sync):
    """is a segment of one text empty, or has a search for the longest common run found nothing?"""
    f = o.st.facts
    ev = list(o.st.events())
    for e in ev:
        if e[0] == 'lm' and e[2] is None:
            return f.decide(e[1][0], '<=') is True
    for S in loops_of(o.st):
        for v, init, step in counters(S):
            i = V(v.sym)
            if f.decide(add(sub(i, N), ONE), '<=') is True and f.decide(scale(i, -1), '<=') is True and \
                    f.decide(segment(I, o.st, x.P, sync, i, 'length'), '<=') is True:
                return True
    return False


def positive(S, g):
    """is the length g of the last pass at least 1 (there is at least one pass)?"""
    sy = syms(S)
    return bool(S.trans()) and all(t.facts.decide(sub(ONE, subst_lin(g, {a: t.nxt[v] for a, v in sy.items()})), '<=') is True
                                   for t in S.trans() if libc.consistent(t.facts))


def pairwise(x, I, o, S, start, g, N, text, sync):
    P = x.P
    sb, so = interp.base_of(start)
    if sb is None or so != ZERO:
        raise Unsupported('places of a match')
    c = counted(S, ONE, N, True)
    if c is None:
        return 'not every text is compared'
    i = V(c.sym) if not isinstance(c, Shifted) else c.sym
    # a match is saved only when all texts have been compared
    if o.st.facts.decide(sub(N, i), '<=') is not True:
        return 'a match is saved before all texts are compared'
    sy = syms(S)
    # before the first pass: the whole segment of the first text
    g0 = subst_lin(g, {a: v.init for a, v in sy.items()})
    s0 = get(I, S.pre, add(start, ZERO))
    q = S.pre.facts
    lo, hi, ln = (segment(I, S.pre, P, sync, ZERO, k) for k in ('start', 'stop', 'length'))
    if not lin_eq(q, s0, lo):
        return 'inside: the first text is not searched from the start of its segment on'
    if not (lin_eq(q, g0, ln) or lin_eq(q, g0, add(sub(hi, lo), ONE))):
        return 'inside: the first text is not searched to the end of its segment'
    for p in S.parts.values():
        old0 = get(I, p.head, start)
        for t in p.trans:
            f = t.facts
            if not libc.consistent(f):
                continue
            lm = [e for e in t.events if e[0] == 'lm']
            if len(lm) != 1 or any(e[0] == 'loop' and has_event([e], 'lm') for e in t.events):
                raise Unsupported('several searches for a text')
            _, a, L, x1, x2, _ = lm[0]
            if L is None:
                return 'a text without a match is passed over'
            if not lin_eq(f, a[0], ZERO):
                return 'the search in a text does not start from nothing'
            if not (lin_eq(f, a[1], text_array(I, p.head, P, text, ZERO)) and lin_eq(f, a[2], old0) and lin_eq(f, add(sub(a[3], a[2]), ONE), g)):
                return 'what is searched for is not the match so far'
            if not (lin_eq(f, a[4], text_array(I, p.head, P, text, i)) and lin_eq(f, a[5], segment(I, p.head, P, sync, i, 'start')) and
                    lin_eq(f, a[6], segment(I, p.head, P, sync, i, 'stop'))):
                return 'a text is not searched in its segment'
            g1 = subst_lin(g, {b: t.nxt[v] for b, v in sy.items()})
            if not lin_eq(f, g1, L):
                return 'the length is not that of the common run'
            w = moved(x, I, t, sb, start, i, x1, x2, old0)
            if w:
                return w
    return None


def moved(x, I, t, sb, start, i, x1, x2, old0):
    """after a pass, start[i] is x2 and start[j], j < i, has been moved by x1 - start[0]"""
    f = t.facts
    off = [e for e in reversed(mem_since(t)) if e[0] != 'hv' and e[1] is sb or e[0] == 'hv' and e[2][1] is sb]
    loops = {e[1].lid: e[1] for e in t.events if e[0] == 'loop'}
    new = None          # what start[i] is
    shift = sub(x1, old0)
    first = False       # start[0] set on its own
    span = None
    for e in off:
        if e[0] == 'st':
            if lin_eq(f, e[2], scale(i, 8)):
                new = e[4]
            elif f.decide(e[2], '==') is True and e[3] == 8:
                if not lin_eq(f, e[4], x1):
                    return 'the place in the first text is not that of the common run'
                first = True
            else:
                return 'a place is stored where it does not belong'
        elif e[0] == 'hv' and e[1] in loops:
            J = loops[e[1]]
            if span is not None:
                return 'the places are moved twice'
            lo = ONE if first else ZERO
            pos = None
            for p in J.parts.values():
                for u in p.trans:
                    if not libc.consistent(u.facts):
                        continue
                    w = [m for m in mem_since(u) if m[0] == 'st' and m[1] is sb]
                    if len(w) != 1 or w[0][3] != 8:
                        return 'not every place is moved once'
                    o8 = w[0][2]
                    if any(k % 8 for a, k in o8.t) or o8.c % 8:
                        raise Unsupported('places of a match')
                    j = Lin(tuple((a, k // 8) for a, k in o8.t), o8.c // 8)
                    pos = j
                    old = get(I, p.head, add(start, o8))
                    if not lin_eq(u.facts, sub(w[0][4], old), shift):
                        return 'a place is not moved by as much as the match in the first text'
            if pos is None or not spans(J, pos, lo, i):
                return 'not exactly the places of the texts already compared are moved'
            span = True
            first = False
        else:
            return 'the places are overwritten'
    if new is None or not lin_eq(f, new, x2):
        return 'the place in a text is not that of the common run'
    if span is None and not first:
        # nothing moved: the run has to start where the match did
        z = t.st.assume(sub(ONE, shift), '<=')
        if z is not None and libc.consistent(z.facts):
            return 'the match in the first text moves, the places in other texts do not'
    return None


def stored(x, S, base, fld, i):
    """(value stored, its iteration) for field fld of element i of the array of substrings at base, for every iteration; None if some
    iteration does not store it"""
    P = x.P
    o, size = P.fields['Substr'][1][fld]
    out = []
    for p in S.parts.values():
        for t in p.trans:
            if not libc.consistent(t.facts):
                continue
            w = [m for m in mem_since(t) if m[0] == 'st' and m[1] is base and lin_eq(t.facts, m[2], add(scale(i, P.sizeof('Substr')), C(o)))]
            if not w:
                return None
            out.append((w[0][4], t, p))
    return out


def stores_of(S, base):
    return any(m[0] == 'st' and m[1] is base for t in S.trans() for m in mem_since(t))


def filled(x, ev, base, N, spec, I):
    """do loops of ev store spec(field, i, state at the start of the pass) in every substring of the array at base?  None or a reason"""
    ls = [e[1] for e in ev if e[0] == 'loop' and stores_of(e[1], base)]
    for fld in ('start', 'stop', 'length'):
        hit = False
        for S in ls:
            c = counted(S, ZERO, N)
            if c is None:
                continue
            i = V(c.sym) if not isinstance(c, Shifted) else c.sym
            st = stored(x, S, base, fld, i)
            if st is None:
                continue
            if hit:
                raise Unsupported('a field stored in several loops')
            hit = True
            for val, t, p in st:
                want = spec(fld, i, p.head)
                if want is None:
                    raise Unsupported('segments')
                if not lin_eq(t.facts, val, want):
                    return 'the %s of a segment is %r instead of %r' % (fld, t.facts.norm(val), t.facts.norm(want))
        if not hit:
            return 'the %s is not stored for every text' % fld
    return None


def emptiness(x, I, ev, st, sub_base, N):
    """what a path found out about the lengths of an array of substrings: 'all' zero, 'some' nonzero, or None"""
    P, f = x.P, st.facts
    o = P.fields['Substr'][1]['length'][0]
    for e in ev:
        if e[0] != 'loop':
            continue
        S = e[1]
        c = counted(S, ZERO, N, True)
        if c is None:
            continue
        i = V(c.sym) if not isinstance(c, Shifted) else c.sym
        a = add(V(sub_base), add(scale(i, P.sizeof('Substr')), C(o)))
        # what may have been seen in each state of the loop
        at = {k: set() for k in S.parts}
        start = tuple(v.init.c if v.init.const else None for v in S.vars if v.flag)
        if start not in at:
            continue
        at[start].add('all')
        known = True
        while known:
            n = sum(map(len, at.values()))
            for k, p in S.parts.items():
                for t in p.trans:
                    if not libc.consistent(t.facts) or not at[k]:
                        continue
                    v = get(I, p.head, a, tag=('Substr', 2))
                    z = None if v is None else t.facts.decide(v, '==')
                    if t.target not in at:
                        known = False
                    elif z is None:
                        at[t.target] |= {'all', 'some'} | at[k]
                    else:
                        at[t.target] |= at[k] if z else {'some'}
            if n == sum(map(len, at.values())):
                break
        gone = [l for l in st.extra.get('left', ()) if l[0] is S]
        if not known or len(gone) != 1:
            continue
        part, out = gone[0][2], gone[0][3]
        seen = set().union(*[at[k] for k, p in S.parts.items() if p is part])
        if seen == {'some'}:
            return 'some'
        if seen != {'all'}:
            continue
        g = out.st.facts
        v = get(I, part.head, a, tag=('Substr', 2))
        if g.decide(sub(N, i), '<=') is True:
            return 'all'
        if v is not None and g.decide(add(sub(i, N), ONE), '<=') is True and g.decide(v, '!=') is True:
            return 'some'
    return None


LISTOPS = ('list_initialize', 'list_insert_first', 'list_insert_last', 'list_insert_before', 'list_insert_after', 'list_remove')


def listops():
    d = {k: event_prim(k, None) for k in LISTOPS}
    d['list_in_array'] = table_in_array_prim
    return d


def calls(ev):
    return [e for e in ev if e[0] == 'call']


def placed(x, e, ref, lst):
    """('before' | 'after' | 'first' | 'last' , item) of an insertion into the list next to ref"""
    n, a = e[1], e[2]
    if n == 'list_insert_before' and a[2] == ref:
        return 'before', a[1], a[0]
    if n == 'list_insert_after' and a[1] == ref:
        return 'after', a[2], a[0]
    if n in ('list_insert_first', 'list_insert_last'):
        return n[12:], a[1], a[0]
    return None, None, None


def save_match(x):
    """a segment is split into what is left of the match, the match and what is right of it"""
    P = x.P
    fn = x.fn('save_match')
    if [p[0].k for p in fn.params] != ['ptr', 'int', 'ptr', 'ptr', 'int', 'ptr']:
        raise Unsupported('parameters of save_match')
    I = x.interp(listops())
    where = 'save_match'
    lst, sync, start = obj('list'), obj('seg'), obj('start')
    N, L, m = arg('num', 1, 16), arg('length', 1, 1 << 40), arg('match', 1, ptr=True)
    st0 = interp.State(Facts())
    subs = deref(I, st0, sync, P, 'Sync', 'substr')
    sb = interp.base_of(subs)[0]
    n = 0
    for o in live(I.run(fn, [lst, N, sync, start, L, m], st0)):
        x.ctx.paths += 1
        n += 1
        ev = list(o.st.events())
        f = o.st.facts
        if any(has_event([e], 'call') for e in ev if e[0] == 'loop'):
            raise Unsupported('segments inserted in a loop')
        wr = [k for k, e in enumerate(ev) if e[0] == 'loop' and stores_of(e[1], sb)]
        if not wr:
            x.need(False, 'split', 'the segment becomes the match', where)
            continue
        # places read before the segment is changed
        def here(fld, i, st):
            return get(I, st, add(start, scale(i, 8)))

        def match(fld, i, st):
            s = here(fld, i, st)
            return {'start': s, 'stop': add(s, sub(L, ONE)), 'length': L}[fld]

        def left(fld, i, st):
            s, b = here(fld, i, st), segment(I, st, P, sync, i, 'start')
            return {'start': b, 'stop': sub(s, ONE), 'length': sub(s, b)}[fld]

        def right(fld, i, st):
            s, e = here(fld, i, st), segment(I, st, P, sync, i, 'stop')
            return {'start': add(s, L), 'stop': e, 'length': sub(add(e, ONE), add(s, L))}[fld]
        w = filled(x, ev, sb, N, match, I)
        x.need(not w, 'split', 'the segment becomes the match: %s' % (w or 'yes'), where)
        x.need(not w, 'matched', 'the segment becomes the match: %s' % (w or 'yes'), where)
        mt = load_at(I, o.st, sync, P, 'Sync', 'match')
        x.need(lin_eq(f, mt, m), 'split', 'the segment is marked as matched', where)
        x.need(lin_eq(f, mt, m), 'matched', 'the segment is marked as matched', where)
        made = sorted({e[1] for S in [ev[k][1] for k in range(len(ev)) if ev[k][0] == 'loop'] for t in S.trans() for e in mem_since(t)
                       if e[0] == 'st' and e[1].obj == 'heap'}, key=lambda a: a.id)
        part = {}
        for nm, spec in (('left', left), ('right', right)):
            c = [b for b in made if filled(x, ev, b, N, spec, I) is None]
            if not x.need(len(c) == 1, 'split', 'the part %s of the match is a segment of its own, from and to the right places%s' % (
                    'before' if nm == 'left' else 'after', '' if c else ': ' + reason(x, ev, made, N, spec, I)), where):
                break
            part[nm] = c[0]
        if len(part) < 2:
            continue
        # the segment is changed last
        for nm in part.values():
            k = [q for q, e in enumerate(ev) if e[0] == 'loop' and stores_of(e[1], nm)]
            if max(k) > min(wr):
                raise Unsupported('the segment is changed before its parts are known')
        ins = [placed(x, e, f.norm(sync), lst) for e in calls(ev) if e[1].startswith('list_insert')]
        x.need(all(p[0] in ('before', 'after') and lin_eq(f, p[2], lst) for p in ins) and not any(e[1] == 'list_remove' for e in calls(ev)), 'split',
               'the parts are put next to the match', where)
        for nm, side in (('left', 'before'), ('right', 'after')):
            got = [p for p in ins if p[0] is not None and base_eq(I, o.st, P, p[1], part[nm])]
            em = emptiness(x, I, ev, o.st, part[nm], N)
            if em is None:
                x.need(False, 'split', 'whether a part is empty is found from the lengths in all texts', where)
                continue
            if em == 'all':
                x.need(not got, 'split', 'a part that is empty in every text is left out', where)
            else:
                x.need(len(got) == 1 and got[0][0] == side, 'split', 'the part %s the match is put there' % side, where)
                if got:
                    x.need(lin_eq(f, load_at(I, o.st, got[0][1], P, 'Sync', 'match'), ZERO), 'split', 'the parts are unmatched', where)
        x.need(len(ins) == sum(1 for nm in part if emptiness(x, I, ev, o.st, part[nm], N) == 'some'), 'split', 'nothing else is put in the list', where)
    x.need(n > 0, 'split', 'a match is saved', where)


def reason(x, ev, made, N, spec, I):
    w = [filled(x, ev, b, N, spec, I) for b in made]
    return min([v for v in w if v] or ['nothing is stored'], key=len)


def base_eq(I, st, P, item, base):
    s = deref(I, st, item, P, 'Sync', 'substr')
    return s is not None and interp.base_of(st.facts.norm(s))[0] is base


def initialize_synclist(x):
    """the first segment is the whole of every text; there is none if all texts are empty"""
    P = x.P
    fn = x.fn('initialize_synclist')
    if [p[0].k for p in fn.params] != ['ptr', 'int', 'ptr']:
        raise Unsupported('parameters of initialize_synclist')
    I = x.interp(listops())
    where = 'initialize_synclist'
    lst, text, N = obj('list'), obj('text'), arg('num', 1, 16)
    n = 0
    for o in live(I.run(fn, [lst, N, text])):
        x.ctx.paths += 1
        n += 1
        ev = list(o.st.events())
        f = o.st.facts

        def whole(fld, i, st):
            c = load_at(I, st, add(text, scale(i, P.sizeof('Text'))), P, 'Text', 'count')
            return {'start': ZERO, 'stop': sub(c, ONE), 'length': c}[fld]
        made = sorted({e[1] for q in ev if q[0] == 'loop' for t in q[1].trans() for e in mem_since(t)
                       if e[0] == 'st' and e[1].obj == 'heap'}, key=lambda a: a.id)
        c = [b for b in made if filled(x, ev, b, N, whole, I) is None]
        if not x.need(len(c) == 1, 'split', 'the first segment covers each whole text%s' % ('' if c else ': ' + reason(x, ev, made, N, whole, I)), where):
            continue
        ini = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'list_initialize' and e[2][0] == f.norm(lst)]
        ins = [(k, e) for k, e in enumerate(ev) if e[0] == 'call' and e[1].startswith('list_insert')]
        em = emptiness(x, I, ev, o.st, c[0], N)
        if em is None:
            x.need(False, 'split', 'whether the texts are empty is found from the lengths of all', where)
        elif em == 'all':
            x.need(not ins, 'split', 'there is no segment if all texts are empty', where)
            x.need(len(ini) == 1, 'split', 'the list starts empty', where)
        else:
            ok = len(ins) == 1 and len(ini) == 1 and ini[0] < ins[0][0] and ins[0][1][1] in ('list_insert_first', 'list_insert_last') and \
                lin_eq(f, ins[0][1][2][0], lst) and base_eq(I, o.st, P, ins[0][1][2][1], c[0])
            x.need(ok, 'split', 'the list holds this one segment', where)
            if ok:
                x.need(lin_eq(f, load_at(I, o.st, ins[0][1][2][1], P, 'Sync', 'match'), ZERO), 'split', 'it is unmatched', where)
    x.need(n > 0, 'split', 'the alignment starts', where)


def number_matches(x):
    """the matched segments get 1, 2, 3, ... in order"""
    P = x.P
    fn = x.fn('number_matches')
    I = x.interp(listops())
    where = 'number_matches'
    lst = obj('list')
    st0 = interp.State(Facts())
    first = load_at(I, st0, lst, P, 'Synclist', 'first')
    ls = []
    for o in live(I.run(fn, [lst], st0)):
        x.ctx.paths += 1
        for S in loops_of(o.st):
            if S not in ls:
                ls.append(S)
    ws = [(S, walk_from(I, S, P, 'Sync')) for S in ls]
    ws = [(S, w) for S, w in ws if w is not None]
    if len(ws) != 1:
        raise Unsupported('loop over the segments')
    S, w = ws[0]
    x.need(lin_eq(S.pre.facts, w.init, first), 'number', 'numbering starts at the first segment', where)
    x.need(all(dead(q) or fatal(S, q) or q.st.facts.decide(V(w.sym), '==') is True for q in S.exits()), 'number', 'all segments are gone through', where)
    n = None
    for p in S.parts.values():
        mt = load_at(I, p.head, V(w.sym), P, 'Sync', 'match')
        for t in p.trans:
            f = t.facts
            if not libc.consistent(f):
                continue
            st = [m for m in mem_since(t)]
            if f.decide(mt, '==') is True:
                x.need(not st, 'number', 'an unmatched segment gets no number', where)
                if n is not None:
                    x.need(lin_eq(f, t.nxt[n], V(n.sym)), 'number', 'an unmatched segment does not count', where)
            elif f.decide(mt, '!=') is True:
                s = [m for m in st if m[0] == 'st']
                b, off = interp.base_of(f.norm(mt))
                if not x.need(len(s) == 1 and len(st) == 1 and s[0][1] is b and s[0][3] == 8 and lin_eq(f, s[0][2], off), 'number', 'a match gets a number', where):
                    continue
                cand = [v for v in S.vars if v.sym is not None and not v.tmpl and v is not w and
                        lin_eq(f, sub(s[0][4], V(v.sym)), f.norm(sub(ONE, v.init)))]
                if not x.need(len(cand) == 1 and lin_eq(f, t.nxt[cand[0]], add(V(cand[0].sym), ONE)) and (n is None or n is cand[0]),
                              'number', 'matches are numbered 1, 2, 3, ... in order', where):
                    continue
                n = cand[0]
            else:
                x.need(False, 'number', 'a match is told from an unmatched segment', where)
    x.need(n is not None, 'number', 'matches are numbered', where)
    if n is not None:
        for t in S.trans():
            for p in S.parts.values():
                if t in p.trans and libc.consistent(t.facts):
                    mt = load_at(I, p.head, V(w.sym), P, 'Sync', 'match')
                    if t.facts.decide(mt, '==') is True:
                        x.need(lin_eq(t.facts, t.nxt[n], V(n.sym)), 'number', 'an unmatched segment does not count', where)


def all_loops(ev):
    for e in ev:
        if e[0] == 'loop':
            yield e[1]
            for p in e[1].parts.values():
                for t in p.trans:
                    yield from all_loops(t.events)
                for q in p.exits:
                    yield from all_loops(q.st.events(p.head.ev) if p.head is not None else [])


def walks(x, I, ev, lst):
    """symbols of loop variables going over the segments of a list from its first one"""
    out = {}
    for S in all_loops(ev):
        w = walk_from(I, S, x.P, 'Sync')
        if w is not None and lin_eq(S.pre.facts, w.init, deref(I, S.pre, lst, x.P, 'Synclist', 'first')):
            out[w.sym] = (S, w)
    return out


def transpose_sync(x):
    """the parts matched with each other are equal runs of two unmatched segments; both get the same number"""
    P = x.P
    fn = x.fn('transpose_sync')
    if [p[0].k for p in fn.params] != ['ptr'] * 4:
        raise Unsupported('parameters of transpose_sync')
    I = x.interp({'longest_match': lm_prim, 'save_match': named('save'), 'initialize_synclist': named('init'), 'number_matches': named('number')})
    where = 'transpose_sync'
    l1, l2, t1, t2 = obj('list1'), obj('list2'), obj('text1'), obj('text2')
    pairs = 0
    seen = set()
    for o in live(I.run(fn, [l1, l2, t1, t2])):
        x.ctx.paths += 1
        ev = list(o.st.events())
        f = o.st.facts
        top = [e for e in ev if e[0] in ('init', 'save', 'number') or e[0] == 'loop' and has_event([e], 'save')]
        if [e[0] for e in top] and any(e[0] == 'save' for e in top):
            raise Unsupported('matches saved outside a loop')
        ini = [e for e in top if e[0] == 'init']
        x.need(sorted(repr(e[1]) for e in ini) == sorted(repr((f.norm(a), ONE, f.norm(b))) for a, b in ((l1, t1), (l2, t2))) and
               top[:2] == ini, 'split', 'the alignment starts with each whole text in a list of its own', where)
        num = [e for e in top if e[0] == 'number']
        x.need(len(num) == 1 and top[-1] is num[0] and num[0][1] == (f.norm(l1),), 'number', 'the matches are numbered in the order of the first text, in the end', where)
        for S in [e[1] for e in top if e[0] == 'loop']:
            if S in seen:
                continue
            seen.add(S)
            w1, w2 = walks(x, I, ev, l1), walks(x, I, ev, l2)
            best = []
            for p in S.parts.values():
                for q in p.exits:
                    x.need(dead(q) or not has_event(q.st.events(p.head.ev), 'save'), 'matched', 'matches are saved in both texts', where)
                for t in p.trans:
                    if not libc.consistent(t.facts):
                        continue
                    pairs += 1
                    tev = list(t.events)
                    sv = [k for k, e in enumerate(tev) if e[0] == 'save']
                    if not x.need(len(sv) == 2, 'matched', 'a match is saved once in each text', where):
                        continue
                    one, two = tev[sv[0]][1], tev[sv[1]][1]
                    g = t.facts
                    if lin_eq(g, one[0], l2):
                        one, two = two, one
                    ok = lin_eq(g, one[0], l1) and lin_eq(g, two[0], l2) and lin_eq(g, one[1], ONE) and lin_eq(g, two[1], ONE)
                    x.need(ok and lin_eq(g, one[4], two[4]), 'matched', 'a match has the same length in both texts', where)
                    x.need(ok and lin_eq(g, one[4], two[4]), 'split', 'a match has the same length in both texts', where)
                    x.need(g.decide(sub(ONE, one[4]), '<=') is True or any(g.decide(z, '!=') is True and told(t.st, tev[:sv[0]], one[4], z) for z in (one[2], two[2])),
                           'inside', 'a match is not empty', where)
                    a = one[5].one()
                    x.need(one[5] == two[5] and a is not None and a.obj == 'heap' and made_in(a, S), 'number',
                           'the two parts of a match share a number of their own', where)
                    if 'longest' in x.want:
                        best.append((one[4], one[2], two[2]))
                        z = every_pair(x, I, t, one[4], w1, w2)
                        x.need(not z, 'longest', 'every two unmatched segments are searched for a longer run: %s' % (z or 'yes'), where)
                    b1, b2 = get(I, t.st, one[3]), get(I, t.st, two[3])
                    tr = (one[4], one[2], two[2], b1, b2)

                    def direct(tr, st, ev, rf):
                        L, s1, s2, p1, p2 = tr
                        h = st.facts
                        if h.decide(L, '==') is True:
                            return None
                        for e in ev:
                            if e[0] == 'lm' and e[2] is not None and lin_eq(h, e[2], L):
                                a = e[1]
                                if not (lin_eq(h, e[3], p1) and lin_eq(h, e[4], p2)):
                                    return 'the places are not those of the run found'
                                if not (s1.one() in w1 and s2.one() in w2):
                                    return 'the segments are not those of the two texts'
                                if not (lin_eq(h, a[1], deref(I, st, t1, P, 'Text', 'array')) and lin_eq(h, a[4], deref(I, st, t2, P, 'Text', 'array'))):
                                    return 'the texts compared are not the two'
                                for s, u, v in ((s1, a[2], a[3]), (s2, a[5], a[6])):
                                    if not (lin_eq(h, u, segment(I, st, P, s, ZERO, 'start')) and lin_eq(h, v, segment(I, st, P, s, ZERO, 'stop'))):
                                        return 'the run is not searched in the segment it is saved in'
                                    if h.decide(load_at(I, st, s, P, 'Sync', 'match'), '==') is not True:
                                        return 'number: a part that is already matched may be matched again'
                                return None
                        return 'the match saved is not one found by a search'
                    w = holds_tuple(tr, t.st, tev[:sv[0]], None, direct)
                    if w and w.startswith('number'):
                        x.need(False, 'number', 'transpose_sync: %s' % w, where)
                        w = None
                    x.need(not w, 'matched', 'length, segments and places of a match belong together: %s' % (w or 'yes'), where)
                    x.need(not w, 'split', 'length, segments and places of a match belong together: %s' % (w or 'yes'), where)
            for q in S.exits():
                if not dead(q) and not fatal(S, q):
                    z = [every_pair(x, I, q, b, w1, w2) for b, *ss in best if q.st.facts.decide(b, '<=') is True or
                         any(q.st.facts.decide(z, '==') is True and told(q.st, list(q.st.events()), b, z) for z in ss)]
                    x.need(None in z, 'longest', 'the search ends when no common run is left: %s' % z, where)
    x.need(pairs > 0, ('matched', 'longest'), 'matches are saved', where)


def told(st, ev, L, s):
    """is the length L 0 whenever the segment s is NULL, and at least 1 whenever it is not?"""
    def direct(tr, st, ev, rf):
        f = st.facts
        if f.decide(tr[0], '==') is True and f.decide(tr[1], '==') is True or f.decide(sub(ONE, tr[0]), '<=') is True and f.decide(tr[1], '!=') is True:
            return None
        return 'a segment without a length'
    return holds_tuple((L, s), st, ev, None, direct) is None


def every_pair(x, I, t, R, w1, w2):
    """was every pair of unmatched segments searched, so that no run longer than R is left?  None if so, else a reason"""
    ev = list(t.events) if hasattr(t, 'events') else list(t.st.events())
    P = x.P

    def small(st, s, b):
        f = st.facts
        m = load_at(I, st, s, P, 'Sync', 'match')
        if m is not None and f.decide(m, '!=') is True:
            return True
        return f.decide(sub(segment(I, st, P, s, ZERO, 'length'), b), '<=') is True

    def through(ev, R, left, had=()):
        why = 'not every segment is looked at'
        for e in ev:
            if e[0] != 'loop':
                continue
            S = e[1]
            k = [q for q in left if any(v.sym in q for v in S.vars)]
            if not k:
                continue
            s = [v.sym for v in S.vars if v.sym in k[0]][0]
            rest = [q for q in left if q is not k[0]]
            for o in S.exits():
                if not dead(o) and not fatal(S, o) and o.st.facts.decide(V(s), '==') is not True:
                    return 'the segments are not looked at to the last'
            bad = None
            for u in S.trans():
                h = u.facts
                if not libc.consistent(h):
                    continue
                R1 = subst_lin(R, {a: u.nxt[v] for a, v in syms(S).items()})
                if h.decide(sub(R, R1), '<=') is not True:
                    bad = 'the longest run may be forgotten'
                    break
                if small(u.st, V(s), R1):
                    continue
                pick = had + ((k[0], V(s)),)
                if rest:
                    bad = through(list(u.events), R1, rest, pick)
                else:
                    bad = searched(u, R1, [v for q in (w1, w2) for c, v in pick if c is q])
                if bad:
                    break
            return bad
        return why

    def searched(u, R1, pair):
        h = u.facts
        for e in u.events:
            if e[0] == 'lm':
                for z, k in zip(pair, (2, 5)):
                    if not (lin_eq(h, e[1][k], segment(I, u.head, P, z, ZERO, 'start')) and lin_eq(h, e[1][k + 1], segment(I, u.head, P, z, ZERO, 'stop'))):
                        return 'a segment is only searched in part'
                if e[2] is None:
                    ok = h.decide(sub(e[1][0], R1), '<=') is True
                else:
                    ok = h.decide(sub(e[2], R1), '<=') is True
                return None if ok else 'a longer run may be passed over'
        return 'two segments may not be searched'
    return through(ev, R, [w1, w2])


def made_in(a, S):
    from engine.loops import key_has
    return key_has(a.key, S.lid)


def synchronize(x):
    """the whole texts are aligned, then the matches are numbered"""
    P = x.P
    I = x.interp({'initialize_synclist': named('init'), 'recursive_sync': named('align'), 'number_matches': named('number')})
    where = 'synchronize'
    fn = x.fn('synchronize')
    if [p[0].k for p in fn.params] != ['ptr', 'int', 'ptr']:
        raise Unsupported('parameters of synchronize')
    lst, text, N = obj('list'), obj('text'), arg('num', -32768, 32767)
    n = 0
    for o in live(I.run(fn, [lst, N, text])):
        x.ctx.paths += 1
        ev = [e for e in o.st.events() if e[0] in ('init', 'align', 'number', 'error')]
        f = o.st.facts
        if any(e[0] == 'error' for e in ev):
            continue
        n += 1
        x.need(f.decide(sub(C(2), N), '<=') is True and f.decide(sub(N, C(16)), '<=') is True, 'inside', 'two to sixteen texts are aligned', where)
        first = deref(I, o.st, lst, P, 'Synclist', 'first')
        ok = bool(ev) and ev[0][0] == 'init' and ev[0][1] == (f.norm(lst), f.norm(N), f.norm(text)) and sum(e[0] == 'init' for e in ev) == 1
        x.need(ok, 'split', 'the alignment starts with the whole texts', where)
        x.need(ev and ev[-1][0] == 'number' and ev[-1][1] == (f.norm(lst),), 'number', 'the matches are numbered in the end', where)
        al = [e for e in ev if e[0] == 'align']
        if f.decide(first, '==') is True:
            x.need(not al, 'split', 'nothing is aligned if there is no text', where)
        else:
            x.need(f.decide(first, '!=') is True and len(al) == 1 and al[0][1] == (f.norm(lst), f.norm(N), f.norm(text), f.norm(first)),
                   'longest', 'the segment of all texts is aligned', where)
    x.need(n > 0, 'split', 'texts are aligned', where)


# ------------------------------------------------------------ shortest edit paths (fastukk_sync, wordacc)
BOTH = ('matched', 'split', 'optimal')


def initial_prim(I, fr, ins, st, a):
    """contract of initial_f: the furthest place on diagonal k that is reached from the previous path, and the diagonal it is reached from"""
    f = st.facts
    a = [f.norm(v) for v in a]
    key = (sum(1 for e in st.events() if e[0] == 'initial'), st.extra.get('iter', ()))
    r, pk = V(atom(('initial',) + key, 'initial', 0, 1 << 40)), V(atom(('from',) + key, 'from', -(1 << 40), 1 << 40))
    b, o = interp.base_of(a[2])
    s = st.event('initial', a, r, pk, I.line(fr, ins)).put(('st', b, o, 8, pk, ('ty', 'i64')))
    return [(s, r)]


def slot(x, I, st, path, k, raw=False):
    """the place stored for diagonal k of a path"""
    F = x.member(I, st, path, 'Path', 'f', ir.PTR)
    if F is None:
        return None
    size = x.fsize
    if x.kind == 'char':
        i = sub(k, x.member(I, st, path, 'Path', 'start_k'))
    else:
        i = half(I, st, add(k, x.member(I, st, path, 'Path', 'p')))
    return addr_slot(x, I, st, F, i, raw)


def addr_slot(x, I, st, F, i, raw=False):
    tag = ('ty', 'i%d' % (8 * x.fsize))
    if raw:
        b, o = interp.base_of(add(F, scale(i, x.fsize)))
        r = I._load(st, st.mem, b, o, x.fsize, ir.Ty('int', 8 * x.fsize), tag) if b is not None else ()
        v = r[0][1] if len(r) == 1 else None
    else:
        v = get(I, st, add(F, scale(i, x.fsize)), x.fsize, ir.Ty('int', 8 * x.fsize), tag)
    if v is not None and x.fsize < 8:
        a = v.one()
        v = a.key[2] if a is not None and a.key[0] == 'trunc' else interp.app('zext', 8 * x.fsize, v, lo=0, hi=(1 << 8 * x.fsize) - 1)
    return v


def half(I, st, e):
    """e >> 1"""
    return I.floordiv(st, st.facts.norm(e), 2)[0][1]


def width(mod, name):
    """size in bytes of a typedef for a number"""
    for n, t in mod.meta.items():
        if 'DW_TAG_typedef' in t and 'name: "%s"' % name in t:
            d = ir.md(mod, n)
            while d and d.get('tag') == 'DW_TAG_typedef' and d.get('baseType'):
                d = ir.md(mod, d['baseType'][1])
            if d and d.get('size'):
                return int(d['size']) // 8
    raise Unsupported('type %s' % name)


def candidates(x, k):
    return (sub(k, ONE), k, add(k, ONE)) if x.kind == 'char' else (sub(k, ONE), add(k, ONE))


def initial_f(x):
    """the furthest of the places the previous path reaches on the neighbouring diagonals, and which diagonal it is"""
    fn = x.fn('initial_f')
    if [p[0].k for p in fn.params] != ['int', 'ptr', 'ptr']:
        raise Unsupported('parameters of initial_f')
    I = x.interp({})
    where = 'initial_f'
    big = 1 << 40
    k, prev, pk = arg('k', -big, big), arg('prev', 0, ptr='null'), obj('prev_k', 8)
    n = 0
    done = set()

    def value(st, c, f, raw=False):
        """what a candidate diagonal offers"""
        v = slot(x, I, st, prev, c, raw)
        if v is None:
            raise Unsupported('places of a path')
        up = f.decide(sub(k, c), '<=')
        if up is None:
            return None
        return add(v, ONE) if up else v

    def inside(st, c, f):
        if x.kind == 'char':
            r = [f.decide(sub(x.member(I, st, prev, 'Path', 'start_k'), c), '<='), f.decide(sub(c, x.member(I, st, prev, 'Path', 'stop_k')), '<=')]
        else:
            p = x.member(I, st, prev, 'Path', 'p')
            r = [f.decide(sub(scale(p, -1), c), '<='), f.decide(sub(c, p), '<=')]
        return False if False in r else True if r == [True, True] else None

    def near(c, f):
        return any(lin_eq(f, c, q) for q in candidates(x, k)) if x.kind != 'char' else \
            f.decide(sub(sub(k, ONE), c), '<=') is True and f.decide(sub(c, add(k, ONE)), '<=') is True

    def fits(c, r, st, f):
        """is the result that of diagonal c, a neighbour the previous path has?"""
        if not near(c, f):
            return 'a diagonal that is no neighbour may be taken'
        if inside(st, c, f) is not True:
            return 'a diagonal the previous path does not have may be taken'
        v = value(st, c, f)
        if v is None or not lin_eq(f, v, r):
            return 'the place is not the one reached from that diagonal'
        return None
    st0 = interp.State(Facts())
    if x.kind == 'word':
        # only every second diagonal is computed, those of the parity of the path (compute_pathlist)
        k = sub(scale(arg('q', 0, big), 2), add(x.member(I, st0, prev, 'Path', 'p'), ONE))
    outs = I.run(fn, [k, ZERO, pk], st0.assume(ZERO, '=='))
    st1 = st0.assume(sub(ONE, prev), '<=')
    if x.kind == 'word':
        # the diagonals computed for a path are those up to its number
        q = x.member(I, st1, prev, 'Path', 'p')
        for c in (scale(q, -1), sub(k, add(q, ONE)), sub(scale(k, -1), add(q, ONE))):
            st1 = st1.assume(c, '<=')
    for o in live(outs) + live(I.run(fn, [k, prev, pk], st1)):
        x.ctx.paths += 1
        f = o.st.facts
        if o.kind != 'ret':
            continue
        n += 1
        if f.decide(sub(ONE, prev), '<=') is not True:
            x.need(f.decide(o.val, '==') is True, BOTH, 'the first path starts at the start', where)
            continue
        if f.decide(prev, '==') is True:
            x.need(f.decide(o.val, '==') is True, BOTH, 'the first path starts at the start', where)
            continue
        r, c = o.val, get(I, o.st, pk)
        ls = [S for S in loops_of(o.st) if any(a in syms(S) for a, q in r.t)]
        if not ls:
            cs = [(q, inside(o.st, q, f)) for q in candidates(x, k)]
            if any(i is None for q, i in cs):
                x.need(False, BOTH, 'only diagonals of the previous path are taken, and all of these that are neighbours', where)
                continue
            cs = [q for q, i in cs if i]
            if not cs:
                continue        # there is no neighbour: excluded for the diagonals that are computed
            w = fits(c, r, o.st, f)
            x.need(not w, BOTH, 'initial_f: %s' % (w or 'the place is that of the diagonal'), where)
            for q in cs:
                v = value(o.st, q, f)
                x.need(v is not None and (lin_eq(f, v, r) or f.decide(sub(v, r), '<=') is True), 'optimal', 'the furthest place is taken', where)
            continue
        S = ls[-1]
        if len(ls) != 1 or S.lid in done:
            if len(ls) != 1:
                raise Unsupported('loops of initial_f')
        done.add(S.lid)
        sy = syms(S)
        # the diagonal of each pass
        ran = None
        for v, init, step in counters(S):
            g = S.pre.facts
            lo = [sub(k, ONE), x.member(I, S.pre, prev, 'Path', 'start_k')] if x.kind == 'char' else None
            if lo is None or step != 1:
                continue
            e = V(v.sym)
            if all(g.decide(sub(q, init), '<=') is True for q in lo):
                ran = v
                x.need(any(lin_eq(g, init, q) for q in lo), 'optimal', 'every neighbouring diagonal is looked at', where)
        if ran is None:
            x.need(False, BOTH, 'the neighbouring diagonals of the previous path are gone through', where)
            continue
        c0 = V(ran.sym)
        res = [v for v in S.vars if v.sym is not None and not v.tmpl and V(v.sym) == r]
        if len(res) != 1:
            raise Unsupported('result of initial_f')
        res = res[0]
        strict = S.pre.facts.decide(add(res.init, ONE), '<=') is not True
        for p in S.parts.values():
            for q in p.exits:
                if dead(q) or fatal(S, q):
                    continue
                h = q.st.facts
                hi = [add(k, ONE), x.member(I, q.st, prev, 'Path', 'stop_k')]
                x.need(any(h.decide(add(sub(z, c0), ONE), '<=') is True for z in hi), 'optimal', 'every neighbouring diagonal is looked at', where)
            old = get(I, p.head, pk)
            for t in p.trans:
                h = t.facts
                if not libc.consistent(h):
                    continue
                r1, c1 = t.nxt[res], get(I, t.st, pk)
                v = value(t.st, c0, h)
                if v is None:
                    x.need(False, BOTH, 'a character of the first text is passed over if and only if the diagonal falls', where)
                    continue
                if lin_eq(h, r1, V(res.sym)) and lin_eq(h, c1, old):
                    u = value(t.st, c0, h, True)
                    x.need(any(h.decide(sub(z, r1), '<=') is True for z in (v, u)), 'optimal', 'the furthest place is taken', where)
                    x.need(not strict or any(h.decide(add(sub(z, r1), ONE), '<=') is True for z in (v, u)), BOTH, 'a diagonal is always found', where)
                else:
                    w = fits(c0, r1, t.st, h)
                    x.need(not w and lin_eq(h, c1, c0), BOTH, 'initial_f: %s' % (w or 'the place and the diagonal belong together'), where)
                    u = value(t.st, c0, h, True)
                    x.need(any(h.decide(sub(V(res.sym), z), '<=') is True for z in (v, u)), 'optimal', 'a place is only replaced by one as far or further', where)
    x.need(n > 0, BOTH, 'initial_f returns', where)


def world(x, I, names):
    """a state in which the variables of the alignment hold given values: {name: value}"""
    st = interp.State(Facts())
    for n, v in names.items():
        st = st.put(('st', x.glob(n), ZERO, 8, v, ('ty', 'ptr' if n in ('a', 'b') else 'i64')))
    return st


def path_args(x):
    big = 1 << 40
    w = dict(m=arg('m', 0, big if x.kind == 'char' else (1 << 16) - 1), n=arg('n', 0, big), a=arg('A', 1, ptr=True), b=arg('B', 1, ptr=True),
             min_k=arg('min_k', -big, big), max_k=arg('max_k', -big, big))
    if x.kind == 'char':
        w['n_m'] = sub(w['n'], w['m'])
    return w


def plain(v):
    """a value stored in a narrower type (the lengths are limited so that nothing is lost)"""
    a = v.one() if v is not None else None
    return a.key[2] if a is not None and a.key[0] == 'trunc' else v


def compute_f(x):
    """from the place initial_f gives, equal characters are passed over; where that ends is the place for this diagonal"""
    P = x.P
    fn = x.fn('compute_f')
    if [p[0].k for p in fn.params] != ['int', 'ptr']:
        raise Unsupported('parameters of compute_f')
    d = listops()
    d['initial_f'] = initial_prim
    I = x.interp(d)
    where = 'compute_f'
    w = path_args(x)
    k, path = arg('k', -(1 << 40), 1 << 40), arg('path', 1, ptr=True)
    what = 'characters' if x.kind == 'char' else 'words'

    def pair(st, i, j):
        f = st.facts
        if f.decide(add(sub(i, w['m']), ONE), '<=') is not True or f.decide(add(sub(j, w['n']), ONE), '<=') is not True:
            return 'a match may reach beyond the end of a text'
        if x.kind == 'char':
            return equal_pair(x, I, st, w['a'], i, w['b'], j, what)
        u, v = (get(I, st, add(q, scale(z, 8)), 8, ir.PTR, ('ty', 'ptr')) for q, z in ((w['a'], i), (w['b'], j)))
        if u is None or v is None or not lin_eq(f, x.member(I, st, u, 'Symbol', 'id', ir.PTR), x.member(I, st, v, 'Symbol', 'id', ir.PTR)):
            return 'two different words may be matched'
        return None
    st0 = world(x, I, w)
    if x.kind == 'word':
        k = sub(scale(arg('q', 0, 1 << 39), 2), x.member(I, st0, path, 'Path', 'p'))
    n = 0
    done = set()
    for o in live(I.run(fn, [k, path], st0)):
        x.ctx.paths += 1
        n += 1
        ev = list(o.st.events())
        f = o.st.facts
        ini = [e for e in ev if e[0] == 'initial']
        if len(ini) != 1:
            raise Unsupported('start of a diagonal')
        _, a, r, pk, _ = ini[0]
        x.need(lin_eq(f, a[0], k) and lin_eq(f, a[1], x.member(I, o.st, path, 'Path', 'prev', ir.PTR)), BOTH,
               'a diagonal starts where the previous path leads to', where)
        # the place stored
        if x.kind == 'char':
            ins = [e for e in calls(ev) if e[1] in ('list_insert_first', 'list_insert_last')]
            if not x.need(len(ins) == 1 and len(calls(ev)) == 1, BOTH, 'one place is stored', where):
                continue
            E = x.member(I, o.st, ins[0][2][1], 'Diag', 'f')
            E = plain(E)
        else:
            E = plain(get(I, o.st, add(x.member(I, o.st, path, 'Path', 'f', ir.PTR),
                                       scale(half(I, o.st, add(k, x.member(I, o.st, path, 'Path', 'p'))), x.fsize)),
                          x.fsize, ir.Ty('int', 8 * x.fsize), ('ty', 'i%d' % (8 * x.fsize))))
        if E is None:
            raise Unsupported('the place stored')
        rs = run_of(I, o.st, ev, r, E, lambda s, e: pair(s, e, add(e, k)), 0)
        x.need(not rs, BOTH if rs and not rs.startswith(('two different', 'reject')) else ('matched', 'optimal'),
               'the place is reached over pairs of equal %s: %s' % (what, rs or 'yes'), where)
        # as far as possible
        ls = [S for S in loops_of(o.st) if any(q in syms(S) for q, z in E.t)]
        for S in ls[:1]:
            if S.lid in done:
                continue
            done.add(S.lid)
            for p in S.parts.values():
                for q in p.exits:
                    if dead(q) or fatal(S, q):
                        continue
                    x.need(stops(x, I, q.st, w, E, add(E, k)), 'optimal', 'a run of equal %s is passed over to its end' % what, where)
        # what need not be looked at any more
        lo, hi = get(I, o.st, V(x.glob('min_k'))), get(I, o.st, V(x.glob('max_k')))
        bounds(x, I, o, w, k, path, E, lo, hi, where)
        if x.kind == 'char':
            order(x, I, o, k, path, ins[0], where)
    x.need(n > 0, BOTH, 'a place is found', where)


def stops(x, I, st, w, i, j):
    f = st.facts
    if f.decide(sub(w['m'], i), '<=') is True or f.decide(sub(w['n'], j), '<=') is True:
        return True
    if x.kind == 'char':
        v1, v2 = at(x, I, st, w['a'], i), at(x, I, st, w['b'], j)
        return v1 is not None and v2 is not None and (f.decide(sub(v1, v2), '!=') is True or any(f.decide(sub(v, C(REJECT)), '==') is True for v in (v1, v2)))
    u, v = (get(I, st, add(q, scale(z, 8)), 8, ir.PTR, ('ty', 'ptr')) for q, z in ((w['a'], i), (w['b'], j)))
    return u is not None and v is not None and \
        f.decide(sub(x.member(I, st, u, 'Symbol', 'id', ir.PTR), x.member(I, st, v, 'Symbol', 'id', ir.PTR)), '!=') is True


def bounds(x, I, o, w, k, path, E, lo, hi, where):
    """diagonals are only left out if no better path can use them"""
    f = o.st.facts
    m, n = w['m'], w['n']
    le = lambda a, b: f.decide(sub(a, b), '<=') is True
    m_end = f.decide(sub(E, m), '==')
    n_end = f.decide(sub(add(E, k), n), '==')
    if lo is None or hi is None:
        raise Unsupported('range of diagonals')
    okl = le(lo, w['min_k']) or m_end is True and le(lo, add(k, ONE))
    okh = le(w['max_k'], hi) or n_end is True and le(sub(k, ONE), hi)
    if x.kind == 'char':
        p = x.member(I, o.st, path, 'Path', 'p')
        d = sub(n, m)
        # the cost of the best path through here is at most p plus what remains of the longer text
        rest = [sub(add(p, m), E), sub(add(p, sub(n, k)), E)]
        okl = okl or all(le(scale(lo, 2), add(sub(ONE, q), d)) for q in rest) or any(
            le(scale(lo, 2), add(sub(ONE, q), d)) and le(z, q) for q, z in (rest, rest[::-1]))
        okh = okh or all(le(sub(add(q, d), ONE), scale(hi, 2)) for q in rest) or any(
            le(sub(add(q, d), ONE), scale(hi, 2)) and le(z, q) for q, z in (rest, rest[::-1]))
    x.need(okl, 'optimal', 'diagonals below are only left out if they cannot be on a better path', where)
    x.need(okh, 'optimal', 'diagonals above are only left out if they cannot be on a better path', where)
    if m_end is not False and n_end is not False:
        # the end of both texts: nothing more is to be done
        s = o.st.assume(sub(E, m), '==')
        s = s and s.assume(sub(k, sub(n, m)), '==')
        if s is not None and libc.consistent(s.facts):
            x.need(s.facts.decide(add(sub(sub(n, m), lo), ONE), '<=') is True, 'optimal', 'the search ends at the end of both texts', where)


def order(x, I, o, k, path, ins, where):
    """the places are listed in the order of their diagonals, start_k to stop_k"""
    f = o.st.facts
    st0 = interp.State(Facts())
    dl = V(x.glob('diaglist'))
    o0, o1 = (x.member(I, st0, path, 'Path', q) for q in ('start_k', 'stop_k'))
    n0, n1 = (x.member(I, o.st, path, 'Path', q) for q in ('start_k', 'stop_k'))
    x.need(lin_eq(f, ins[2][0], dl), BOTH, 'the places of a path are listed together', where)
    cnt = load_at(I, o.st, dl, x.P, 'Diaglist', 'count')
    if f.decide(cnt, '==') is True:
        ok = lin_eq(f, n0, k) and lin_eq(f, n1, k)
    elif f.decide(cnt, '!=') is True:
        ok = ins[1] == 'list_insert_first' and f.decide(add(sub(k, o0), ONE), '<=') is True and lin_eq(f, n0, k) and lin_eq(f, n1, o1) or \
            ins[1] == 'list_insert_last' and f.decide(sub(o0, k), '<=') is True and lin_eq(f, n1, k) and lin_eq(f, n0, o0)
    else:
        ok = False
    x.need(ok, BOTH, 'the places are listed in the order of their diagonals', where)


def diag_prim(x):
    """contract of compute_f: one diagonal is computed for a path"""
    def h(I, fr, ins, st, a):
        f = st.facts
        a = [f.norm(v) for v in a]
        key = (sum(1 for e in st.events() if e[0] == 'diag'), st.extra.get('iter', ()))
        st = st.event('diag', a[0], a[1], I.line(fr, ins))
        for g in ('min_k', 'max_k'):
            st = st.put(('st', x.glob(g), ZERO, 8, V(atom((g,) + key, g)), ('ty', 'i64')))
        b, o = interp.base_of(a[1])
        if x.kind == 'char':
            st = st.put(('hv', ('diag',) + key, ('base', x.glob('diaglist'))))
            for fld in ('start_k', 'stop_k'):
                at = list(x.fields['Path'][1]).index(fld)
                st = st.put(('st', b, add(o, C(x.off('Path', fld))), 8, V(atom((fld,) + key, fld)), ('Path', at)))
        return [(st, None)]
    return h


def events_in(ev, k):
    """the events of kind k, those in loops included"""
    for e in ev:
        if e[0] == k:
            yield e
        elif e[0] == 'loop':
            for t in e[1].trans():
                if libc.consistent(t.facts):
                    yield from events_in(t.events, k)


def compute_pathlist(x):
    """paths are computed one after the other, each with the diagonals that matter, until the end of both texts is reached"""
    P = x.P
    fn = x.fn('compute_pathlist')
    want = ['ptr'] if x.kind == 'char' else []
    if [p[0].k for p in fn.params] != want:
        raise Unsupported('parameters of compute_pathlist')
    d = listops()
    d['compute_f'] = diag_prim(x)
    I = x.interp(d)
    where = 'compute_pathlist'
    if x.kind == 'char':
        text = obj('text')
        outs = I.run(fn, [text])
    else:
        text = None
        w = path_args(x)
        outs = I.run(fn, [], world(x, I, w))
    G = {q: V(x.glob(q)) for q in ('m', 'n', 'a', 'b', 'min_k', 'max_k') + (('n_m',) if x.kind == 'char' else ())}
    seen = set()
    n = 0
    for o in live(outs):
        x.ctx.paths += 1
        n += 1
        ls = [S for S in loops_of(o.st) if any(True for t in S.trans() for e in events_in(t.events, 'diag'))]
        if len(ls) != 1:
            raise Unsupported('loop over the paths')
        S = ls[0]
        if S.lid in seen:
            continue
        seen.add(S.lid)
        g = S.pre.facts
        val = lambda st, q: get(I, st, G[q], 8, ir.PTR if q in 'ab' else I64, ('ty', 'ptr' if q in 'ab' else 'i64'))
        m, nn = val(S.pre, 'm'), val(S.pre, 'n')
        if x.kind == 'char':
            one = add(text, C(P.sizeof('Text')))
            for q, b, fld in (('m', text, 'count'), ('n', one, 'count'), ('a', text, 'array'), ('b', one, 'array')):
                v = load_at(I, S.pre, b, P, 'Text', fld)
                x.need(lin_eq(g, val(S.pre, q), v), BOTH, '%s is the %s of its text' % (q, fld), where)
            x.need(lin_eq(g, val(S.pre, 'n_m'), sub(nn, m)), BOTH, 'the last diagonal is that of the ends of both texts', where)
        x.need(g.decide(add(val(S.pre, 'min_k'), m), '<=') is True, 'optimal', 'no diagonal is left out from the start', where)
        x.need(g.decide(sub(nn, val(S.pre, 'max_k')), '<=') is True, 'optimal', 'no diagonal is left out from the start', where)
        for p in S.parts.values():
            low = val(p.head, 'min_k')
            for q in p.exits:
                if dead(q) or fatal(S, q):
                    continue
                x.need(q.st.facts.decide(add(sub(sub(nn, m), low), ONE), '<=') is True, BOTH, 'the search goes on until the end of both texts is reached', where)
            for t in p.trans:
                if libc.consistent(t.facts):
                    one_path(x, I, S, p, t, m, nn, val, where)
        for q in ('m', 'n', 'a', 'b') + (('n_m',) if x.kind == 'char' else ()):
            x.need(all(lin_eq(t.facts, val(t.st, q), val(S.pre, q)) for t in S.trans() if libc.consistent(t.facts)), BOTH, 'the texts stay the same', where)
    x.need(n > 0, BOTH, 'paths are computed', where)


def one_path(x, I, S, part, t, m, n, val, where):
    f = t.facts
    ev = list(t.events)
    ins = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1].startswith('list_') and lin_eq(f, e[2][0], V(x.glob('pathlist')))]
    if not x.need(len(ins) == 1 and ev[ins[0]][1] == 'list_insert_last', BOTH, 'every path follows the one before', where):
        return
    path = ev[ins[0]][2][1]
    a = path.one()
    x.need(a is not None and a.obj == 'heap' and made_in(a, S), BOTH, 'every path is a path of its own', where)
    p = x.member(I, t.st, path, 'Path', 'p')
    if x.need(p is not None, BOTH, 'paths are numbered', where):
        ok = False
        for v in S.vars:
            if v.sym is None or v.tmpl or v.ty is not None and v.ty.k != 'int':
                continue
            c = f.norm(sub(p, V(v.sym)))
            if c.const and lin_eq(S.pre.facts, add(v.init, c), ZERO) and all(
                    lin_eq(u.facts, u.nxt[v], add(V(v.sym), ONE)) for u in S.trans() if libc.consistent(u.facts)):
                ok = True
        x.need(ok, BOTH, 'paths are numbered from zero', where)
    else:
        return
    runs = []
    for k, e in enumerate(ev):
        if e[0] == 'diag':
            raise Unsupported('a diagonal outside of a loop')
        if e[0] == 'loop' and any(True for u in e[1].trans() for z in events_in(u.events, 'diag')):
            x.need(k > ins[0], BOTH, 'a path is added to the others before it is computed', where)
            runs.append(diagonals(x, I, e[1], path, p, val, where))
        elif e[0] == 'loop' and not e[1].trans() and k > ins[0]:
            # a loop that is not entered here
            runs.append(diagonals(x, I, e[1], path, p, val, where, True))
    runs = [r for r in runs if r]
    step = 1 if x.kind == 'char' else 2
    cover(x, I, S, t, runs, p, step, where)
    if x.kind == 'char':
        listed(x, I, t, ev, path, where)
    else:
        F = x.member(I, t.st, path, 'Path', 'f', ir.PTR)
        b = F.one() if F is not None else None
        x.need(b is not None and b.obj == 'heap' and made_in(b, S), BOTH, 'every path has places of its own', where)


def diagonals(x, I, L, path, p, val, where, idle=False):
    """(direction, first diagonal, loop) of a loop that computes diagonals"""
    run = None
    for part in L.parts.values():
        lo, hi = val(part.head, 'min_k'), val(part.head, 'max_k')
        for u in part.trans:
            if not libc.consistent(u.facts):
                continue
            ds = [e for e in u.events if e[0] == 'diag']
            if len(ds) > 1 or list(events_in(u.events, 'diag')) != ds:
                raise Unsupported('diagonals of a path')
            if not ds:
                continue
            k = ds[0][1]
            for v in L.vars:
                if v.sym is None or v.tmpl:
                    continue
                c = u.facts.norm(sub(k, V(v.sym)))
                if c.const:
                    run = (v, c)
    if run is None:
        if not idle:
            raise Unsupported('diagonals of a path')
        return ('idle', None, L)
    v, c = run
    steps = set()
    for u in L.trans():
        if libc.consistent(u.facts):
            s = u.facts.norm(sub(u.nxt[v], V(v.sym)))
            steps.add(s.c if s.const else None)
    if len(steps) != 1 or None in steps:
        raise Unsupported('order of the diagonals')
    step = steps.pop()
    unit = 1 if x.kind == 'char' else 2
    if not x.need(abs(step) == unit, 'optimal', 'the diagonals of a path are gone through one by one', where):
        return None
    k = add(V(v.sym), c)
    for part in L.parts.values():
        lo, hi = val(part.head, 'min_k'), val(part.head, 'max_k')
        for u in part.trans:
            h = u.facts
            if not libc.consistent(h):
                continue
            ds = [e for e in u.events if e[0] == 'diag']
            if not ds:
                x.need(h.decide(add(sub(k, lo), ONE), '<=') is True or h.decide(add(sub(hi, k), ONE), '<=') is True, 'optimal',
                       'no diagonal is left out that may be on a better path', where)
                continue
            x.need(lin_eq(h, ds[0][1], k) and lin_eq(h, ds[0][2], path), BOTH, 'each diagonal is computed for its path', where)
            x.need(h.decide(sub(k, p), '<=') is True and h.decide(sub(scale(p, -1), k), '<=') is True, BOTH,
                   'only diagonals are computed that the path can reach', where)
        for q in part.exits:
            if dead(q) or fatal(L, q):
                continue
            h = q.st.facts
            if step < 0:
                ok = h.decide(add(sub(k, lo), ONE), '<=') is True or h.decide(add(k, add(p, ONE)), '<=') is True
            else:
                ok = h.decide(add(sub(hi, k), ONE), '<=') is True or h.decide(add(sub(p, k), ONE), '<=') is True
            x.need(ok, 'optimal', 'no diagonal is left out that may be on a better path', where)
    return ('down' if step < 0 else 'up', add(v.init, c), L)


def cover(x, I, S, t, runs, p, step, where):
    """do the runs of diagonals cover those from -p to p, each next to the one before?"""
    f = t.facts
    real = [r for r in runs if r[0] != 'idle']
    ups = [r for r in real if r[0] == 'up']
    downs = [r for r in real if r[0] == 'down']
    if len(ups) > 1 or len(downs) > 1:
        raise Unsupported('diagonals of a path')
    idle = len(real) < len(runs)
    if x.kind == 'word':
        ok = len(real) == 1 and (ups and lin_eq(f, ups[0][1], scale(p, -1)) or downs and lin_eq(f, downs[0][1], p))
        x.need(ok, 'optimal', 'every diagonal of a path is gone through', where)
        return
    if ups and downs:
        u, d = ups[0][1], downs[0][1]
        gap = sub(u, add(d, ONE))
        none = f.decide(gap, '<=') is True or f.decide(add(sub(p, d), ZERO), '<=') is True or f.decide(add(u, p), '<=') is True
        x.need(none, 'optimal', 'every diagonal of a path is gone through', where)
        second = real[1][2]
        for w in second.trans():
            if libc.consistent(w.facts):
                x.need(lin_eq(w.facts, u, add(d, ONE)), BOTH, 'the diagonals of a path lie next to each other', where)
    elif not idle and real:
        v, d = real[0][1], real[0][0]
        pre = real[0][2].pre
        lo, hi = get(I, pre, V(x.glob('min_k'))), get(I, pre, V(x.glob('max_k')))
        g = pre.facts
        if d == 'up':
            ok = g.decide(sub(v, lo), '<=') is True or g.decide(add(v, p), '<=') is True
        else:
            ok = g.decide(sub(hi, v), '<=') is True or g.decide(sub(p, v), '<=') is True
        x.need(ok, 'optimal', 'every diagonal of a path is gone through', where)


def listed(x, I, t, ev, path, where):
    """the places listed are kept with the path, in the same order"""
    dl = V(x.glob('diaglist'))
    ls = [e[1] for e in ev if e[0] == 'loop' and any(c[1] == 'list_remove' for u in e[1].trans() for c in calls(u.events))]
    if not ls:
        # nothing was listed, or nothing is done with it
        first = load_at(I, t.st, dl, x.P, 'Diaglist', 'first')
        x.need(t.facts.decide(first, '==') is True, BOTH, 'the places of a path are kept', where)
        return
    if len(ls) > 1:
        raise Unsupported('places of a path')
    L = ls[0]
    F = x.member(I, L.pre, path, 'Path', 'f', ir.PTR)
    b = F.one() if F is not None else None
    if not x.need(b is not None and b.obj == 'heap' and L.pre.facts.decide(F, '!=') is not False, BOTH, 'every path has places of its own', where):
        return
    for part in L.parts.values():
        first = load_at(I, part.head, dl, x.P, 'Diaglist', 'first')
        for q in part.exits:
            if not dead(q) and not fatal(L, q):
                x.need(q.st.facts.decide(load_at(I, q.st, dl, x.P, 'Diaglist', 'first'), '==') is True, BOTH, 'all places of a path are kept', where)
        for u in part.trans:
            h = u.facts
            if not libc.consistent(h):
                continue
            rm = [e for e in calls(u.events) if e[1] == 'list_remove']
            x.need(len(rm) == 1 and lin_eq(h, rm[0][2][0], dl) and lin_eq(h, rm[0][2][1], first), BOTH, 'the first place listed is kept first', where)
            sts = [e for e in mem_since(u) if e[0] == 'st' and V(e[1]) == F]
            if not x.need(len(sts) == 1 and sts[0][3] == x.fsize, BOTH, 'one place is kept', where):
                continue
            v = plain(sts[0][4])
            x.need(lin_eq(h, v, plain(x.member(I, part.head, first, 'Diag', 'f'))), BOTH, 'the places of a path are kept as they were listed', where)
            ok = False
            for c in L.vars:
                if c.sym is None or c.tmpl or c.ty is not None and c.ty.k != 'int':
                    continue
                z = h.norm(sub(sts[0][2], scale(V(c.sym), x.fsize)))
                if z.const and lin_eq(L.pre.facts, add(scale(c.init, x.fsize), z), ZERO) and lin_eq(h, u.nxt[c], add(V(c.sym), ONE)):
                    ok = True
            x.need(ok, BOTH, 'the places of a path are kept in order', where)


def back(x, I, S, part, t):
    """the path a pass goes over, walking the list of paths backwards, or None"""
    pl = V(x.glob('pathlist'))
    last = load_at(I, part.head, pl, x.P, 'Pathlist', 'last')
    rm = [e for e in calls(t.events) if e[1] == 'list_remove']
    if len(rm) == 1 and lin_eq(t.facts, rm[0][2][0], pl) and lin_eq(t.facts, rm[0][2][1], last):
        return last
    if rm:
        return None
    for v in S.vars:
        if v.sym is None or v.tmpl or not lin_eq(S.pre.facts, v.init, load_at(I, S.pre, pl, x.P, 'Pathlist', 'last')):
            continue
        if lin_eq(t.facts, t.nxt[v], x.member(I, part.head, V(v.sym), 'Path', 'prev', ir.PTR)):
            return V(v.sym)
    return None


def obtain_matches(x):
    """from the end of both texts the paths are followed back; what was passed over on each is a match"""
    P = x.P
    fn = x.fn('obtain_matches')
    if [p[0].k for p in fn.params] != (['ptr'] if x.kind == 'char' else []):
        raise Unsupported('parameters of obtain_matches')
    d = listops()
    d['initial_f'] = initial_prim
    d['save_match'] = named('save')
    I = x.interp(d)
    where = 'obtain_matches'
    w = path_args(x)
    lst = obj('list')
    n = saved = 0
    seen = set()
    for o in live(I.run(fn, [lst] if x.kind == 'char' else [], world(x, I, w))):
        x.ctx.paths += 1
        n += 1
        ls = [S for S in loops_of(o.st) if any(True for t in S.trans() for e in events_in(t.events, 'initial'))]
        if len(ls) != 1:
            raise Unsupported('loop over the paths')
        S = ls[0]
        if S.lid in seen:
            continue
        seen.add(S.lid)
        for part in S.parts.values():
            paths = set()
            for t in part.trans:
                f = t.facts
                if not libc.consistent(f):
                    continue
                path = back(x, I, S, part, t)
                if not x.need(path is not None, BOTH, 'the paths are followed from the last to the first', where):
                    continue
                paths.add(path)
                ev = list(t.events)
                ini = [e for e in ev if e[0] == 'initial']
                if not x.need(len(ini) == 1 and len(list(events_in(ev, 'initial'))) == 1, BOTH, 'every path is left where it was entered', where):
                    continue
                _, a, r, pk, _ = ini[0]
                k = a[0]
                x.need(lin_eq(f, a[1], x.member(I, part.head, path, 'Path', 'prev', ir.PTR)), BOTH, 'a path was entered from the one before', where)
                ok = any(v.sym is not None and not v.tmpl and V(v.sym) == k and lin_eq(S.pre.facts, v.init, sub(w['n'], w['m'])) and
                         lin_eq(f, t.nxt[v], pk) for v in S.vars)
                x.need(ok, BOTH, 'the last path ends on the diagonal of the ends, every other where the next was entered', where)
                E = slot(x, I, part.head, path, k)
                if E is None:
                    raise Unsupported('the place of a path')
                if x.kind == 'char':
                    sv = [e for e in ev if e[0] == 'save']
                    if len(list(events_in(ev, 'save'))) != len(sv):
                        raise Unsupported('matches of a path')
                    if not sv:
                        x.need(f.decide(sub(E, r), '<=') is True, 'optimal', 'what is passed over is a match', where)
                        continue
                    saved += 1
                    a = sv[0][1]
                    s0, s1 = get(I, t.st, a[3]), get(I, t.st, add(a[3], C(8)))
                    x.need(len(sv) == 1 and lin_eq(f, a[0], lst) and lin_eq(f, a[1], C(2)), BOTH, 'the match is saved once for both texts', where)
                    x.need(lin_eq(f, a[2], deref(I, t.st, lst, P, 'Synclist', 'first')), BOTH, 'a match is cut off from the first segment', where)
                    x.need(s0 is not None and s1 is not None and lin_eq(f, s0, r) and lin_eq(f, s1, add(r, k)), BOTH,
                           'a match starts where the path was entered', where)
                    x.need(f.decide(sub(a[4], sub(E, r)), '<=') is True, BOTH, 'a match ends where the path ends', where)
                    x.need(lin_eq(f, a[4], sub(E, r)), 'optimal', 'a match ends where the path ends', where)
                    x.need(f.decide(sub(ONE, a[4]), '<=') is True, 'inside', 'a match is not empty', where)
                    b = a[5].one()
                    x.need(b is not None and b.obj == 'heap' and made_in(b, S), 'number', 'every match has a number of its own', where)
                else:
                    saved += recognized(x, I, S, part, t, ev, w, E, r, where)
            pl = V(x.glob('pathlist'))
            last = load_at(I, part.head, pl, P, 'Pathlist', 'last')
            for q in part.exits:
                if dead(q) or fatal(S, q):
                    continue
                h = q.st.facts
                x.need(any(h.decide(z, '==') is True for z in paths | {last} if z in paths), BOTH, 'all paths are followed', where)
    x.need(n > 0 and saved > 0, BOTH, 'matches are saved', where)


def recognized(x, I, S, part, t, ev, w, E, r, where):
    """the words from r to E are marked as recognized, no others"""
    tag = ('Symbol', list(x.fields['Symbol'][1]).index('recognized'))
    ls = [e[1] for e in ev if e[0] == 'loop' and any(c[0] == 'st' and c[5] == tag for u in e[1].trans() for c in mem_since(u))]
    own = [c for c in mem_since(t) if c[0] == 'st' and c[5] == tag]
    if own:
        raise Unsupported('words recognized')
    if not ls:
        x.need(t.facts.decide(sub(E, r), '<=') is True, 'optimal', 'the words passed over are recognized', where)
        return 0
    if len(ls) > 1:
        raise Unsupported('words recognized')
    L = ls[0]
    o = x.off('Symbol', 'recognized')
    f = t.facts
    n = 0
    for p in L.parts.values():
        idx = None
        for u in p.trans:
            h = u.facts
            if not libc.consistent(h):
                continue
            sts = [c for c in mem_since(u) if c[0] == 'st' and c[5] == tag]
            if not sts:
                x.need(False, 'optimal', 'the words passed over are recognized', where)
                continue
            if not x.need(len(sts) == 1 and h.decide(sts[0][4], '!=') is True, BOTH, 'the words passed over are recognized', where):
                continue
            n += 1
            base = sub(add(V(sts[0][1]), sts[0][2]), C(o)) if sts[0][1] is not None else None
            hit = None
            for v in L.vars:
                if v.sym is None or v.tmpl or v.ty is not None and v.ty.k != 'int':
                    continue
                for c in (-1, 0, 1):
                    i = add(V(v.sym), C(c))
                    q = get(I, p.head, add(w['a'], scale(i, 8)), 8, ir.PTR, ('ty', 'ptr'))
                    if q is not None and base is not None and lin_eq(h, q, base):
                        hit = (v, c, i)
            if not x.need(hit is not None, BOTH, 'the words recognized are those compared', where):
                continue
            v, c, i = hit
            idx = i
            s = h.norm(sub(u.nxt[v], V(v.sym)))
            first = add(v.init, C(c))
            if s == C(-1):
                x.need(L.pre.facts.decide(sub(first, sub(E, ONE)), '<=') is True, BOTH, 'the last word recognized is that where the path ends', where)
                x.need(lin_eq(L.pre.facts, first, sub(E, ONE)), 'optimal', 'the last word recognized is that where the path ends', where)
                x.need(h.decide(sub(r, i), '<=') is True, BOTH, 'the first word recognized is that where the path was entered', where)
            elif s == ONE:
                x.need(L.pre.facts.decide(sub(r, first), '<=') is True, BOTH, 'the first word recognized is that where the path was entered', where)
                x.need(lin_eq(L.pre.facts, first, r), 'optimal', 'the first word recognized is that where the path was entered', where)
                x.need(h.decide(add(sub(i, E), ONE), '<=') is True, BOTH, 'the last word recognized is that where the path ends', where)
            else:
                x.need(False, BOTH, 'the words are recognized one by one', where)
                continue
            for q in p.exits:
                if dead(q) or fatal(L, q):
                    continue
                z = q.st.facts
                x.need(z.decide(add(sub(i, r), ONE), '<=') is True if s == C(-1) else z.decide(sub(E, i), '<=') is True, 'optimal',
                       'all the words passed over are recognized', where)
    return n


def fastukk_sync(x):
    """the whole texts, their paths, the matches on the best one, their numbers"""
    P = x.P
    names = ('initialize_synclist', 'compute_pathlist', 'obtain_matches', 'number_matches')
    I = x.interp({k: named(k) for k in names})
    fn = x.fn('fastukk_sync')
    where = 'fastukk_sync'
    if [p[0].k for p in fn.params] != ['ptr', 'ptr']:
        raise Unsupported('parameters of fastukk_sync')
    lst, text = obj('list'), obj('text')
    spec = {'initialize_synclist': (lst, C(2), text), 'compute_pathlist': (text,), 'obtain_matches': (lst,), 'number_matches': (lst,)}
    n = 0
    cls = {'initialize_synclist': BOTH, 'compute_pathlist': BOTH, 'obtain_matches': BOTH, 'number_matches': 'number'}
    for o in live(I.run(fn, [lst, text])):
        x.ctx.paths += 1
        ev = [e for e in o.st.events() if e[0] in names or e[0] == 'error']
        if any(e[0] == 'error' for e in ev):
            continue
        n += 1
        got = [e[0] for e in ev]
        for k in names:
            x.need(got.count(k) <= 1, cls[k], '%s is done once' % k, where)
            x.need(got.count(k) == 1, 'optimal' if k in ('compute_pathlist', 'obtain_matches') else cls[k], '%s is done' % k, where)
        for e in ev:
            x.need(len(e[1]) == len(spec[e[0]]) and all(lin_eq(o.st.facts, u, v) for u, v in zip(e[1], spec[e[0]])), cls[e[0]],
                   '%s is given what it needs' % e[0], where)
        pos = {k: got.index(k) for k in names if k in got}
        for u, v, c in (('initialize_synclist', 'obtain_matches', BOTH), ('compute_pathlist', 'obtain_matches', BOTH), ('obtain_matches', 'number_matches', 'number')):
            x.need(u not in pos or v not in pos or pos[u] < pos[v], c, '%s before %s' % (u, v), where)
        if x.fsize < 8:
            x.need(o.st.facts.decide(sub(load_at(I, o.st, text, P, 'Text', 'count'), C((1 << 8 * x.fsize) - 1)), '<=') is True, BOTH,
                   'a text with more characters than can be counted is refused', where)
    x.need(n > 0, BOTH, 'texts are aligned', where)


def words(x):
    """the words compared are those of each text, in order, that also occur in the other; none of these is left out"""
    from . import C09
    P = x.P
    where = 'setup'

    def entered(I, u, e, iv):
        o = x.off('Id', 'found')
        v = get(I, u.st, add(e, add(C(o), iv)), 1, ir.Ty('int', 8), ('Id', list(x.fields['Id'][1]).index('found')))
        x.need(v is not None and u.facts.decide(v, '!=') is True, 'optimal', 'it is noted in which text a word occurs', where)
    C09.symbols(x.ctx, P, entered)
    one_array(x)
    d = {'read_text': named('read'), 'find_words': named('words'), 'table_lookup': lookup_prim, 'table_insert': insert_prim}

    def arr(I, fr, ins, st, a):
        f = st.facts
        a = [f.norm(v) for v in a]
        k = sum(1 for e in st.events() if e[0] == 'array')
        r, n = V(atom(('array', k), 'array', 1)), V(atom(('arrlen', k), 'arrlen', 0, 1 << 40))
        b, o = interp.base_of(a[1])
        return [(st.event('array', a, r, n).put(('st', b, o, 8, n, ('ty', 'i64'))), r)]
    d['setup_array'] = arr
    I = x.interp(d)
    fn = x.fn('setup')
    if len(fn.params) != 1:
        raise Unsupported('parameters of setup')
    n = 0
    for o in live(I.run(fn, [arg('argv', 1, ptr=True)])):
        if o.kind != 'ret':
            continue
        x.ctx.paths += 1
        n += 1
        f = o.st.facts
        got = {}
        for e in o.st.events():
            if e[0] == 'array':
                i = f.value(e[1][0])
                x.need(i in (0, 1) and i not in got, BOTH, 'each text is set up once', where)
                got[i] = e
        for i, (v, l) in enumerate((('a', 'm'), ('b', 'n'))):
            e = got.get(i)
            x.need(e is not None and lin_eq(f, get(I, o.st, V(x.glob(v)), 8, ir.PTR, ('ty', 'ptr')), e[2]) and lin_eq(f, get(I, o.st, V(x.glob(l))), e[3]),
                   BOTH, 'the words compared are those of both texts', where)
            if i == 0 and e is not None and x.fsize < 8:
                x.need(f.decide(sub(e[3], C((1 << 8 * x.fsize) - 1)), '<=') is True, BOTH, 'a text with more words than can be counted is refused', where)
        ev = [e[0] for e in o.st.events()]
        x.need('array' in ev and 'loop' in ev and ev.index('loop') < ev.index('array'), BOTH, 'all words are known before they are compared', where)
    x.need(n > 0, BOTH, 'the texts are set up', where)


def one_array(x):
    fn = x.fn('setup_array')
    where = 'setup_array'
    if [p[0].k for p in fn.params] != ['int', 'ptr']:
        raise Unsupported('parameters of setup_array')
    I = x.interp({})
    P = x.P
    ln = obj('len', 8)
    n = 0
    for idx, o in [(k, o) for k in (ZERO, ONE) for o in live(I.run(fn, [k, ln]))]:
        x.ctx.paths += 1
        if o.kind != 'ret':
            continue
        n += 1
        f = o.st.facts
        wl = add(V(interp.glob_atom('', 'wordlist')), scale(idx, P.sizeof('Wordlist')))
        cnt = load_at(I, o.st, wl, P, 'Wordlist', 'count')
        base = get(I, o.st, add(V(x.glob('symbol')), scale(idx, 8)), 8, ir.PTR, ('ty', 'ptr'))
        L = get(I, o.st, ln)
        S = [S for S in loops_of(o.st) if any(mem_since(t) for t in S.trans())]
        if len(S) != 1:
            raise Unsupported('loops of setup_array')
        S = S[0]
        i = counted(S, ZERO, cnt)
        if not x.need(i is not None, 'optimal', 'every word is looked at', where):
            continue
        b = o.val.one()
        x.need(b is not None and b.obj == 'heap', BOTH, 'the words are kept in an array of their own', where)
        ssz = P.sizeof('Symbol')
        for p in S.parts.values():
            for t in p.trans:
                h = t.facts
                if not libc.consistent(h):
                    continue
                at = elements(S, base, ssz)
                fl = []
                for s in at:
                    id_ = get(I, p.head, add(s, C(x.off('Symbol', 'id'))), 8, ir.PTR, ('Symbol', list(x.fields['Symbol'][1]).index('id')))
                    fl += [get(I, p.head, add(id_, add(C(x.off('Id', 'found')), sub(ONE, idx))), 1, ir.Ty('int', 8),
                               ('Id', list(x.fields['Id'][1]).index('found')))] if id_ is not None else []
                sts = [e for e in mem_since(t) if e[0] == 'st' and V(e[1]) == o.val]
                if not sts:
                    x.need(any(v is not None and h.decide(v, '==') is True for v in fl), 'optimal', 'only words that do not occur in the other text are left out', where)
                    x.need(all(lin_eq(h, t.nxt[v], V(v.sym)) for v in S.vars if v.sym is not None and not v.tmpl and any(a is v.sym for a, k in L.t)),
                           BOTH, 'words left out are not counted', where)
                    continue
                e = sts[0]
                x.need(len(sts) == 1 and e[3] == 8 and any(lin_eq(h, e[4], s) for s in at), BOTH, 'the words are kept in their order', where)
                ok = False
                for v in S.vars:
                    if v.sym is None or v.tmpl:
                        continue
                    if lin_eq(h, e[2], scale(V(v.sym), 8)) and S.pre.facts.value(v.init) == 0 and lin_eq(h, t.nxt[v], add(V(v.sym), ONE)) and \
                            lin_eq(f, L, V(v.sym)):
                        ok = True
                x.need(ok, BOTH, 'the words are kept one after the other', where)
    x.need(n > 0, BOTH, 'the words are kept', where)
