"""C28: confidence intervals are the jackknife's."""
from fractions import Fraction

from .common import *
from .C11 import one_global
from .C27 import TOOLS, path2

RULE = ('compute_ci is interpreted over an arbitrary list of observations: its loops are summarised by their generic iterations over the list, every '
        'accumulator by the sum over all observations of what one iteration adds to it, every member of an observation by what the last loop stored. With '
        'these, the values stored for the two bounds are, as rational functions over the totals, the counts and sums of the observations (an algebraic '
        'normal form decides equality), the jackknife mean of n*T - (n-1)*T_i less and plus 1.96 times the root of their variance over n, cut off at 0 and '
        '100 on exactly the paths where they lie beyond. Nothing is computed, but an error raised, exactly when fewer than two observations hold '
        'characters. append_obs appends each observation once and adds it to the totals. main of both tools appends each report once, with the difference '
        'it makes to the totals, and prints the bounds computed of this list, lower first.')
ASSUME = ['rounding is not considered: floating-point operations are taken as those of real numbers', 'reading a report adds its counts to the totals (C05, C06)',
          'file order and argument handling of initialize (C25), lists (C20)', 'the counts of a report are not negative and stay below 2^53']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; algebraic normal form of symbolic floating-point terms with sums'


# ------------------------------------------------------------ rational functions
class Ring:
    """polynomials {monomial: coefficient} over names; a monomial is a sorted tuple of (name, power). Quotients, roots and sums become
    names, equal arguments the same name."""

    def __init__(self):
        self.inv, self.roots = [], []     # (name, polynomial)

    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def name(self, n):
        return {((n, 1),): Fraction(1)}

    def add(self, x, y, k=1):
        out = dict(x)
        for m, c in y.items():
            out[m] = out.get(m, 0) + k * c
            if not out[m]:
                del out[m]
        return out

    def mul(self, x, y):
        out = {}
        for m, c in x.items():
            for n, d in y.items():
                p = dict(m)
                for a, e in n:
                    p[a] = p.get(a, 0) + e
                p = tuple(sorted((a, e) for a, e in p.items() if e))
                out[p] = out.get(p, 0) + c * d
                if not out[p]:
                    del out[p]
        return self.reduce(out)

    def lead(self, D):
        """the name a denominator is solved for: it occurs once, alone, to the first power; that of an observation first"""
        c = [m for m in D if len(m) == 1 and m[0][1] == 1 and sum(1 for n in D if any(a == m[0][0] for a, e in n)) == 1]
        c.sort(key=lambda m: (m[0][0][0] != 'o', m))
        return c[0] if c else None

    def reduce(self, x):
        # name * inverse = (denominator - rest) * inverse
        for _ in range(200):
            for m in x:
                p = dict(m)
                hit = None
                for n, D in self.inv:
                    if n in p:
                        l = self.lead(D)
                        if l and p.get(l[0][0], 0) >= 1:
                            hit = n, D, l
                            break
                if hit:
                    break
            else:
                return x
            n, D, l = hit
            c = x[m]
            rest = dict(p)
            for a in (n, l[0][0]):
                rest[a] -= 1
            rest = {tuple(sorted((a, e) for a, e in rest.items() if e)): c}
            x = {k: v for k, v in x.items() if k != m}
            inner = self.add(self.const(1), self.rawmul({k: v for k, v in D.items() if k != l}, self.name(n)), -1)
            x = self.add(x, self.rawmul(rest, {k: v / D[l] for k, v in inner.items()}))
        raise Unsupported('a quotient of this form')

    def rawmul(self, x, y):
        out = {}
        for m, c in x.items():
            for n, d in y.items():
                p = dict(m)
                for a, e in n:
                    p[a] = p.get(a, 0) + e
                p = tuple(sorted((a, e) for a, e in p.items() if e))
                out[p] = out.get(p, 0) + c * d
                if not out[p]:
                    del out[p]
        return out

    def over(self, x, y):
        if not y:
            raise Unsupported('a division by nothing')
        if len(y) == 1:
            (m, c), = y.items()
            return self.mul(x, {tuple((a, -e) for a, e in m): 1 / c})
        k = y[sorted(y)[0]]
        y = {m: c / k for m, c in y.items()}
        for n, D in self.inv:
            if self.same(D, y):
                break
        else:
            o = any(a[0] == 'o' for m in y for a, e in m)
            n = ('o' if o else 'n', 'inv', len(self.inv))
            self.inv.append((n, y))
        return self.mul(x, {((n, 1),): 1 / k})

    def root(self, x):
        for n, D in self.roots:
            if self.same(D, x):
                return self.name(n)
        n = ('n', 'sqrt', len(self.roots))
        self.roots.append((n, x))
        return self.name(n)

    def same(self, x, y):
        d = self.add(x, y, -1)
        # clear the denominators
        for n, D in self.inv[::-1]:
            k = max([dict(m).get(n, 0) for m in d] or [0])
            if k <= 0:
                continue
            out = {}
            for m, c in d.items():
                p = dict(m)
                e = p.pop(n, 0)
                t = {tuple(sorted(p.items())): c}
                for _ in range(k - e):
                    t = self.rawmul(t, D)
                out = self.add(out, t)
            d = out
        low = {}
        for m in d:
            for a, e in m:
                low[a] = min(low.get(a, 0), e)
        d = self.rawmul(d, {tuple(sorted((a, -e) for a, e in low.items() if e < 0)): Fraction(1)})
        return not d

    def total(self, x, n):
        """the sum of x over all observations; n is their number"""
        out = {}
        for m, c in x.items():
            o = tuple(z for z in m if z[0][0] == 'o')
            r = tuple(z for z in m if z[0][0] != 'o')
            out = self.add(out, self.mul({r: c}, self.name(('n', 'sum', o)) if o else n))
        return out


class Reader:
    """floating-point terms as rational functions; names: what atoms stand for"""

    def __init__(self, R, names):
        self.R, self.names = R, names

    def lin(self, l):
        if not isinstance(l, Lin):
            raise Unsupported('a number of this form: %r' % (l,))
        R = self.R
        out = R.const(Fraction(l.c) if not isinstance(l.c, float) else Fraction(repr(l.c)))
        for a, k in l.t:
            out = R.add(out, R.mul(R.const(k), self.at(a)))
        return out

    def at(self, a):
        if a in self.names:
            return self.names[a]
        R, k = self.R, a.key
        if isinstance(k, tuple):
            if k[0] == 'fconst':
                return R.const(Fraction(repr(k[1])))
            if k[0] == 'i2f':
                return self.lin(k[1])
            if k[0] in ('fadd', 'fsub'):
                return R.add(self.lin(k[1]), self.lin(k[2]), 1 if k[0] == 'fadd' else -1)
            if k[0] in ('fmul', 'mul'):
                return R.mul(self.lin(k[1]), self.lin(k[2]))
            if k[0] == 'fdiv':
                return R.over(self.lin(k[1]), self.lin(k[2]))
            if k[0] == 'fneg':
                return R.mul(R.const(-1), self.lin(k[1]))
            if k[0] == 'pow':
                e = self.lin(k[2])
                if set(e) <= {()} and e.get((), 0) in (0, 1, 2, 3):
                    x, out = self.lin(k[1]), R.const(1)
                    for _ in range(int(e.get((), 0))):
                        out = R.mul(out, x)
                    return out
                if e == {(): Fraction(1, 2)}:
                    return R.root(self.lin(k[1]))
            if k[0] == 'sqrt':
                return R.root(self.lin(k[1]))
        return R.name(('n', 'atom', a.id))


def run(ctx):
    for tool, struct, reader, fields in TOOLS:
        tool = tool.replace('dist', 'ci')
        ctx.P = None
        P = ctx.program(tool)
        if tool == 'accci':
            interval(ctx, P)
            append(ctx, P)
        main(ctx, P, tool, struct, reader, fields)


def interval(ctx, P):
    fn = P.modules['ci'].functions.get('compute_ci')
    if fn is None or len(fn.params) != 3:
        raise Unsupported('anchor vanished: compute_ci')
    I = ctx.interp(prims={})
    obs_count = ('Obs', list(P.fields['Obs'][1]).index('count'))
    I.range_hook = lambda tag, base, off, ty: (0, 1 << 50) if tag == obs_count else ranges(P)(tag, base, off, ty)
    ol, lo, up = obj('obslist', P.sizeof('Obslist')), arg('lower', 1, ptr=True), arg('upper', 1, ptr=True)
    first, cnt = [load_at(I, interp.State(Facts()), ol, P, 'Obslist', x) for x in ('first', 'count')]
    done = few = 0
    for o in live(I.run(fn, [ol, lo, up])):
        ctx.paths += 1
        f = o.st.facts
        enough, seen = observations(ctx, I, P, o, first)
        if o.kind not in ('exit', 'ret'):
            ctx.fail('needed', 'the interval is computed or an error raised', fn.name)
            continue
        if enough is None and not seen and [S for S in loops_of(o.st) if tested(P, I, S)]:
            raise Unsupported('how %s finds out whether there are observations enough' % fn.name)
        if o.kind == 'exit':
            ctx.require(len([e for e in o.st.events() if e[0] == 'error']) == 1, 'needed', 'the tool ends early with an error only', fn.name)
            ctx.require(enough is False, 'needed', 'an error is raised only if fewer than two observations hold characters', fn.name)
            few += 1
            continue
        ctx.require(enough is True, 'needed', 'the interval is computed only if two observations hold characters', fn.name)
        bounds(ctx, I, P, o, fn, ol, lo, up, first, cnt)
        done += 1
    ctx.require(done >= 1 and few >= 1, 'needed', 'there are an interval and an error (%d, %d paths)' % (done, few), fn.name)


def tested(P, I, S):
    return walk_from(I, S, P, 'Obs') is not None and len(S.trans()) > 1


def observations(ctx, I, P, o, first):
    """(True: at least two observations with characters, False: fewer, None: not known, whether something is counted)"""
    f = o.st.facts
    found = False
    for S in loops_of(o.st):
        w = walk_from(I, S, P, 'Obs')
        if w is None:
            continue
        for v in S.vars:
            if v is w or v.sym is None or not isinstance(v.init, Lin) or not v.init.const or v.tmpl or v.sym.key[0] == 'fconst':
                continue
            ds, right = [], lin_eq(f, w.init, first)
            for t in S.trans():
                g = t.facts
                c = load_at(I, t.head, V(w.sym), P, 'Obs', 'count')
                d = sub(t.nxt[v], V(v.sym))
                full = g.decide(c, '<=')
                ds.append(d.c if d.const else None)
                right = right and full is not None and ds[-1] in ((0,) if full else (1, -1))
            if not ds or None in ds or not any(ds) or len(set(d for d in ds if d)) != 1:
                continue
            found = True
            if not right:
                continue
            k = [d for d in ds if d][0]
            seen = scale(sub(V(v.sym), C(v.init.c)), k)
            if f.decide(V(w.sym), '==') is True:
                if f.decide(sub(C(2), seen), '<=') is True:
                    return True, True
                if f.decide(sub(seen, C(1)), '<=') is True:
                    return False, True
            else:
                # left at an observation
                c = load_at(I, S.trans()[0].head, V(w.sym), P, 'Obs', 'count')
                if f.decide(sub(C(2), seen), '<=') is True or (f.decide(sub(C(1), c), '<=') is True and f.decide(sub(C(1), seen), '<=') is True):
                    return True, True
    for S in loops_of(o.st):
        w = walk_from(I, S, P, 'Obs')
        if w is None or len(S.parts) < 2 or not lin_eq(f, w.init, first):
            continue
        r = by_parts(P, I, S, w, o.st)
        if r is not None:
            return r, True
    return None, found


def by_parts(P, I, S, w, st):
    """the same where what was seen so far is kept as a state of the loop: the numbers (at most 2) of observations with characters
    each state may stand for"""
    full = lambda g, head: g.decide(load_at(I, head, V(w.sym), P, 'Obs', 'count'), '<=')
    at = {k: set() for k in S.parts}
    start = [k for k in at if k == tuple(v.init.c if v.init.const else None for v in S.vars if v.flag)]
    if len(start) != 1:
        return None
    at[start[0]] = {0}
    while True:
        n = sum(map(len, at.values()))
        for k, p in S.parts.items():
            for t in p.trans:
                e = full(t.facts, t.head)
                if e is None or t.target not in at:
                    return None
                at[t.target] |= {min(2, c + (not e)) for c in at[k]}
        if n == sum(map(len, at.values())):
            break
    gone = [l for l in st.extra.get('left', ()) if l[0] is S]
    if len(gone) != 1:
        return None
    p, x = gone[0][2:]
    z = x.st.facts.decide(V(w.sym), '==')
    e = full(x.st.facts, p.head)
    res = {c >= 2 if z is True else True if z is False and c + (e is False) >= 2 else None for c in at[next(k for k, q in S.parts.items() if q is p)]}
    return res.pop() if len(res) == 1 else None


def bounds(ctx, I, P, o, fn, ol, lo, up, first, cnt):
    R = Ring()
    f = o.st.facts
    names = {}
    n = ('n', 'obs')
    start = interp.State(Facts())
    N = R.name(n)

    def given(st, base, path, x):
        a = load_at(I, st, base, P, *path).one()
        if a is not None:
            names[a] = x
    Cn, Mn, c, m = (R.name(x) for x in (('n', 'C'), ('n', 'M'), ('o', 'c'), ('o', 'm')))
    given(start, ol, ('Obslist', 'count'), N)
    tot = lambda x: ('Obslist', 'total', ('Obs', x))
    given(start, ol, tot('count'), Cn)
    given(start, ol, tot('missed'), Mn)
    fields = {'count': c, 'missed': m, 'theta': None, 'j': None}
    size = P.sizeof('Obs')
    for S in loops_of(o.st):
        w = walk_from(I, S, P, 'Obs')
        if w is None:
            raise Unsupported('a loop of %s that is not over the observations' % fn.name)
        used = [v for v in S.vars if v is not w and v.sym is not None]
        sums = {}
        whole = lin_eq(f, w.init, first) and all(x.st.facts.decide(V(w.sym), '==') is True for x in S.exits() if not dead(x))
        for t in S.trans():
            for k, x in fields.items():
                a = load_at(I, t.head, V(w.sym), P, 'Obs', k).one()
                if a is not None and x is not None:
                    names[a] = x
            given(t.head, ol, ('Obslist', 'count'), N)
            given(t.head, ol, tot('count'), Cn)
            given(t.head, ol, tot('missed'), Mn)
        rd = Reader(R, names)
        for v in used:
            names[v.sym] = R.name(('n', 'acc', v.sym.id))
        for v in used:
            me = names.pop(v.sym)
            x = {m: k for m, k in me.items()}
            names[v.sym] = x
            inc = []
            for t in S.trans():
                d = R.add(rd.lin(t.facts.norm(t.nxt[v])), x, -1)
                inc.append(d)
            others = {('n', 'acc', u.sym.id) for u in used}
            if not inc or any(not R.same(i, inc[0]) for i in inc) or any(a in others for i in inc for mm in i for a, e in mm) or not whole:
                v_sum = R.name(('n', 'var', v.sym.id))     # not a sum over all observations
            else:
                v_sum = R.add(rd.lin(v.init), R.total(inc[0], N))
            sums[v] = v_sum
        upd = {}
        for t in S.trans():
            now = {}
            for k in fields:
                x = load_at(I, t.st, V(w.sym), P, 'Obs', k)
                y = load_at(I, t.head, V(w.sym), P, 'Obs', k)
                if not lin_eq(t.facts, x, y):
                    now[k] = rd.lin(t.facts.norm(x))
            for e in mem_since(t):
                if e[0] in ('cp',) or (e[0] == 'st' and e[5] and e[5][0] == 'Obs' and not lin_eq(t.facts, V(e[1]), V(w.sym)) and
                                       not lin_eq(t.facts, V(e[1]), ol)):
                    ctx.fail('interval', 'only the observation in hand is changed', S)
            for k in fields:
                upd.setdefault(k, []).append(now.get(k, fields[k]))
        for v in used:
            names[v.sym] = sums[v]
        for k, xs in upd.items():
            x0 = xs[0]
            ok = x0 is not None and all(x is not None and R.same(x, x0) for x in xs)
            fields[k] = x0 if ok and (whole or x0 is fields[k]) else R.name(('o', 'unknown', k, S.lid)) if x0 is not None else None
    rd = Reader(R, names)
    # the specification
    T = R.mul(R.const(100), R.over(R.add(Cn, Mn, -1), Cn))
    Ti = R.mul(R.const(100), R.over(R.add(R.add(Cn, c, -1), R.add(Mn, m, -1), -1), R.add(Cn, c, -1)))
    n1 = R.add(N, R.const(1), -1)
    J = R.add(R.mul(N, T), R.mul(n1, Ti), -1)
    mean = R.over(R.total(J, N), N)
    dev = R.add(J, mean, -1)
    w = R.mul(R.const(Fraction('1.96')), R.root(R.over(R.over(R.total(R.mul(dev, dev), N), n1), N)))
    conds = []
    for a, d in f.dom.items():
        if isinstance(a.key, tuple) and a.key[0] == 'flt' and len(d) == 1 and d[0][0] == d[0][1]:
            conds.append((rd.lin(f.norm(a.key[1])), rd.lin(f.norm(a.key[2])), d[0][0]))

    def known(x, y):
        """x <= y on this path"""
        if any((v == 1 and R.same(a, x) and R.same(b, y)) or (v == 0 and R.same(a, y) and R.same(b, x)) for a, b, v in conds):
            return True
        return False
    zero, full = R.const(0), R.const(100)
    for what, p, want in (('lower', lo, R.add(mean, w, -1)), ('upper', up, R.add(mean, w))):
        r = I.load(o.st, p, 8, ir.Ty('double'), None)
        if len(r) != 1:
            raise Unsupported('the %s bound' % what)
        got = rd.lin(f.norm(r[0][1]))
        if R.same(got, zero):
            ctx.require(known(want, zero), 'clip', 'the %s bound is 0 only if the interval goes beyond' % what, fn.name)
        elif R.same(got, full):
            ctx.require(known(full, want), 'clip', 'the %s bound is 100 only if the interval goes beyond' % what, fn.name)
        else:
            ok = R.same(got, want)
            ctx.require(ok, 'interval', 'the %s bound is that of the jackknife' % what, fn.name)
            if ok:
                ctx.require(known(zero, want) and known(want, full), 'clip', 'the %s bound lies between 0 and 100' % what, fn.name)


def append(ctx, P):
    fn = P.modules['ci'].functions.get('append_obs')
    if fn is None or len(fn.params) != 3:
        raise Unsupported('anchor vanished: append_obs')

    def ins_last(I, fr, ins, st, a):
        x = tuple(st.facts.norm(y) for y in a[:2])
        vals = tuple(load_at(I, st, x[1], P, 'Obs', k) for k in ('count', 'missed'))
        return [(st.event('append', x, vals), None)]
    I = ctx.interp(prims={'list_insert_last': ins_last})
    ol, c, m = obj('obslist', P.sizeof('Obslist')), arg('count', 0, 1 << 50), arg('missed', -(1 << 50), 1 << 50)
    k = 0
    for o in live(I.run(fn, [ol, c, m])):
        ctx.paths += 1
        f = o.st.facts
        if o.kind == 'exit' and any(e[0] == 'error' for e in o.st.events()):
            continue
        k += 1
        ap = [e for e in flat(o.st.events()) if e[0] == 'append']
        late = [load_at(I, o.st, ap[0][1][1], P, 'Obs', x) for x in ('count', 'missed')] if ap else []
        ctx.require(o.kind == 'ret' and len(ap) == 1 and lin_eq(f, ap[0][1][0], ol) and lin_eq(f, late[0], c) and lin_eq(f, late[1], m),
                    'list', 'an observation is appended once, with its counts (%s)' % late, fn.name)
        for x, y in (('count', c), ('missed', m)):
            path = ('Obslist', 'total', ('Obs', x))
            was, now = load_at(I, interp.State(Facts()), ol, P, *path), load_at(I, o.st, ol, P, *path)
            ctx.require(lin_eq(f, now, add(was, y)), 'list', 'an observation is added to the totals (%s: %r)' % (x, now), fn.name)
    ctx.require(k >= 1, 'list', 'observations are appended', fn.name)


def main(ctx, P, tool, struct, reader, fields):
    data, ol = one_global(P, tool, struct), one_global(P, tool, 'Obslist')

    def read(I, fr, ins, st, a):
        f = st.facts
        n = sum(1 for e in st.events() if e[0] == 'read')
        it = st.extra.get('iter', ())
        ds = []
        for k, path in enumerate(fields):
            d = V(atom(('in_report', k, n) + tuple([it] if it else []), 'in_report.%s' % '.'.join(path), 0, 1 << 40))
            ds.append(d)
            s, o = struct, 0
            for p in path2(P, struct, path):
                if isinstance(p, tuple):
                    s, p = p
                o += P.off(s, p)
                sz = P.fields[s][1][p][1]
                tag = (s, list(P.fields[s][1]).index(p))
            b, bo = interp.base_of(f.norm(a[0]))
            was = load_at(I, st, a[0], P, struct, *path2(P, struct, path))
            st = st.put(('st', b, add(bo, C(o)), sz, add(was, d), tag))
        return [(st.event('read', f.norm(a[0]), f.norm(a[1]), tuple(ds)), None)]

    def app_obs(I, fr, ins, st, a):
        return [(st.event('append', tuple(st.facts.norm(x) for x in a[:3])), None)]
    lower, upper = (V(atom(('bound', x), x, fl=True)) for x in ('lower', 'upper'))

    def ci(I, fr, ins, st, a):
        f = st.facts
        st = st.event('ci', f.norm(a[0]))
        for p, x in ((a[1], lower), (a[2], upper)):
            b, bo = interp.base_of(f.norm(p))
            st = st.put(('st', b, bo, 8, x, ('ty', 'double')))
        return [(st, None)]
    I = ctx.interp(prims={'initialize': initialize_prim, reader: read, 'append_obs': app_obs, 'compute_ci': ci})
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    n = 0

    def pairs(ev, f, where):
        pend = None
        for e in ev:
            if e[0] == 'loop':
                ctx.require(pend is None, 'reports', 'a report is appended before the next one is read', where)
                for t in e[1].trans():
                    pairs(t.events, t.facts, e[1])
            elif e[0] == 'read':
                ctx.require(pend is None, 'reports', 'a report is appended before the next one is read', where)
                ctx.require(lin_eq(f, e[1], data), 'reports', 'reports are read into the data the counts are taken from', where)
                pend = e
            elif e[0] == 'append':
                ok = pend is not None and lin_eq(f, e[1][0], ol) and all(lin_eq(f, x, y) for x, y in zip(e[1][1:], pend[3]))
                ctx.require(ok, 'reports', 'what is appended is exactly what the report held (%r)' % (e[1][1:],), where)
                pend = None
        ctx.require(pend is None, 'reports', 'every report read is appended', where)
    for o in live(I.run(P.modules[tool].functions['main'], [arg('argc0', 0), argv])):
        ctx.paths += 1
        f = o.st.facts
        ev = o.st.events()
        if o.kind == 'exit' and any(e[0] == 'error' for e in ev):
            continue
        n += 1
        k = [e[0] for e in flat(ev) if e[0] in ('read', 'append', 'ci', 'out')]
        c = [e for e in ev if e[0] == 'ci']
        ctx.require(len(c) == 1 and lin_eq(f, c[0][1], ol) and not {'read', 'append'} & set(k[k.index('ci'):]) and 'out' not in k[:k.index('ci')], 'reports',
                    'the interval is computed once, of all reports, before anything is written (%s)' % k, 'main')
        ctx.require(visits_all(ev, f, argv, argc, lambda e: e[2] if e[0] == 'read' else None), 'reports', 'each report is read once', 'main')
        pairs(ev, f, 'main')
        doc = document(ev)
        toks = [t for d in doc if d[0] == 'toks' for t in d[1]]
        ctx.require(len(doc) == 1 and doc[0][0] == 'toks', 'shown', 'the results are written as one text (%s)' % [d[0] for d in doc], 'main')
        fl = [t for t in toks if t[0] == 'flt' and (f.norm(t[-1]) in (lower, upper))]
        ctx.require([f.norm(t[-1]) for t in fl] == [lower, upper] and all(t[3] == 2 and t[4] == 'f' for t in fl), 'shown',
                    'both bounds are shown, the lower one first (%s)' % show_toks(toks), 'main')
        ints = [f.norm(t[-1]) for t in toks if t[0] == 'int']
        want = [load_at(I, o.st, ol, P, 'Obslist', 'count')] + [load_at(I, o.st, data, P, struct, *path2(P, struct, p)) for p in fields]
        ctx.require(len(ints) == 3 and all(lin_eq(f, x, y) for x, y in zip(ints, want)), 'shown',
                    'the number of observations and the totals are shown (%s)' % show_toks(toks), 'main')
        acc = [t for t in toks if t[0] == 'flt' and f.norm(t[-1]) not in (lower, upper)]
        R = Ring()
        rd = Reader(R, {})
        c, m = rd.lin(f.norm(want[1])), rd.lin(f.norm(want[2]))
        ctx.require(len(acc) == 1 and acc[0][3] == 2 and acc[0][4] == 'f' and R.same(rd.lin(f.norm(acc[0][-1])), R.over(R.mul(R.const(100), R.add(c, m, -1)), c)),
                    'shown', 'the overall accuracy is shown, in percent (%s)' % show_toks(toks), 'main')
    ctx.require(n >= 1, 'reports', 'main of %s processes reports' % tool, 'main')
