"""C30: sorting permutes and orders."""
import itertools
from .common import *

RULE = ('the recursive sorting step is decomposed over its control flow: reads, writes and comparisons of array elements and the ranges given to '
        'further calls are the events of each path; inductive over its loops it is shown that (1) the rows in the array together with the one held in '
        'a variable for each vacated place ("hole") are always the rows that were there, (2) a stretch from the left end holds no row that follows, '
        'a stretch to the right end none that precedes the reference row, (3) at the end no hole is left, both further ranges lie in one of these '
        'stretches each, what is between them equals the reference, smaller ranges hold at most one row; (4) sort '
        'starts it on the whole array')
ASSUME = ['the comparison is a total preorder that depends on the rows only and changes nothing (C31 and the listing properties check the comparisons in use)',
          'partial correctness: that the recursion ends, and how deep it goes, is not shown (C34)']
TECH = 'abstract interpretation of LLVM IR: segment (array partition) predicates and a hole/permutation domain over inductive loop summaries'


def div8(l):
    if l.c % 8 or any(k % 8 for a, k in l.t):
        return None
    out = C(l.c // 8)
    for a, k in l.t:
        out = add(out, scale(V(a), k // 8))
    return out


class Sorter:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P = ctx.program('accuracy')
        self.mod = P.modules.get('sort')
        if self.mod is None:
            raise Unsupported('module sort')
        fn = self.mod.functions.get('sort')
        if fn is None or [p[0].k for p in fn.params] != ['int', 'ptr', 'ptr']:
            raise Unsupported('function sort')
        self.fn = fn
        self.step = self.recursive(fn)
        self.arr = obj('rows')
        self.cmp = obj('order')
        self.n = arg('n', -(1 << 62), 1 << 40)

    def recursive(self, fn):
        """the one function that calls itself"""
        calls = {}
        for f in self.mod.functions.values():
            if f.entry is None:
                continue
            calls[f.name] = {i.a[0][1] for b in f.blocks.values() for i in b if i.op == 'call' and i.a[0][0] == 'global' and
                             i.a[0][1] in self.mod.functions}
        found = set()
        for f in calls:
            seen, todo = set(), list(calls[f])
            while todo:
                g = todo.pop()
                if g in seen or g not in calls:
                    continue
                seen.add(g)
                todo.extend(calls[g])
            if f in seen:
                found.add(f)
        reach, todo = set(), ['sort']
        while todo:
            g = todo.pop()
            if g not in reach and g in calls:
                reach.add(g)
                todo.extend(calls[g])
        found &= reach
        if len(found) != 1 or 'sort' in found:
            raise Unsupported('recursive step of sort')
        return self.mod.functions[found.pop()]

    # ---- interpretation with the array and the comparison as events
    def interp(self, prims):
        p = {'*indirect': self.compare, '*recursion': self.again}
        p.update(prims)
        I = self.ctx.interp(prims=p)
        self.base = I.store
        I.load_hook = self.read
        I.store = lambda st, addr, size, v, ty, tag=None, I=I: self.write(I, st, addr, size, v, ty, tag)
        return I

    def repeats(self, S, L, R):
        """does the loop sort a part and go on with another?"""
        return any(e[0] == 'again' for t in S.trans() for e in flat(list(t.events)))

    def rest(self, S, L, R):
        lo, hi = (x if x is not None else y for x, y in ((part_of(S, L), L), (part_of(S, R), R)))
        return lo, hi

    def key(self, st, k):
        return (k, sum(1 for e in st.events() if e[0] == k), st.extra.get('iter', ()))

    def place(self, st, addr):
        b, off = interp.base_of(addr)
        if b is None or V(b) != self.arr:
            return None
        p = div8(off)
        if p is None:
            raise Unsupported('place in the array')
        return st.facts.norm(p)

    def read(self, I, st, addr, size, ty, tag):
        p = self.place(st, addr)
        if p is None:
            return None
        if size != 8:
            raise Unsupported('part of an element is read')
        v = V(mkrow(('row',) + self.key(st, 'r')))
        return [(st.event('r', p, v), v)]

    def write(self, I, st, addr, size, v, ty, tag):
        addr = st.facts.norm(addr)
        p = self.place(st, addr)
        if p is None:
            return self.base(st, addr, size, v, ty, tag)
        if size != 8:
            raise Unsupported('part of an element is written')
        return [st.event('w', p, st.facts.norm(v))]

    def compare(self, I, fr, ins, st, f, a):
        if not lin_eq(st.facts, f, self.cmp):
            raise Unsupported('a function other than the comparison is called')
        if len(a) != 2:
            raise Unsupported('arguments of the comparison')
        r = V(atom(('sign',) + self.key(st, 'c'), 'sign', -(1 << 31), (1 << 31) - 1))
        return [(st.event('c', st.facts.norm(a[0]), st.facts.norm(a[1]), r), r)]

    def again(self, I, fr, ins, st, fn, a):
        if fn is not self.step:
            raise Unsupported('recursion in %s' % fn.name)
        return [(st.event('again', tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), ZERO if ins.ty is not None and ins.ty.k != 'void' else None)]


def part_of(S, l):
    """the expression that has the value l when the loop starts and changes, or l if none"""
    out = None
    for v in S.vars:
        if v.sym is not None and not v.tmpl and lin_eq(S.pre.facts, v.init, l) and (v.ty is None or v.ty.k == 'int'):
            if out is not None:
                return None
            out = V(v.sym)
    return out


def mkrow(key):
    a = atom(key, 'row')
    interp.mkptr(a)
    return a


def touches(ev):
    return any(e[0] in ('w', 'again') for e in flat(ev))


class Abs:
    """what is known about the array: holes [(place, row that belongs there)], contents [(place, row)], stretches [(rel, lo, hi)] with
    rel in ('le', 'ge') about the reference row"""
    __slots__ = ('holes', 'vals', 'ivs', 'same', 'known')

    def __init__(self, holes=(), vals=(), ivs=(), same=(), known=()):
        self.holes, self.vals, self.ivs, self.same, self.known = list(holes), list(vals), list(ivs), list(same), list(known)

    def copy(self):
        return Abs(self.holes, self.vals, self.ivs, self.same, self.known)

    def rep(self, v):
        for a, b in self.same:
            if a == v:
                return self.rep(b)
        return v


class Bad(Exception):
    pass


class Split(Exception):
    """two places may or may not be the same"""


class Walk:
    """one path through the step"""
    def __init__(self, S, ref):
        self.S, self.ref = S, ref
        self.nosplit = True

    def cases(self, f, fn, depth=3):
        """does fn(facts) hold, whichever of the places in question are the same?"""
        was, self.nosplit = self.nosplit, depth == 0
        try:
            return fn(f)
        except Split as e:
            l = sub(*e.args)
            for c in ((l, '=='), (add(l, ONE), '<='), (sub(ONE, l), '<=')):
                g = f.assume(*c)
                if g is not None and libc.consistent(g):
                    if not self.cases(g, fn, depth - 1):
                        return False
            return True
        finally:
            self.nosplit = was

    def split(self, a, b):
        if not self.nosplit:
            raise Split(a, b)

    def eq(self, f, a, b):
        """are the places the same? True, False or None"""
        r = f.decide(sub(a, b), '==')
        if r is True:
            return True
        if f.decide(sub(a, b), '!=') is True or f.decide(add(sub(a, b), ONE), '<=') is True or f.decide(add(sub(b, a), ONE), '<=') is True:
            return False
        return None

    def content(self, A, f, v):
        """the place that holds the row v now"""
        for p, w in A.vals:
            if A.rep(w) == A.rep(v):
                return p
        return None

    def ordered(self, A, f, cs, v):
        """relations of the row v to the reference"""
        out = set()
        if A.rep(v) == A.rep(self.ref):
            return {'le', 'ge'}
        for w, rel in A.known:
            if A.rep(w) == A.rep(v):
                out.add(rel)
        for x, y, r in cs:
            x, y = A.rep(x), A.rep(y)
            if x == A.rep(self.ref) and y == A.rep(v):
                k = 1
            elif y == A.rep(self.ref) and x == A.rep(v):
                k = -1
            else:
                continue
            r = scale(r, k)         # sign of (reference, v)
            if f.decide(scale(r, -1), '<=') is True:
                out.add('le')
            if f.decide(r, '<=') is True:
                out.add('ge')
        return out

    def inside(self, f, p):
        return f.decide(sub(self.lo, p), '<=') is True and f.decide(sub(p, self.hi), '<=') is True

    def events(self, A, f, ev, cs):
        """all the abstract states after the events (more than one: different invariants of a loop)"""
        out = [(A, list(cs), [])]
        for e in ev:
            nxt = []
            bad = None
            for A, cs, ag in out:
                try:
                    nxt.extend(self.one(A, f, e, cs, ag))
                except Bad as x:
                    bad = bad or x
            if bad and not nxt:
                raise bad
            out = nxt
        return out

    def one(self, A, f, e, cs, ag):
        k = e[0]
        if k == 'r':
            p, v = f.norm(e[1]), e[2]
            self.S.need(f.decide(add(sub(p, self.lo), ONE), '<=') is not True and f.decide(add(sub(self.hi, p), ONE), '<=') is not True,
                        'only rows of the range given are looked at')
            A = A.copy()
            for h, t in A.holes:
                z = self.eq(f, p, h)
                if z is None:
                    raise Bad('a vacated place may be read')
                if z:
                    return [(A, cs, ag)]        # what is there is not counted
            for q, w in A.vals:
                if self.eq(f, p, q) is True:
                    if w != v:
                        A.same.append((v, w))
                    return [(A, cs, ag)]
            A.vals.append((p, v))
            for rel, a, b in A.ivs:
                if f.decide(sub(a, p), '<=') is True:
                    if f.decide(sub(p, b), '<=') is True:
                        A.known.append((v, rel))
                    elif self.eq(f, a, p) is True and f.decide(sub(add(b, ONE), p), '<=') is not True and self.eq(f, p, add(b, ONE)) is None:
                        self.split(p, add(b, ONE))
            return [(A, cs, ag)]
        if k == 'c':
            return [(A, cs + [(e[1], e[2], e[3])], ag)]
        if k == 'w':
            p, v = f.norm(e[1]), A.rep(e[2])
            if ag:
                raise Unsupported('rows are moved after a part is sorted')
            self.S.need(self.inside(f, p), 'only rows of the range given are moved')
            return [(self.moved(A, f, p, v), cs, ag)]
        if k == 'again':
            if A.holes:
                raise Bad('a part is sorted while a place is vacated')
            return [(A, cs, ag + [e])]
        if k == 'loop':
            S = e[1]
            if ag:
                raise Unsupported('loop after a part is sorted')
            body = [x for q in S.parts.values() for t in q.trans for x in t.events]
            if not touches(body):
                return [(self.scanned(A, S, f), cs, ag)]
            if any(x[0] == 'again' for x in flat(body)):
                if A.holes or A.vals or A.ivs or not self.S.repeats(S, self.lo, self.hi):
                    raise Unsupported('parts are sorted in a loop')
                # the last round of a loop that goes on with one of the parts: nothing is done, what is left is given by its variables
                lo, hi = self.S.rest(S, self.lo, self.hi)
                self.lo, self.hi = lo, hi
                return [(A, cs, ag)]
            return [(B, cs, ag) for B in self.invariants(A, S, cs)]
        return [(A, cs, ag)]

    def moved(self, A, f, p, v):
        B = A.copy()
        here = None
        for n, (h, t) in enumerate(A.holes):
            z = self.eq(f, p, h)
            if z is None:
                self.split(p, h)
                raise Bad('a row may be overwritten')
            if z:
                here = n
        if here is None:
            t = [w for q, w in A.vals if self.eq(f, p, q) is True]
            for q, w in A.vals if not t else ():
                if self.eq(f, p, q) is None:
                    self.split(p, q)
            if not t:
                raise Bad('a row is overwritten that is not kept')
            lost = t[0]
        else:
            lost = A.holes[here][1]
        placed = [n for n, (h, t) in enumerate(A.holes) if A.rep(t) == v]
        if here is not None and here in placed:
            del B.holes[here]
        elif placed:
            B.holes[placed[0]] = (A.holes[placed[0]][0], lost)
            if here is not None:
                del B.holes[here]
        else:
            q = self.content(A, f, v)
            if q is None:
                raise Bad('what is written is not known to be a row of the array')
            z = self.eq(f, p, q)
            if z is True and here is None:
                return B
            if z is None:
                self.split(p, q)
                raise Bad('a row may be overwritten')
            B.holes.append((q, lost))
            if here is not None:
                del B.holes[here]
        B.vals = [(q, w) for q, w in B.vals if self.eq(f, p, q) is False] + [(p, v)]
        ivs = []
        for r, lo, hi in B.ivs:
            if f.decide(add(sub(p, lo), ONE), '<=') is True or f.decide(add(sub(hi, p), ONE), '<=') is True:
                ivs.append((r, lo, hi))
            elif self.eq(f, p, hi) is True:
                ivs.append((r, lo, add(hi, C(-1))))
            elif self.eq(f, p, lo) is True:
                ivs.append((r, add(lo, ONE), hi))
        B.ivs = ivs
        return B

    def scanned(self, A, S, f):
        """a loop that only looks at rows: the stretches it has gone over"""
        B = A.copy()
        for v, init, step in counters(S):
            if abs(step) != 1:
                continue
            for c in (-1, 0, 1):
                E = add(V(v.sym), C(c))
                rel = {'le', 'ge'}
                for t in S.trans():
                    g = t.facts
                    if not libc.consistent(g):
                        continue
                    try:
                        r = self.events(Abs(A.holes, [], [], A.same), g, list(t.events), [])
                    except Bad:
                        rel = set()
                        break
                    T, cs, _ = r[0]
                    w = [w for q, w in T.vals if self.eq(g, q, E) is True]
                    rel &= self.ordered(T, g, cs, w[0]) if w else set()
                    if any(self.eq(g, h, E) is not False for h, _ in A.holes):
                        rel = set()
                for r in rel:
                    if step == 1:
                        B.ivs.append((r, add(init, C(c)), add(V(v.sym), C(c - 1))))
                    else:
                        B.ivs.append((r, add(V(v.sym), C(c + 1)), add(init, C(c))))
        return B

    def covers(self, A, f, cs, rel, lo, hi, depth=5):
        """does rel hold for all rows from lo to hi?"""
        if f.decide(add(sub(hi, lo), ONE), '<=') is True:
            return True
        if depth == 0 or any(not self.outside(f, h, lo, hi) for h, t in A.holes):
            return False
        for r, a, b in A.ivs:
            if r != rel:
                continue
            n = f.norm(add(b, ONE))
            if n != f.norm(lo) and f.decide(sub(a, lo), '<=') is True and f.decide(sub(lo, n), '<=') is True and \
                    (f.decide(sub(hi, b), '<=') is True or self.covers(A, f, cs, rel, n, hi, depth - 1)):
                return True
        for q, w in A.vals:
            if rel in self.ordered(A, f, cs, w):
                if self.eq(f, q, lo) is True and self.covers(A, f, cs, rel, add(lo, ONE), hi, depth - 1) or \
                        self.eq(f, q, hi) is True and self.covers(A, f, cs, rel, lo, add(hi, C(-1)), depth - 1):
                    return True
        return False

    def outside(self, f, h, lo, hi):
        return f.decide(add(sub(h, lo), ONE), '<=') is True or f.decide(add(sub(hi, h), ONE), '<=') is True

    # ---- loops that move rows
    def invariants(self, A, S, cs):
        """the invariants (holes, left stretch, right stretch) of a loop; its exits have them"""
        f = S.pre.facts
        vs = [v for v in S.vars if v.sym is not None and not v.tmpl and v.ty is not None and v.ty.k == 'int']
        places = [add(V(v.sym), C(c)) for v in vs for c in (0, -1, 1)] + [self.lo, self.hi]
        sy = {v.sym: v for v in S.vars if v.sym is not None and not v.tmpl}
        rows = [(q, w) for q, w in A.vals] + list(A.holes)
        fixed = {A.rep(w) for q, w in rows}

        def at0(l):
            return subst_lin(l, {a: v.init for a, v in sy.items()})

        def has(T, g, c2, H, ivs):
            if len(T.holes) != len(H):
                # a place whose row is also held in a variable may be taken for vacated
                if T.holes or not any(self.eq(g, q, H[0][0]) is True and T.rep(w) == T.rep(H[0][1]) for q, w in T.vals):
                    return False
            elif H and not (self.eq(g, T.holes[0][0], H[0][0]) is True and T.rep(T.holes[0][1]) == T.rep(H[0][1])):
                return False
            T2 = T.copy()
            T2.holes = list(H)
            return all(self.covers(T2, g, c2, *i) for i in ivs)

        found = []
        keep0 = [(q, w) for q, w in A.vals if not any(a in sy for a, k in q.t)]
        near = [(v, add(V(v.sym), C(c))) for v in vs for c in (0, -1, 1)]
        cand = [('le', self.lo, add(p, C(-1))) for v, p in near] + [('ge', p, self.hi) for v, p in near] + \
               [('ge', p, add(q, C(-1))) for v, p in near for w, q in near if v is not w]
        trans = [t for t in S.trans() if libc.consistent(t.facts)]
        for H in [()] + [((p, w),) for p in places for w in sorted(fixed, key=repr)]:
            h0 = [(at0(p), w) for p, w in H]
            if not has(A, f, cs, h0, ()):
                continue
            ivs = [(r, a, b) for r, a, b in cand if has(A, f, cs, h0, [(r, at0(a), at0(b))])]
            keep = list(keep0)
            while True:
                stay = list(keep)
                left = list(ivs)
                ok = True
                for t in trans:
                    self.S.paths += 1
                    nx = {a: t.nxt[v] for a, v in sy.items()}

                    def step(g):
                        (T, c2, ag), = self.events(Abs(H, keep, ivs, A.same, A.known), g, list(t.events), [])
                        h1 = [(subst_lin(p, nx), w) for p, w in H]
                        if not has(T, g, c2, h1, ()):
                            return False
                        left[:] = [(r, a, b) for r, a, b in left if has(T, g, c2, h1, [(r, subst_lin(a, nx), subst_lin(b, nx))])]
                        stay[:] = [(q, w) for q, w in stay if any(q == q2 and T.rep(w) == T.rep(w2) for q2, w2 in T.vals)]
                        return True
                    try:
                        ok = self.cases(t.facts, step)
                    except Bad as e:
                        self.why = str(e)
                        ok = False
                    if not ok:
                        break
                if not ok:
                    break
                if len(left) == len(ivs) and len(stay) == len(keep):
                    found.append(Abs(H, keep, ivs, A.same, A.known))
                    break
                ivs, keep = left, stay
        if not found:
            raise Bad(self.why or 'no reference parts the rows')
        return found
    why = None


def ordered(S, o):
    """was every row compared with the next and found not to follow it?"""
    f = o.st.facts
    for L in loops_of(o.st):
        for v, init, step in counters(L):
            if abs(step) != 1:
                continue
            for c in (-2, -1, 0, 1):
                E = add(V(v.sym), C(c))
                e0 = add(init, C(c))
                up = step == 1
                if not lin_eq(f, e0, ZERO if up else add(S.n, C(-2))) or not all(pair_in_order(t, E) for t in L.trans() if libc.consistent(t.facts)):
                    continue
                if f.decide(sub(add(S.n, C(-1)), E) if up else add(E, ONE), '<=') is True:
                    return True
    return False


def pair_in_order(t, E):
    g = t.facts
    rows = {e[2]: e[1] for e in t.events if e[0] == 'r'}
    for e in t.events:
        if e[0] == 'c' and e[1] in rows and e[2] in rows:
            x, y = rows[e[1]], rows[e[2]]
            for p, q, r in ((x, y, e[3]), (y, x, scale(e[3], -1))):
                if lin_eq(g, p, E) and lin_eq(g, q, add(E, ONE)) and g.decide(r, '<=') is True:
                    return True
    return False


def run(ctx):
    S = Sorter(ctx)
    where = 'sort'
    S.paths = 0
    # --- sort
    start = []

    def begin(I, fr, ins, st, a):
        a = [st.facts.norm(x) for x in a]
        start.append((st, a))
        return [(st.event('begin', tuple(a)), ZERO if ins.ty is not None and ins.ty.k != 'void' else None)]
    I = S.interp({(S.mod.name, S.step.name): begin})
    for o in live(I.run(S.fn, [S.n, S.arr, S.cmp])):
        ctx.paths += 1
        b = [e for e in flat(list(o.st.events())) if e[0] == 'begin']
        if o.kind != 'ret':
            raise Unsupported('sort ends the program')
        if any(e[0] == 'w' for e in flat(list(o.st.events()))):
            raise Unsupported('rows are moved outside the recursive step')
        if not b:
            ctx.require(o.st.facts.decide(sub(S.n, ONE), '<=') is True or ordered(S, o), 'whole', 'an array is left as it is only if it has fewer than two rows or every two neighbours were found in order', where)
        elif len(b) > 1:
            raise Unsupported('the step is started more than once')
    if not start:
        ctx.require(False, 'whole', 'sort starts the recursive step', where)
        return
    # --- the parameters of the step: first and last place, the array and the comparison if passed
    st0, a0 = start[0]
    lo = hi = None
    args = []
    fixed = {}
    for n, (v, p) in enumerate(zip(a0, S.step.params)):
        f = st0.facts
        if p[0].k == 'ptr':
            fixed[n] = v
            args.append(v)
        elif lo is None:
            lo = n
            args.append(arg('left', 0, 1 << 40))
        elif hi is None:
            hi = n
            args.append(arg('right', -1, 1 << 40))
        else:
            raise Unsupported('parameters of the recursive step')
    if lo is None or hi is None or len(args) != len(S.step.params):
        raise Unsupported('parameters of the recursive step')
    # is the second one the last place or the number of rows?
    past = 1 if all(lin_eq(st.facts, a[hi], S.n) for st, a in start) else 0
    for st, a in start:
        f = st.facts
        ctx.require(f.decide(a[lo], '==') is True and lin_eq(f, add(a[hi], C(1 - past)), S.n), 'whole', 'the step is started on all rows', where)
        ctx.require(all(v == a0[k] for k, v in ((k, a[k]) for k in fixed)), 'whole', 'the step is started with the array and the comparison', where)
    L, R = args[lo], add(args[hi], C(-past))
    # --- weakest demand on the range that all calls meet
    res = None
    for d in (1, 0, -1):        # left + d <= right
        r = attempt(ctx, S, st0, args, L, R, d, lo, hi, past, fixed, start)
        if r is not None:
            res = r
            break
    if res is None:
        raise Unsupported('ranges of the recursive step')
    for cond, cls, msg, w in res:
        ctx.require(cond, cls, msg, w)


def attempt(ctx, S, st0, args, L, R, d, lo, hi, past, fixed, start):
    where = S.step.name
    for st, a in start:
        if st.facts.decide(sub(add(a[lo], C(d)), add(a[hi], C(-past))), '<=') is not True:
            return None
    res = []
    I = S.interp({})
    s = interp.State(Facts(), st0.mem).assume(sub(add(L, C(d)), R), '<=')
    S.need = lambda c, m: res.append((bool(c), 'permute', m, where))
    outs = live(I.run(S.step, args, s))
    seen = 0
    paths = []
    for o in outs:
        if o.kind != 'ret':
            raise Unsupported('the step ends the program')
        paths.append((o.st, list(o.st.events()), L, R, None))
    # a loop that goes on with one part is the same as sorting that part
    for S1 in {id(e[1]): e[1] for st, ev, *_ in paths for e in ev if e[0] == 'loop'}.values():
        if S.repeats(S1, L, R):
            l1, r1 = S.rest(S1, L, R)
            sy = {v.sym: v for v in S1.vars if v.sym is not None and not v.tmpl}
            for t in S1.trans():
                if libc.consistent(t.facts):
                    nx = {a: t.nxt[v] for a, v in sy.items()}
                    paths.append((t.st, list(t.events), l1, r1, (subst_lin(l1, nx), subst_lin(r1, nx))))
    for st, ev, L1, R1, more in paths:
        ctx.paths += 1
        f = st.facts
        for e in flat(ev):
            if e[0] == 'again':
                if any(not lin_eq(f, e[1][k], v) for k, v in fixed.items()):
                    res.append((False, 'order', 'parts are sorted in the same array by the same comparison', where))
        for e in ev:
            if e[0] == 'again' and f.decide(sub(add(e[1][lo], C(d)), add(e[1][hi], C(-past))), '<=') is not True:
                return None
        m = st.mem
        while m is not None and m is not st0.mem:
            b = m[1][1] if m[1][0] == 'st' else None
            if b is not None and isinstance(b.key, tuple) and b.key[0] == 'glob':
                raise Unsupported('the step changes a variable it shares with others')
            m = m[0]
        why = None
        done = False
        # the reference row: a row read that is compared with others
        refs = []
        for e in flat(ev):
            if e[0] == 'c':
                refs += [x for x in e[1:3] if x not in refs]
        rd = [e[2] for e in ev if e[0] == 'r']
        refs = [x for x in refs if x in rd] or [None]
        for ref in refs:
            W = Walk(S, ref)
            W.lo, W.hi = L1, R1
            why1 = []

            def whole(g):
                W.lo, W.hi = L1, R1
                for A, cs, ag in W.events(Abs(), g, ev, []):
                    w = finish(W, A, g, cs, [(e[1][lo], add(e[1][hi], C(-past))) for e in ag] + ([more] if more else []))
                    if w is None:
                        return True
                    why1.append(w)
                    for rel, a, b in A.ivs:
                        for x, y in ((add(a, C(-1)), L1), (add(b, ONE), R1)):
                            if w[0] == 'order' and W.eq(g, x, y) is None:
                                W.split(x, y)
                return False
            try:
                done = W.cases(f, whole)
                why = why or (why1[0] if why1 else None)
            except Bad as e:
                why = ('permute', str(e))
            if done:
                break
        seen += 1
        if why and not done and why[0] == 'permute':
            res.append((False, 'permute', why[1], where))
        else:
            res.append((True, 'permute', 'the rows stay the same', where))
            res.append((done, 'order', 'the rows end up in order: %s' % (why[1] if why and not done else 'yes'), where))
    if not seen:
        raise Unsupported('the step never returns')
    return res


def finish(W, A, f, cs, ranges):
    """is the whole range in order, given that the parts are sorted?  None or (class, reason)"""
    if A.holes:
        return ('permute', 'a row is lost: a vacated place is not filled')
    L, R = W.lo, W.hi
    if f.decide(sub(R, L), '<=') is True and not ranges:
        return None
    for a, b in ranges:
        if not (f.decide(sub(L, a), '<=') is True and f.decide(sub(b, R), '<=') is True):
            return ('order', 'a part outside the range is sorted')
        if f.decide(sub(a, L), '<=') is True and f.decide(sub(R, b), '<=') is True:
            return ('order', 'a part is not smaller than the whole')
    ends = [b for a, b in ranges if lin_eq(f, a, L)] + [L, add(L, C(-1))]
    starts = [a for a, b in ranges if lin_eq(f, b, R)] + [R, add(R, ONE)]
    singles = [q for q, w in A.vals if W.ordered(A, f, cs, w) == {'le', 'ge'}]
    cand = [(e, s) for e in ends for s in starts]
    for q in singles:
        e, s = add(q, C(-1)), add(q, ONE)
        if (any(lin_eq(f, e, x) for x in ends) or f.decide(sub(e, L), '<=') is True) and \
                (any(lin_eq(f, s, x) for x in starts) or f.decide(sub(R, s), '<=') is True):
            if W.covers(A, f, cs, 'le', L, e) and W.covers(A, f, cs, 'ge', s, R):
                return None
    for e, s in cand:
        if f.decide(add(sub(e, s), ONE), '<=') is not True:
            continue
        m = (add(e, ONE), add(s, C(-1)))
        if W.covers(A, f, cs, 'le', L, m[1]) and W.covers(A, f, cs, 'ge', m[0], R):
            return None
    return ('order', 'the parts sorted, and what is between them, do not make up the range in order')
