"""Symbolic values: affine (Lin) expressions over hash-consed atoms, and path facts about them."""

INF = 1 << 80


class Atom:
    __slots__ = ('id', 'key', 'name', 'lo', 'hi', 'obj', 'fl', 'meta')

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}
_names = {}


def reset():
    _atoms.clear()


def atom(key, name=None, lo=-INF, hi=INF, obj=None, fl=False):
    if obj is not None and lo == -INF:
        lo = 4096         # no object lies in the first page
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.key = key
        a.name = name or show_key(key)
        a.lo = lo
        a.hi = hi
        a.obj = obj      # distinct object base: ('global',..)/('alloca',..)/('heap',..)
        a.fl = fl
        a.meta = None
        _atoms[key] = a
    return a


def show_key(key):
    if isinstance(key, tuple):
        if key and isinstance(key[0], str):
            return '%s(%s)' % (key[0], ','.join(show_key(k) for k in key[1:]))
        return '(%s)' % ','.join(show_key(k) for k in key)
    return str(key)


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t=(), c=0):
        self.t = t      # tuple of (atom, coeff) sorted by atom id
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((tuple((a.id, k) for a, k in self.t), self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = ''
        for a, k in self.t:
            if k == 1:
                s += ('+' if s else '') + a.name
            elif k == -1:
                s += '-' + a.name
            else:
                s += ('+' if s and k > 0 else '') + '%d*%s' % (k, a.name)
        if self.c:
            s += '%+d' % self.c
        return s

    @property
    def const(self):
        return not self.t

    def atoms(self):
        return [a for a, _ in self.t]

    def one(self):
        """the atom if this is exactly one atom"""
        if len(self.t) == 1 and self.t[0][1] == 1 and self.c == 0:
            return self.t[0][0]
        return None

    def coef(self, at):
        for a, k in self.t:
            if a is at:
                return k
        return 0


def C(n):
    return Lin((), n)


ZERO = C(0)
ONE = C(1)


def V(a):
    return a if isinstance(a, Lin) else Lin(((a, 1),), 0)


def add(x, y, k=1):
    """x + k*y"""
    if k == 0:
        return x
    if not y.t:
        return x if y.c == 0 else Lin(x.t, x.c + k * y.c)
    if not x.t:
        if k == 1:
            return y if x.c == 0 else Lin(y.t, x.c + y.c)
        return Lin(tuple((a, k * c) for a, c in y.t), x.c + k * y.c)
    i = j = 0
    r = []
    a, b = x.t, y.t
    la, lb = len(a), len(b)
    while i < la and j < lb:
        p, q = a[i], b[j]
        if p[0] is q[0]:
            c = p[1] + k * q[1]
            if c:
                r.append((p[0], c))
            i += 1
            j += 1
        elif p[0].id < q[0].id:
            r.append(p)
            i += 1
        else:
            r.append((q[0], k * q[1]))
            j += 1
    while i < la:
        r.append(a[i])
        i += 1
    while j < lb:
        r.append((b[j][0], k * b[j][1]))
        j += 1
    return Lin(tuple(r), x.c + k * y.c)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    if k == 1:
        return x
    return Lin(tuple((a, c * k) for a, c in x.t), x.c * k)


def subst_lin(x, m):
    """replace atoms by Lins (shallow: not inside application keys)"""
    hit = False
    for a, k in x.t:
        if a in m:
            hit = True
            break
    if not hit:
        return x
    r = C(x.c)
    for a, k in x.t:
        if a in m:
            r = add(r, m[a], k)
        else:
            r = add(r, V(a), k)
    return r


def key_atoms(key, acc):
    """all atoms occurring (deeply) in a key / Lin / tuple"""
    if isinstance(key, Atom):
        if key not in acc:
            acc.add(key)
            key_atoms(key.key, acc)
    elif isinstance(key, Lin):
        for a, _ in key.t:
            key_atoms(a, acc)
    elif isinstance(key, (tuple, list)):
        for k in key:
            key_atoms(k, acc)


_deep_cache = {}


def deep_atoms(x):
    if isinstance(x, (Lin, Atom)):
        r = _deep_cache.get(x)
        if r is None:
            s = set()
            key_atoms(x, s)
            r = frozenset(s)
            _deep_cache[x] = r
        return r
    s = set()
    key_atoms(x, s)
    return s


REBUILD = {}   # op name -> function(newargs) giving a Lin (to re-simplify after substitution)


def deep_subst(x, m):
    """substitute atoms deeply, rebuilding application atoms. m: dict atom -> Lin"""
    if not m:
        return x
    if isinstance(x, Lin):
        da = deep_atoms(x)
        if not any(a in da for a in m):
            return x
        r = C(x.c)
        for a, k in x.t:
            r = add(r, deep_subst(a, m), k)
        return r
    if isinstance(x, Atom):
        if x in m:
            return m[x]
        da = deep_atoms(x)
        if not any(a in da for a in m):
            return V(x)
        nk = deep_subst(x.key, m)
        f = REBUILD.get(nk[0]) if isinstance(nk, tuple) and nk and isinstance(nk[0], str) else None
        if f:
            return f(nk, x)
        return V(atom(nk, None, x.lo, x.hi, x.obj, x.fl))
    if isinstance(x, tuple):
        out = []
        for k in x:
            if isinstance(k, Atom):
                v = deep_subst(k, m)
                o = v.one()
                out.append(o if o is not None else v)
            elif isinstance(k, (Lin, tuple)):
                out.append(deep_subst(k, m))
            else:
                out.append(k)
        return tuple(out)
    return x


# ------------------------------------------------------------------
# interval sets: tuple of (lo,hi) disjoint sorted
FULL = ((-INF, INF),)


def is_inter(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            r.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(r)


def is_compl(a):
    r = []
    cur = -INF
    for lo, hi in a:
        if lo > cur:
            r.append((cur, lo - 1))
        cur = hi + 1
    if cur <= INF:
        r.append((cur, INF))
    return tuple(r)


def is_from(vals):
    vals = sorted(set(vals))
    r = []
    for v in vals:
        if r and r[-1][1] == v - 1:
            r[-1] = (r[-1][0], v)
        else:
            r.append((v, v))
    return tuple(r)


def is_union(a, b):
    l = sorted(a + b)
    r = []
    for lo, hi in l:
        if r and lo <= r[-1][1] + 1:
            if hi > r[-1][1]:
                r[-1] = (r[-1][0], hi)
        else:
            r.append((lo, hi))
    return tuple(r)


def is_subset(a, b):
    return is_inter(a, b) == a


def is_size(a):
    return sum(h - l + 1 for l, h in a)


def is_contains(a, v):
    return any(l <= v <= h for l, h in a)


from math import gcd
from functools import reduce


def norm_le(l):
    """tighten integer constraint l <= 0"""
    if not l.t:
        return l
    g = reduce(gcd, (abs(k) for _, k in l.t))
    if g > 1:
        # sum/g*... + c <= 0  ->  sum' <= floor(-c/g)
        c = -((-l.c) // g)
        return Lin(tuple((a, k // g) for a, k in l.t), c)
    return l


class Facts:
    """conjunction of facts; immutable"""
    __slots__ = ('dom', 'le', 'ne', 'sub', '_memo')

    def __init__(self, dom=None, le=(), ne=(), sub=None):
        self.dom = dom if dom is not None else {}
        self.le = le          # tuple of Lin <= 0 with >=2 atoms (normalised)
        self.ne = ne          # tuple of Lin != 0 with >=2 atoms
        self.sub = sub if sub is not None else {}   # solved equalities atom -> Lin
        self._memo = {}

    # -- basics
    def norm(self, l):
        if not self.sub:
            return l
        return subst_lin(l, self.sub)

    def domain(self, a):
        d = self.dom.get(a)
        if d is None:
            return ((a.lo, a.hi),)
        return d

    def bounds_box(self, l):
        lo = hi = l.c
        for a, k in l.t:
            d = self.domain(a)
            if not d:
                return (0, -1)
            l1, h1 = d[0][0], d[-1][1]
            if k > 0:
                lo = lo + k * l1 if l1 > -INF else -INF * 4
                hi = hi + k * h1 if h1 < INF else INF * 4
            else:
                lo = lo + k * h1 if h1 < INF else -INF * 4
                hi = hi + k * l1 if l1 > -INF else INF * 4
        return (lo, hi)

    # -- assume
    def assume(self, l, op):
        """op in '<=','==','!=' against 0; returns Facts or None"""
        l = self.norm(l)
        if l.const:
            ok = {'<=': l.c <= 0, '==': l.c == 0, '!=': l.c != 0}[op]
            return self if ok else None
        if op == '<=':
            l = norm_le(l)
        elif len(l.t) > 1:
            g = reduce(gcd, (abs(k) for _, k in l.t))
            if g > 1:
                if l.c % g:
                    return None if op == '==' else self
                l = Lin(tuple((a, k // g) for a, k in l.t), l.c // g)
        if len(l.t) == 1:
            a, k = l.t[0]
            if op == '<=':
                # k*a + c <= 0
                if k > 0:
                    s = ((-INF, (-l.c) // k),)
                else:
                    s = ((-((-l.c) // -k) if False else -((-l.c) // (-k)) if False else _ceil_div(l.c, -k), INF),)
            elif op == '==':
                if l.c % k:
                    return None
                v = -l.c // k
                s = ((v, v),)
            else:
                if l.c % k:
                    return self
                v = -l.c // k
                s = ((-INF, v - 1), (v + 1, INF))
            return self.assume_dom(a, s)
        if op == '<=':
            lo, hi = self.bounds_box(l)
            if hi <= 0:
                return self
            if lo > 0:
                return None
            if l in self.le:
                return self
            # contradiction / strengthening with ne
            nl = scale(l, -1)
            for n in self.ne:
                if n == l or n == nl:
                    l = norm_le(Lin(l.t, l.c + 1))
                    break
            # equality from pair  l<=0 and -l<=0
            negl = scale(l, -1)
            if negl in self.le:
                f = Facts(self.dom, tuple(x for x in self.le if x != negl), self.ne, self.sub)
                return f.assume(l, '==')
            f = Facts(self.dom, self.le + (l,), self.ne, self.sub)
            if f._infeasible(l):
                return None
            return f
        if op == '==':
            lo, hi = self.bounds_box(l)
            if lo > 0 or hi < 0:
                return None
            # solve for an atom with coeff +-1: prefer the newest non-object atom
            cand = [(a, k) for a, k in l.t if abs(k) == 1 and a.obj is None]
            if not cand:
                cand = [(a, k) for a, k in l.t if abs(k) == 1]
            if not cand:
                f = self.assume_raw_le(l)
                if f is None:
                    return None
                return f.assume_raw_le(scale(l, -1))
            if len(l.t) == 2 and l.t[0][0].obj and l.t[1][0].obj and l.t[0][1] == -l.t[1][1]:
                return None      # two distinct objects
            a, k = max(cand, key=lambda x: x[0].id)
            rhs = scale(Lin(tuple((b, c) for b, c in l.t if b is not a), l.c), -k)
            m = {a: rhs}
            nsub = {b: subst_lin(v, m) for b, v in self.sub.items()}
            nsub[a] = rhs
            f = Facts(self.dom, (), (), nsub)
            # domain of a becomes constraints on rhs
            d = self.domain(a)
            nd = dict(self.dom)
            f = Facts(nd, (), (), nsub)
            pend = [(x, '<=') for x in self.le] + [(x, '!=') for x in self.ne]
            if d[0][0] > -INF:
                pend.append((sub(C(d[0][0]), rhs), '<='))
            if d[-1][1] < INF:
                pend.append((sub(rhs, C(d[-1][1])), '<='))
            for i in range(len(d) - 1):
                for v in range(d[i][1] + 1, min(d[i + 1][0], d[i][1] + 4)):
                    pend.append((sub(rhs, C(v)), '!='))
            for x, o in pend:
                f = f.assume(x, o)
                if f is None:
                    return None
            return f
        # !=
        lo, hi = self.bounds_box(l)
        if lo > 0 or hi < 0:
            return self
        nl = scale(l, -1)
        if l in self.ne or nl in self.ne:
            return self
        if len(l.t) == 2 and l.t[0][0].obj and l.t[1][0].obj and l.c == 0:
            return self
        for x in self.le:
            if x == l or x == nl:
                f = Facts(self.dom, tuple(y for y in self.le if y != x), self.ne, self.sub)
                return f.assume(Lin(x.t, x.c + 1), '<=')
        # implied equality?
        if self.decide(l, '==') is True:
            return None
        return Facts(self.dom, self.le, self.ne + (l,), self.sub)

    def assume_raw_le(self, l):
        f = Facts(self.dom, self.le + (l,), self.ne, self.sub)
        return None if f._infeasible(l) else f

    def assume_dom(self, a, s):
        if a in self.sub:
            l = self.sub[a]
            if len(l.t) == 1:
                b, k = l.t[0]
                if abs(k) == 1:
                    ns = tuple(sorted(tuple(sorted(((lo - l.c) * k if abs(lo) < INF else lo * k,
                                                    (hi - l.c) * k if abs(hi) < INF else hi * k))) for lo, hi in s))
                    return self.assume_dom(b, ns)
            f = self
            if s[0][0] > -INF:
                f = f.assume(sub(C(s[0][0]), l), '<=')
            if f is not None and s[-1][1] < INF:
                f = f.assume(sub(l, C(s[-1][1])), '<=')
            for i in range(len(s) - 1):
                if f is None:
                    return None
                if s[i + 1][0] - s[i][1] == 2:
                    f = f.assume(sub(l, C(s[i][1] + 1)), '!=')
            return f
        d = self.domain(a)
        nd = is_inter(d, s)
        if not nd:
            return None
        if nd == d:
            return self
        dom = dict(self.dom)
        dom[a] = nd
        f = Facts(dom, self.le, self.ne, self.sub)
        # ne / le consistency
        if any(a is b for l in self.le for b, _ in l.t):
            for l in self.le:
                if any(a is b for b, _ in l.t) and f._infeasible(l):
                    return None
        if is_size(nd) == 1:
            # fold the constant into multi-atom constraints
            v = nd[0][0]
            hitl = [l for l in f.le if any(a is b for b, _ in l.t)]
            hitn = [l for l in f.ne if any(a is b for b, _ in l.t)]
            if hitl or hitn:
                m = {a: C(v)}
                f = Facts(dom, tuple(l for l in f.le if l not in hitl), tuple(l for l in f.ne if l not in hitn), f.sub)
                for l in hitl:
                    f = f.assume(subst_lin(l, m), '<=')
                    if f is None:
                        return None
                for l in hitn:
                    f = f.assume(subst_lin(l, m), '!=')
                    if f is None:
                        return None
        return f

    # -- queries
    def value(self, l):
        """constant value if determined"""
        l = self.norm(l)
        if l.const:
            return l.c
        c = l.c
        for a, k in l.t:
            d = self.dom.get(a)
            if d and len(d) == 1 and d[0][0] == d[0][1]:
                c += k * d[0][0]
            else:
                return None
        return c

    def decide(self, l, op):
        """True/False/None for l op 0"""
        l = self.norm(l)
        if l.const:
            return {'<=': l.c <= 0, '==': l.c == 0, '!=': l.c != 0, '<': l.c < 0}[op]
        if op == '!=':
            r = self.decide(l, '==')
            return None if r is None else not r
        if op == '<':
            return self.decide(Lin(l.t, l.c + 1), '<=')
        k = (l, op)
        if k in self._memo:
            return self._memo[k]
        self._memo[k] = None
        r = self._decide(l, op)
        self._memo[k] = r
        return r

    def _decide(self, l, op):
        lo, hi = self.bounds_box(l)
        if op == '<=':
            if hi <= 0:
                return True
            if lo > 0:
                return False
            if len(l.t) == 1:
                # single atom: box is exact up to holes; relational le may help
                pass
            if self.assume(Lin(tuple((a, -c) for a, c in l.t), -l.c + 1), '<=') is None:
                return True
            if self.assume(l, '<=') is None:
                return False
            return None
        # ==
        if lo > 0 or hi < 0:
            return False
        if len(l.t) == 1:
            a, k = l.t[0]
            if l.c % k:
                return False
            if not is_contains(self.domain(a), -l.c // k):
                return False
            if lo == hi == 0:
                return True
        if len(l.t) == 2 and l.t[0][0].obj and l.t[1][0].obj and l.t[0][1] == -l.t[1][1]:
            return False
        nl = scale(l, -1)
        if l in self.ne or nl in self.ne:
            return False
        g = reduce(gcd, (abs(k) for _, k in l.t))
        if g > 1 and l.c % g:
            return False
        if len(l.t) == 1 and not self._related(l):
            return None
        a = self.assume(Lin(l.t, l.c + 1), '<=')       # l < 0
        b = self.assume(Lin(nl.t, nl.c + 1), '<=')     # l > 0
        if a is None and b is None:
            return True
        if self.le and self.assume(l, '==') is None:
            return False
        return None

    def _related(self, l):
        s = {a for a, _ in l.t}
        for x in self.le:
            for a, _ in x.t:
                if a in s:
                    return True
        return False

    # -- Fourier-Motzkin emptiness for the component of the new constraint
    def _infeasible(self, l0, limit=250):
        comp = {a for a, _ in l0.t}
        cons = [l0]
        rest = [x for x in self.le if x is not l0]
        changed = True
        while changed:
            changed = False
            nr = []
            for x in rest:
                if any(a in comp for a, _ in x.t):
                    cons.append(x)
                    for a, _ in x.t:
                        if a not in comp:
                            comp.add(a)
                            changed = True
                else:
                    nr.append(x)
            rest = nr
        seen = set()
        for a in comp:
            d = self.domain(a)
            if not d:
                return True
            if d[0][0] > -INF:
                cons.append(Lin(((a, -1),), d[0][0]))
            if d[-1][1] < INF:
                cons.append(Lin(((a, 1),), -d[-1][1]))
        cons = list(dict.fromkeys(norm_le(c) for c in cons))
        atoms = set(comp)
        while True:
            # choose atom minimising product
            best = None
            for a in atoms:
                p = n = 0
                for c in cons:
                    k = c.coef(a)
                    if k > 0:
                        p += 1
                    elif k < 0:
                        n += 1
                sc = p * n - p - n
                if best is None or sc < best[0]:
                    best = (sc, a)
            if best is None:
                break
            a = best[1]
            atoms.discard(a)
            pos = []
            neg = []
            oth = []
            for c in cons:
                k = c.coef(a)
                (pos if k > 0 else neg if k < 0 else oth).append(c)
            new = {}
            for c in oth:
                _put(new, c)
            for x in pos:
                kx = x.coef(a)
                for y in neg:
                    ky = -y.coef(a)
                    z = norm_le(add(scale(x, ky), y, kx))
                    if z.const:
                        if z.c > 0:
                            return True
                        continue
                    _put(new, z)
            cons = [Lin(t, c) for t, c in new.items()]
            if len(cons) > limit:
                return False
        for c in cons:
            if c.const and c.c > 0:
                return True
        return False

    def describe(self, names=None):
        out = []
        for a, d in self.dom.items():
            if len(d) == 1 and d[0][0] == d[0][1]:
                out.append('%s==%d' % (a, d[0][0]))
            else:
                s = []
                for lo, hi in d[:6]:
                    s.append('%s' % lo if lo == hi else '%s..%s' % ('' if lo <= -INF else lo, '' if hi >= INF else hi))
                out.append('%s in {%s%s}' % (a, ','.join(s), ',...' if len(d) > 6 else ''))
        for l in self.le:
            out.append('%r<=0' % l)
        for l in self.ne:
            out.append('%r!=0' % l)
        for a, l in self.sub.items():
            out.append('%s==%r' % (a, l))
        return ' & '.join(out)


def _put(d, c):
    """keep only the strongest constant per coefficient vector"""
    o = d.get(c.t)
    if o is None or c.c > o:
        d[c.t] = c.c


def _ceil_div(a, b):
    return -((-a) // b)
