"""C17: words end where the word boundary rules say."""
from .common import *
from .C18 import lookup_functions, unicode_table, module

RULE = ('One generic step of the boundary search is computed for all properties of the four characters it looks at (as the property '
        'lookup of C18 gives them): the step goes on exactly when rules WB3 to WB13c of Unicode 8 join the two characters, the characters '
        'looked at are the neighbours after Extend and Format characters are skipped (never over a line break), and what is returned is the '
        'last character attached to the left one.')
ASSUME = ['code points are 0..10FFFF (C01)', 'the property lookup is right (C18)']
TECH = 'abstract interpretation of LLVM IR with an inductive loop summary; finite decision table compared with the UAX #29 rules'


def finder(P, m, entry):
    g = callgraph(P)

    def below(x, seen):
        for y in g.get(x, ()):
            if y[0] == m.name and y not in seen:
                seen.add(y)
                below(y, seen)
        return seen
    reach = {f.name: below((m.name, f.name), set()) for f in m.functions.values()}
    c = []
    for f in m.functions.values():
        interp.analyse_cfg(f)
        if f.ret is not None and f.ret.k == 'ptr' and len(f.params) == 1 and f.params[0][0].k == 'ptr' and \
                (m.name, entry.name) in reach[f.name]:
            c.append(f)
    c = [f for f in c if not any(h is not f and (m.name, f.name) in reach[h.name] for h in c)]
    c = [f for f in c if (m.name, f.name) in reach.get('find_words', ())]
    if len(c) != 1:
        raise Unsupported('anchor vanished: boundary search (%d candidates)' % len(c))
    return c[0]


def property_prim(P, m):
    en = ir.enumerators(m)
    uni = unicode_table()

    def wbp(I, fr, ins, st, a):
        v = st.facts.value(a[0])
        if v is not None and 0 <= v <= MAXCP:
            return [(st, C(en[uni.get(v, 'Other')]))]
        return [(st, V(atom(('wbp', st.facts.norm(a[0])), None, 0, 16)))]
    return wbp


class Rules:
    def __init__(self, en):
        self.en = en

        def d(*names):
            return is_from([en[n] for n in names])
        self.d = d
        self.newline = d('CR', 'LF', 'Newline')
        self.ef = d('Extend', 'Format')
        ahl = self.ahl = d('ALetter', 'Hebrew_Letter')
        heb = d('Hebrew_Letter')
        num = d('Numeric')
        self.midq = d('MidLetter', 'MidNumLet', 'Single_Quote')
        self.numq = d('MidNum', 'MidNumLet', 'Single_Quote')
        kat, ext = d('Katakana'), d('ExtendNumLet')
        ri = d('Regional_Indicator')
        nl = self.newline
        # (rule, left, right, lookbehind, lookahead, verdict)
        self.rules = [
            ('WB3', d('CR'), d('LF'), None, None, True),
            ('WB3a', nl, None, None, None, False),
            ('WB3b', None, nl, None, None, False),
            ('WB5', ahl, ahl, None, None, True),
            ('WB6', ahl, self.midq, None, ahl, True),
            ('WB7', self.midq, ahl, ahl, None, True),
            ('WB7a', heb, d('Single_Quote'), None, None, True),
            ('WB7b', heb, d('Double_Quote'), None, heb, True),
            ('WB7c', d('Double_Quote'), heb, heb, None, True),
            ('WB8', num, num, None, None, True),
            ('WB9', ahl, num, None, None, True),
            ('WB10', num, ahl, None, None, True),
            ('WB11', self.numq, num, num, None, True),
            ('WB12', num, self.numq, None, num, True),
            ('WB13', kat, kat, None, None, True),
            ('WB13a', d('ALetter', 'Hebrew_Letter', 'Numeric', 'Katakana', 'ExtendNumLet'), ext, None, None, True),
            ('WB13b', ext, d('ALetter', 'Hebrew_Letter', 'Numeric', 'Katakana'), None, None, True),
            ('WB13c', ri, ri, None, None, True),
        ]

    def join(self, q, lb, l, r, la):
        """lb, l, r, la: Lin of a property, or None for no character"""
        def has(x, dom):
            return x is not None and q.in_(x, dom)
        for n, dl, dr, db, da, v in self.rules:
            if (dl is None or has(l, dl)) and (dr is None or has(r, dr)) and (db is None or has(lb, db)) and (da is None or has(la, da)):
                return (v, n)
        return (False, 'WB14')


class Search:
    def __init__(self, ctx, P, S, R):
        self.ctx, self.P, self.S, self.R = ctx, P, S, R
        self.on, self.ov = P.off('Char', 'next'), P.off('Char', 'value')
        self.cache = {}

    def next(self, q):
        return V(atom(('ld', add(q, C(self.on)), 8)))

    def cls(self, f, q):
        a = atom(('ld', add(f.norm(q), C(self.ov)), 4))
        return V(atom(('wbp', V(a)), None, 0, 16))

    def inside(self, f, x, dom):
        """True/False/None"""
        x = f.norm(x)
        v = f.value(x)
        if v is not None:
            return is_contains(dom, v)
        a = x.one()
        d = f.domain(a)
        return True if is_subset(d, dom) else False if not is_inter(d, dom) else None

    def walk(self, L):
        """variables of loop L that step over Extend and Format characters: {var: set of problems}"""
        if id(L) in self.cache:
            return self.cache[id(L)]
        res = {}
        for v in L.vars:
            if v.sym is None or v.ty is None or v.ty.k != 'ptr' or not L.trans():
                continue
            s = V(v.sym)
            if not all(lin_eq(t.facts, t.nxt[v], self.next(s)) for t in L.trans()):
                continue
            post = all(t.facts.decide(t.nxt[v], '!=') is True and self.inside(t.facts, self.cls(t.facts, t.nxt[v]), self.R.ef) is True
                       for t in L.trans())
            pre = all(t.facts.decide(s, '!=') is True and self.inside(t.facts, self.cls(t.facts, s), self.R.ef) is True for t in L.trans())
            res[v] = (post, pre)
        self.cache[id(L)] = res
        return res

    def final(self, f, c):
        """is c the end, or a character that is not skipped?"""
        n = f.decide(c, '==')
        if n is True:
            return True
        r = self.inside(f, self.cls(f, c), self.R.ef)
        return r is False

    def skips(self, f, evs, m, q):
        """values on this path that are the character after q; problems found on the way"""
        out = []
        if f.decide(q, '==') is True:
            return [C(0)]
        k = self.wclass(f, q)
        nl = self.inside(f, k, self.R.newline)
        nx = deep_subst(self.next(q), m)
        if nl is True:
            return [nx]
        for e in evs:
            if e[0] != 'loop':
                continue
            for v, (post, pre) in self.walk(e[1]).items():
                i = deep_subst(v.init, m)
                s = V(v.sym)
                if lin_eq(f, i, q):
                    c = deep_subst(self.next(s), m)
                    if post and self.final(f, c):
                        if nl is None:
                            raise Broken('Extend and Format characters are skipped even after a line break')
                        out.append(c)
                    elif not post and not (pre and lin_eq(f, i, self.next(q))):
                        raise Broken('characters other than Extend and Format are skipped')
                elif lin_eq(f, i, nx):
                    c = deep_subst(s, m)
                    if pre and self.final(f, c):
                        if nl is None:
                            raise Broken('Extend and Format characters are skipped even after a line break')
                        out.append(c)
                    elif not pre and not post:
                        raise Broken('characters other than Extend and Format are skipped')
        if not out and self.final(f, nx) and f.decide(nx, '==') is not None:
            out.append(nx)
        return out

    def wclass(self, f, q):
        if self.dummy is not None and lin_eq(f, q, self.dummy[0]):
            return self.dummy[1]
        return self.cls(f, q)

    dummy = None

    def chain(self, f, evs, q, n):
        """the characters after q: list of Lin (C(0): none; None: not determined), the facts with equal ones merged"""
        m = {}
        res = []
        for _ in range(n):
            cs = self.skips(f, evs, m, q) if q is not None else []
            if not cs:
                res.append(None)
                q = None
                continue
            a = cs[0]
            new = {}
            for c in cs[1:]:
                o = c.one()
                if o is not None and c != a and o is not a.one():
                    new[o] = a
            if new:
                for k in list(m):
                    m[k] = deep_subst(m[k], new)
                m.update(new)
                f = merge(f, new)
                if f is None:
                    return None, None
            res.append(a)
            q = a
        return res, f


class Broken(Exception):
    pass


def merge(f, new):
    todo = []
    for at, d in f.dom.items():
        l = deep_subst(V(at), new)
        if l != V(at):
            todo.append((l, d))
    for l, d in todo:
        v = f.value(l)
        if v is not None:
            if not is_contains(d, v):
                return None
            continue
        o = l.one()
        if o is None:
            continue
        f = f.assume_dom(o, d)
        if f is None:
            return None
    return f


def run(ctx):
    P = ctx.program()
    m, tab, entry, readers = lookup_functions(P)
    en = ir.enumerators(m)
    for n in ('CR', 'LF', 'Newline', 'Extend', 'Format', 'ALetter', 'Hebrew_Letter', 'Numeric', 'Katakana', 'ExtendNumLet', 'MidLetter',
              'MidNum', 'MidNumLet', 'Single_Quote', 'Double_Quote', 'Regional_Indicator'):
        if n not in en:
            raise Unsupported('anchor vanished: property constant %s' % n)
    F = finder(P, m, entry)
    R = Rules(en)
    start = arg('start', 0, ptr=True)
    I = ctx.interp(prims={(m.name, entry.name): property_prim(P, m)}, max_paths=60000)
    outs = live(I.run(F, [start]))
    main = None
    n = 0
    X = None
    done = False
    seen = []
    bad = set()

    def broken(rule, msg, where):
        if (rule, msg[:60]) not in bad or len(bad) < 5:
            bad.add((rule, msg[:60]))
            ctx.fail(rule, msg, where)

    def judge(f, evs, cur, lb, want, where):
        """the rules decide `want` for the step whose facts are f"""
        ch, f2 = X.chain(f, evs, cur, 3 if role == 'A' else 2)
        if ch is None:
            return
        c1, c2, c3 = ch if role == 'A' else [cur] + ch
        if c1 is None:
            raise Unsupported('the character before the boundary is not recognised')
        if f2.decide(c1, '==') is True:
            return
        l = X.wclass(f2, c1)
        if c2 is None:
            # the next character is not determined on this path: it may be any
            r = V(atom(('wbp', 'any right'), None, 0, 16))
        else:
            z = f2.decide(c2, '==')
            r = None if z is True else X.cls(f2, c2)
            if z is None:
                fz = f2.assume(c2, '!=')
                fn = f2.assume(c2, '==')
                if fn is not None:
                    check(fn, lb, l, None, None, want, where)
                f2 = fz
                if f2 is None:
                    return
        if c3 is None:
            la = V(atom(('wbp', 'any lookahead'), None, 0, 16))
        else:
            z = f2.decide(c3, '==')
            la = None if z is True else X.cls(f2, c3)
            if z is None:
                fn = f2.assume(c3, '==')
                if fn is not None:
                    check(fn, lb, l, r, None, want, where)
                f2 = f2.assume(c3, '!=')
                if f2 is None:
                    return
        check(f2, lb, l, r, la, want, where)

    names = {en[k]: k for k in set(unicode_table().values()) | {'Other'} if k in en}

    def check(f, lb, l, r, la, want, where):
        for g, (v, rule) in table(f, lambda q: R.join(q, lb, l, r, la)):
            if v == want:
                ctx.obligations.append('rules')
                ctx.discharged += 1
                ctx.counts['rules'] = ctx.counts.get('rules', 0) + 1
                continue

            def nm(x):
                if x is None:
                    return 'none'
                d = ((g.value(x), g.value(x)),) if g.value(x) is not None else g.domain(g.norm(x).one())
                return '/'.join(names.get(k, '%d' % k) for lo, hi in d for k in range(max(lo, 0), min(hi, 16) + 1)[:3])
            broken('rules', '%s says %s between %s and %s (before: %s, after: %s), the search %s' % (
                rule, 'no boundary' if v else 'boundary', nm(l), nm(r), nm(lb), nm(la), 'goes on' if want else 'stops'), where)

    for o in outs:
        ctx.paths += 1
        f = o.st.facts
        if o.kind != 'ret':
            ctx.fail('end', 'the search ends the program', F.name)
            continue
        for S in loops_of(o.st):
            if S not in seen:
                seen.append(S)
                for t in S.trans():
                    if not dead(t) and all(v.sym is None or lin_eq(t.facts, t.nxt[v], V(v.sym)) for v in S.vars):
                        ctx.fail('progress', 'a step of this loop changes nothing: once taken, the search never ends', S)
        if f.decide(start, '==') is True:
            ctx.require(f.value(o.val) == 0, 'none', 'no characters, no segment', F.name)
            n += 1
            continue
        if f.decide(start, '==') is None:
            raise Unsupported('the search does not look whether there is a character')
        # the main loop: the first one entered
        S = None
        for e in o.st.events():
            if e[0] == 'loop':
                S = e[1]
                break
        if S is None:
            raise Unsupported('the search is not a loop')
        if main is None:
            main = S
            X = Search(ctx, P, S, R)
            role, cur, lbv = roles(ctx, P, I, X, S, start, R, en)
            curs = V(cur.sym)
        if S is not main:
            if S.blk != main.blk or S.func is not main.func:
                raise Unsupported('the search has several loops')
            X = Search(ctx, P, S, R)
            main = S
            role, cur, lbv = roles(ctx, P, I, X, S, start, R, en)
            curs = V(cur.sym)
            done = False
        lb = V(lbv.sym) if lbv is not None else X.wclass(f, curs)
        if not done:
            done = True
            for t in S.trans():
                n += 1
                if dead(t):
                    continue
                try:
                    k = 1 if role == 'A' else 1
                    ch, f2 = X.chain(t.facts, t.events, curs, 1)
                    if ch is None:
                        continue
                    nx = ch[0]
                    if nx is None:
                        raise Unsupported('the search advances in a way that is not recognised')
                    got = t.nxt[cur]
                    same = lin_eq(f2, got, nx) or any(lin_eq(f2, got, c) for c in X.skips(t.facts, t.events, {}, curs))
                    ctx.require(same, 'advance', 'the search goes on to the next character', S)
                    judge(t.facts, t.events, curs, lb, True, S)
                except Broken as e:
                    broken('skip', str(e), S)
        # this outcome: after the loop
        evs = o.st.events()
        if f.decide(X.next(curs), '==') is True:
            # the loop is never continued, nor entered, without a next character
            continue
        if f.decide(curs, '==') is True:
            continue
        n += 1
        try:
            judge(f, evs, curs, lb, False, S)
            ch, f2 = X.chain(f, evs, curs, 1) if role == 'A' else ([curs], f)
            if ch is None:
                continue
            c1 = ch[0]
            if c1 is not None and f2.decide(c1, '==') is True:
                continue
            ok = ends(X, f, evs, c1, o.val, [c for c in X.skips(f, evs, {}, curs)] if role == 'A' else [curs])
            if ok is None:
                raise Unsupported('the value returned is not recognised')
            ctx.require(ok, 'attached', 'the segment ends with the last Extend or Format character attached to its last character', F.name)
        except Broken as e:
            broken('skip', str(e), S)
    ctx.require(n >= 50, 'rules', 'the search decides', F.name)


def roles(ctx, P, I, X, S, start, R, en):
    cur = None
    for v in S.vars:
        if v.sym is None or v.ty is None or v.ty.k != 'ptr' or v.tmpl:
            continue
        b, off = interp.base_of(v.init)
        if b is not None and b.obj == 'alloca':
            fs = I.load(S.pre, add(v.init, C(X.on)), 8, ir.PTR)
            if len(fs) == 1 and lin_eq(S.pre.facts, fs[0][1], start):
                cur, role = v, 'A'
                vs = I.load(S.pre, add(v.init, C(X.ov)), 4, ir.Ty('int', 32))
                c = S.pre.facts.value(vs[0][1]) if len(vs) == 1 else None
                k = en[unicode_table().get(c, 'Other')] if c is not None else None
                ctx.require(k is not None and is_contains(R.newline, k), 'start',
                            'nothing is attached to the start of the text: the first character is looked at even if it is an Extend or Format character',
                            S)
                break
        elif lin_eq(S.pre.facts, v.init, start) and any(t.nxt[v] != V(v.sym) for t in S.trans()):
            cur, role = v, 'B'
    if cur is None:
        raise Unsupported('the search does not walk along the text')
    # the property of the character before
    lbv = None
    for v in S.vars:
        if v.sym is None or v is cur or v.ty is None or v.ty.k != 'int' or v.tmpl or not S.trans():
            continue
        ok = True
        for t in S.trans():
            tgt = t.nxt[cur] if role == 'A' else V(cur.sym)
            nv = t.facts.value(t.nxt[v])
            if not (lin_eq(t.facts, t.nxt[v], X.cls(t.facts, tgt)) or (nv is not None and nv == t.facts.value(X.cls(t.facts, tgt)))):
                ok = False
        if ok:
            i = S.pre.facts.value(v.init)
            ctx.require(i is not None and not is_contains(R.d('ALetter', 'Hebrew_Letter', 'Numeric'), i), 'start',
                        'before the first character there is no letter and no digit', S)
            lbv = v
            break
    if lbv is None and role == 'B':
        raise Unsupported('the property of the character before is not kept')
    return role, cur, lbv


def ends(X, f, evs, c1, val, alts):
    """val is the last character attached to c1"""
    if val is None:
        return None
    for c in alts:
        if lin_eq(f, val, c):
            k = X.wclass(f, c)
            if X.inside(f, k, X.R.newline) is True:
                return True
            nx = X.next(c)
            if X.final(f, nx):
                return True
            for e in evs:
                if e[0] == 'loop':
                    for v in X.walk(e[1]):
                        if lin_eq(f, v.init, c) and lin_eq(f, V(v.sym), c):
                            return True
            return False
    for e in evs:
        if e[0] != 'loop':
            continue
        for v, (post, pre) in X.walk(e[1]).items():
            if lin_eq(f, val, V(v.sym)) and any(lin_eq(f, v.init, c) for c in alts):
                if not post:
                    return False
                if any(X.inside(f, X.wclass(f, c), X.R.newline) is not False for c in alts):
                    return False
                return X.final(f, X.next(V(v.sym)))
    return None
