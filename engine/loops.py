"""Loop abstraction: one generic iteration from an over-approximated head state, with inferred invariants."""
from . import ir
from .terms import *
from . import interp as IP
from . import libc
from math import gcd


class Unclear(IP.Unsupported):
    """a cell of a loop that is not read back in one way"""
    def __init__(self, var):
        super().__init__('loop cell %s' % var.name)
        self.var = var


class Var:
    """a quantity that may change from iteration to iteration"""
    __slots__ = ('kind', 'key', 'ty', 'init', 'sym', 'tmpl', 'flag', 'name', 'opt', 'place')

    def __init__(self, kind, key, ty, init, name):
        self.kind = kind      # 'phi' | 'cell' | 'x' | 'at' (how far a pointer into one object has come)
        self.key = key
        self.ty = ty
        self.init = init
        self.sym = None
        self.tmpl = None      # Herbrand template: function(dict var->Lin) -> Lin
        self.flag = False
        self.place = None     # pointer into one object: the 'at' variable it is given by; of that: [pointer variable, object, unit]
        self.opt = False      # flag on trial: only 0 and 1 are taken for flag values
        self.name = name

    def __repr__(self):
        return 'Var(%s)' % self.name


def untrunc(x, f):
    for a, k in x.t:
        if isinstance(a.key, tuple) and a.key[0] == 'trunc':
            return f.norm(add(sub(x, scale(V(a), k)), scale(a.key[2], k)))
    return x


def come(d, w):
    """how many units a pointer has come, if it is a whole number"""
    u = w.place[2] or 1
    if d.c % u == 0 and all(k % u == 0 for _, k in d.t) and not any(IP.is_ptr_atom(a) for a in d.atoms()):
        return Lin(tuple((a, k // u) for a, k in d.t), d.c // u)
    return V(w.sym)


class Trans:
    __slots__ = ('st', 'events', 'nxt', 'target', 'src', 'head')

    def __init__(self, st, events, nxt, src, head):
        self.st = st
        self.events = events
        self.nxt = nxt          # dict Var -> Lin
        self.src = src
        self.head = head
        self.target = None

    @property
    def facts(self):
        return self.st.facts


class Part:
    def __init__(self, key, head):
        self.key = key          # tuple of flag constants
        self.head = head        # head State
        self.trans = []
        self.exits = []         # Outcome list (goto / ret / exit)
        self.vals = None        # Var -> Lin at head


class Summary:
    def __init__(self, lid, fr, blk):
        self.lid = lid
        self.fn = fr.fn.name
        self.func = fr.fn
        self.mod = fr.mod.name
        self.blk = blk
        self.line = None
        self.vars = []
        self.parts = {}
        self.start = None
        self.pre = None
        self.inv = []
        self.hv = []
        self.saccs = {}

    def __repr__(self):
        return 'Loop(%s:%s)' % (self.fn, self.line)

    def trans(self):
        return [t for p in self.parts.values() for t in p.trans]

    def exits(self):
        return [o for p in self.parts.values() for o in p.exits]

    def var(self, sym):
        for v in self.vars:
            if v.sym is not None and V(v.sym) == sym:
                return v
        return None


def key_has(key, lid):
    """does an atom key mention this loop instance, or one nested in it (created later)?"""
    if not isinstance(lid, Lid):
        return False
    if isinstance(key, tuple):
        for k in key:
            if isinstance(k, tuple):
                if key_has(k, lid):
                    return True
            elif isinstance(k, Lid) and k.ser >= lid.ser:
                return True
        return False
    return isinstance(key, Lid) and key.ser >= lid.ser


class Lid:
    """identity of a loop instance (hash-consed by identity)"""
    n = 0
    __slots__ = ('name', 'ser')

    def __init__(self, name):
        Lid.n += 1
        self.ser = Lid.n
        self.name = '%s' % name

    def __repr__(self):
        return '%s#%d' % (self.name, self.ser)


_hascache = {}


def variant(l, lid):
    for a in deep_atoms(l):
        k = (a.id, lid.ser)
        r = _hascache.get(k)
        if r is None:
            r = _hascache[k] = key_has(a.key, lid)
        if r:
            return True
    return False


def since(mem, mark):
    out = []
    while mem is not None and mem is not mark:
        out.append(mem[1])
        mem = mem[0]
    out.reverse()
    return out


def ty_range(ty):
    if ty is not None and ty.k == 'int':
        return IP.WR.get(ty.a, (-INF, INF))
    return (-INF, INF)


def local_dead(base, fr):
    """an alloca of a frame called from inside the loop body"""
    return base.obj == 'alloca' and len(base.key[1]) > len(fr.uid) and base.key[1][:len(fr.uid)] == fr.uid


class Analysis:
    def __init__(self, I, fr, blk, prev, env, st):
        self.I = I
        self.fr = fr
        self.blk = blk
        self.body = fr.fn.loops[blk]
        self.env = I.phis(fr, blk, prev, env) if prev is not None else env
        self.st = st
        line = None
        for b in [blk] + sorted(self.body):
            for ins in fr.fn.blocks[b]:
                line = line or ir.line_of(fr.mod, ins.dbg)
        self.lid = Lid('%s.%s' % (fr.fn.name, blk))
        self.sum = Summary(self.lid, fr, blk)
        self.sum.line = line
        self.sum.pre = st
        self.vars = []
        for ins in fr.fn.blocks[blk]:
            if ins.op != 'phi':
                break
            v = Var('phi', ins.res, ins.ty, st.facts.norm(self.env[ins.res]), ins.res)
            self.vars.append(v)
            b = IP.base_of(v.init)[0] if ins.ty.k == 'ptr' else None
            if b is not None and self.several(b):
                w = Var('at', ins.res, ir.ity(64), ZERO, ins.res + '@')
                v.place, w.place = w, [v, b, None]
                v.tmpl = lambda vals, v=v, w=w: add(v.init, scale(vals[w], w.place[2] or 1))
                self.vars.append(w)
        self.hv = []          # non-cell havoc descriptors
        self.saccs = {}       # base -> dict(off, init tokens, idx var or None)
        self.nosacc = set()
        self.cands = []
        self.pins = {}        # flag values -> values of other variables then
        self.unclear = set()  # cells whose place turned out to vary
        self.unpinned = set()

    # ---- head construction
    def head(self, flagvals, inv, use_tmpl=True):
        I, st, lid = self.I, self.st, self.lid
        vals = {}
        env = dict(self.env)
        facts = st.facts
        for n, v in enumerate(self.vars):
            if v.sym is None:
                lo, hi = ty_range(v.ty)
                fl = v.ty is not None and v.ty.k in ('double', 'float')
                v.sym = atom(('L', lid, n), '%s~%s' % (v.name, lid.ser), lo, hi, None, fl)
                if v.ty is not None and v.ty.k == 'ptr':
                    IP.mkptr(v.sym)
                    v.sym.lo = 0
        for v in self.vars:
            if v.flag:
                vals[v] = flagvals[v]
            elif not (v.tmpl and (use_tmpl or v.place)):
                vals[v] = V(v.sym)
        for v in self.vars:
            if v not in vals:
                vals[v] = v.tmpl(vals)
        s = State(facts, st.mem, st.ev, st.extra)
        mem = st.mem
        for w in self.hv:
            mem = (mem, ('hv', lid, w))
        for v in self.vars:
            if v.kind == 'phi':
                env[v.key] = vals[v]
            elif v.kind == 'cell':
                b, o, sz, tag = v.key
                mem = (mem, ('hv', lid, ('cell', b, o, sz, vals[v])))
        for b, d in self.saccs.items():
            mem = (mem, ('hv', lid, ('base', b)))
            tok = ('sacc', lid, b)
            if d['mode'] == 'cat':
                mem = (mem, ('str', b, d['off'], (tok,)))
            else:
                mem = (mem, ('piece', b, d['off'], tok, sub(vals[d['var']], d['off'])))
        s.mem = mem
        ex = dict(st.extra)
        ex['iter'] = st.extra.get('iter', ()) + (lid,)
        ex['nalloc'] = 0
        for v in self.vars:
            if v.kind == 'x':
                ex[v.key] = vals[v]
        s.extra = ex
        s.ev = (st.ev, ('loop', self.sum))
        f = facts
        for l, op in inv:
            f = f.assume(self.inst(l, vals), op)
            if f is None:
                return None, None, None
        s.facts = f
        return env, s, vals

    def inst(self, l, vals):
        """instantiate a constraint over head symbols with values"""
        m = {v.sym: vals[v] for v in self.vars if v.sym is not None and vals[v] != V(v.sym)}
        return deep_subst(l, m)

    # ---- one pass
    def run(self, flagvals, inv, use_tmpl=True):
        env, s, vals = self.head(flagvals, inv, use_tmpl)
        if s is not None and use_tmpl:
            for v, n in self.pins.get(tuple(flagvals[v].c for v in self.vars if v.flag), {}).items():
                if v.sym is not None and not v.flag and not v.tmpl:
                    f = s.facts.assume(sub(V(v.sym), n), '==')
                    if f is None:
                        return None, [], [], vals
                    s.facts = f
        if s is None:
            return None, [], [], vals
        mark = s.mem
        outs = self.I.region(self.fr, self.blk, None, env, s, (self.blk, self.body))
        back, exits = [], []
        for o in outs:
            if o.kind == 'goto' and o.blk == self.blk:
                e2 = self.I.phis(self.fr, self.blk, o.prev, o.env)
                nxt = {}
                for v in self.vars:
                    if v.kind == 'phi':
                        nxt[v] = o.st.facts.norm(e2[v.key])
                    elif v.kind == 'x':
                        nxt[v] = o.st.facts.norm(o.st.extra.get(v.key, ZERO))
                    elif v.kind == 'at':
                        nxt[v] = come(o.st.facts.norm(sub(e2[v.key], v.place[0].init)), v)
                    else:
                        b, of, sz, tag = v.key
                        r = self.I._load(o.st, o.st.mem, b, of, sz, v.ty, tag)
                        if len(r) != 1:
                            raise Unclear(v)
                        nxt[v] = o.st.facts.norm(r[0][1])
                evs = o.st.events(s.ev)
                back.append(Trans(o.st, evs, nxt, None, s))
            else:
                exits.append(o)
        self.mark = mark
        return s, back, exits, vals

    def several(self, b):
        """an object that has several elements, so that a pointer may go over them"""
        if b.obj == 'heap':
            return True
        if b.obj == 'alloca':
            ty = (b.meta or {}).get('ty')
            return ty is not None and ty.k == 'arr'
        if b.obj == 'global':
            g, m = self.I.ginfo(b)
            ty = g and g['ty']
            if g is not None and ty.k == 'named':
                ty = m.structs.get(ty.a)
            return ty is not None and (ty.k == 'arr' or ty.k in ('struct', 'packed') and any(x.k == 'arr' for x in ty.a))
        return False

    def places(self, back):
        """do the pointers taken to stay in one object do so, in steps of the unit assumed? If not, they are taken differently from now on"""
        again = False
        for w in [w for w in self.vars if w.kind == 'at']:
            v, b, unit = w.place
            if v.tmpl is None:
                continue
            u = 0
            for t in back:
                d = t.facts.norm(sub(t.nxt[v], v.tmpl({w: V(w.sym)})))
                if any(IP.is_ptr_atom(a) for a in d.atoms()):
                    u = None
                    break
                u = gcd(u, gcd(d.c, *[k for _, k in d.t]))
            if u is None:
                v.tmpl = v.place = None
                self.vars.remove(w)
                again = True
            elif back and (unit is None or u % unit):
                w.place[2] = 1 if unit is not None else u or 1
                again |= w.place[2] != unit and (unit is not None or w.place[2] != 1)
        return again

    # ---- which memory does the body write
    def discover(self, s, back):
        self.deferred = False
        self.moving = set()
        for t in back:
            for e in since(t.st.mem, self.mark):
                if e[0] == 'st' and not variant(V(e[1]), self.lid) and not variant(e[2], self.lid):
                    self.moving.add((e[1], e[2], e[3]))
        changed = self.discover1(s, back)
        if not changed and self.deferred:
            self.moving = set()
            changed = self.discover1(s, back)
        return changed

    def moves(self, l):
        """does the address depend on a cell that is about to become a variable of the loop?"""
        ats = None
        for b, off, size in self.moving:
            if size > 8:
                continue
            r = self.I._load(self.st, self.st.mem, b, off, size, {1: ir.ity(8), 2: ir.ity(16), 4: ir.ity(32)}.get(size, ir.ity(64)), None)
            if len(r) != 1:
                continue
            v = self.st.facts.norm(r[0][1])
            if v.const:
                continue
            ats = ats if ats is not None else set(deep_atoms(l))
            if any(a in ats for a in v.atoms()):
                return True
        return False

    def discover1(self, s, back):
        changed = False
        known = {v.key[:3] for v in self.vars if v.kind == 'cell'}
        for t in back:
            for e in since(t.st.mem, self.mark):
                if e[0] == 'hv':
                    w = e[2]
                    if w[0] == 'cell':
                        if local_dead(w[1], self.fr) or self.body_heap(w[1]):
                            continue
                        changed |= self.add_cell(w[1], w[2], w[3], None, known, t, e)
                    elif w[0] == 'base':
                        if local_dead(w[1], self.fr) or self.body_heap(w[1]):
                            continue
                        changed |= self.add_hv(w)
                    elif w[0] == 'var':
                        if local_dead(w[1], self.fr) or self.body_heap(w[1]):
                            continue
                        changed |= self.add_cell(w[1], w[2], w[3], w[4], known, t, e)
                    else:
                        changed |= self.add_hv(w)
                    continue
                b = e[1]
                if local_dead(b, self.fr) or self.body_heap(b):
                    continue
                if e[0] == 'st':
                    if b in self.saccs:
                        continue
                    if e[3] == 1 and self.textual(b, t):
                        changed |= self.add_text(b, t)
                        continue
                    changed |= self.add_cell(b, e[2], e[3], e[5], known, t, e)
                elif e[0] in ('str', 'u8', 'piece'):
                    changed |= self.add_text(b, t)
                elif e[0] == 'cp':
                    changed |= self.add_copy(b, e, t)
                else:
                    changed |= self.add_hv(('base', b))
            for k, v in t.st.extra.items():
                if k in ('iter', 'nalloc') or not isinstance(v, Lin):
                    continue
                o = s.extra.get(k)
                if o is not None and o != v and not any(x.kind == 'x' and x.key == k for x in self.vars):
                    self.vars.append(Var('x', k, None, self.st.extra[k], 'x:' + k))
                    changed = True
                elif o is None and isinstance(v, Lin):
                    raise IP.Unsupported('state component %s created in a loop' % k)
        return changed

    def body_heap(self, b):
        return b.obj == 'heap' and key_has(b.key, self.lid)

    def textual(self, b, t):
        for e in since(t.st.mem, self.mark):
            if e[0] in ('str', 'u8') and e[1] is b:
                return True
        return b in self.saccs

    def add_hv(self, w):
        if w[0] == 'base' and w[1] in self.saccs:
            return False
        for x in self.hv:
            if x[0] == w[0] and x[1] == w[1] and (w[0] != 'var' or tuple(x[2:5]) == tuple(w[2:5])):
                return False
        if w[0] == 'var':
            w = list(w)         # narrowed in place once the invariants are known
        self.hv.append(w)
        if w[0] == 'base':
            self.vars = [v for v in self.vars if not (v.kind == 'cell' and v.key[0] is w[1])]
        return True

    def narrow(self, trans):
        """shrink the regions written at varying offsets to what the final invariants show"""
        for x in self.hv:
            if x[0] != 'var' or not any(a.key[0] == 'gen' and a.key[1] is self.lid for a, _ in x[2].t):
                continue
            g = None
            for t in trans:
                for e in since(t.st.mem, t.head.mem):
                    if e[0] == 'st':
                        b, off, size, tag = e[1], e[2], e[3], e[5]
                    elif e[0] == 'cp':
                        b, off, size, tag = e[1], e[2], e[3], None
                    elif e[0] == 'hv' and e[2][0] == 'var':
                        b, off, size, tag = e[2][1:5]
                    else:
                        continue
                    if b is not x[1] or size != x[3] or tag != x[4] or not subst_eq(x[2], off):
                        continue
                    n = self.generic(off, t)
                    if g is None:
                        g = n
                    elif n != g:
                        g = self.widened(['var', b, g, size, tag], off, t) or g
            if g is not None:
                x[2] = g

    def add_copy(self, b, e, t):
        off, n = e[2], e[3]
        if b.obj in ('alloca',) or not variant(V(b), self.lid) and not variant(off, self.lid):
            return self.add_hv(('base', b)) if b.obj else self.add_hv(('var', b, off, n, None))
        if not variant(V(b), self.lid):
            for x in self.hv:
                if x[0] == 'var' and x[1] is b and x[4] is None and x[3] == n and subst_eq(x[2], off):
                    g = self.widened(x, off, t)
                    if g is None:
                        return False
                    self.hv.remove(x)
                    return self.add_hv(('var', b, g, n, None))
            return self.add_hv(('var', b, self.generic(off, t), n, None))
        raise IP.Unsupported('struct copy through a loop-variant pointer')

    def generic(self, off, t):
        """offset with loop-variant atoms replaced by box-bounded generic atoms"""
        m = {}
        for a, k in off.t:
            if variant(V(a), self.lid):
                lo, hi = bounds_rel(t.st.facts, a)
                lo, hi = max(lo, -INF), min(hi, INF)
                m[a] = V(atom(('gen', self.lid, a, lo, hi), 'any(%s)' % a.name, lo, hi))
        return subst_lin(off, m)

    def widened(self, x, off, t):
        """a recorded region x of the same shape as off: None when it covers off, else the region covering both"""
        g = self.generic(off, t)
        if g == x[2]:
            return None
        def boxes(l):
            d = {}
            for a, k in l.t:
                if a.key[0] == 'gen' and a.key[1] is self.lid:
                    lo, hi = d.get(k, (a.key[3], a.key[4]))
                    d[k] = (min(lo, a.key[3]), max(hi, a.key[4]))
                else:
                    d.setdefault(('atom', a.id), (0, 0))
            return d
        old, new = boxes(x[2]), boxes(g)
        if all(k in old and old[k][0] <= lo and hi <= old[k][1] for k, (lo, hi) in new.items()):
            return None
        m = {}
        for a, k in g.t:
            if a.key[0] == 'gen' and a.key[1] is self.lid:
                lo, hi = new[k]
                if k in old:
                    lo, hi = min(lo, old[k][0]), max(hi, old[k][1])
                m[a] = V(atom(('gen', self.lid, a.key[2], lo, hi), a.name, lo, hi))
        return subst_lin(g, m)

    def add_cell(self, b, off, size, tag, known, t, e):
        if variant(V(b), self.lid):
            if tag is None:
                raise IP.Unsupported('loop writes through a computed pointer')
            return self.add_hv(('tag', tag))
        if variant(off, self.lid):
            if b.obj == 'alloca':
                return self.add_hv(('base', b))
            for x in self.hv:
                if x[0] == 'base' and x[1] is b:
                    return False
                if x[0] == 'var' and x[1] is b and x[4] == tag and x[3] == size and subst_eq(x[2], off):
                    g = self.widened(x, off, t)
                    if g is None:
                        return False
                    self.hv.remove(x)
                    return self.add_hv(('var', b, g, size, tag))
            return self.add_hv(('var', b, self.generic(off, t), size, tag))
        for x in self.hv:
            if x[0] == 'base' and x[1] is b:
                return False
        if (b, off, size) in known:
            return False
        if (b, off, size) in self.unclear and b.obj:
            return self.add_hv(('base', b))
        if self.moves(off) or self.moves(V(b)):
            self.deferred = True
            return False
        for v in self.vars:
            if v.kind == 'cell' and v.key[0] is b:
                r = self.I.overlap(self.st, off, size, v.key[1], v.key[2])
                if r == 'eq':
                    return False
                if r != 'no':
                    return self.add_hv(('base', b)) if b.obj else self.add_hv(('var', b, off, size, tag))
        known.add((b, off, size))
        ty = None
        ty = {1: ir.ity(8), 2: ir.ity(16), 4: ir.ity(32), 8: None}.get(size)
        val = e[4] if e[0] == 'st' else e[2][4] if e[0] == 'hv' and e[2][0] == 'cell' else None
        if size == 8:
            ty = ir.ity(64)
            if val is not None:
                bb, _ = IP.base_of(val)
                if bb is not None:
                    ty = ir.PTR
                elif any(a.fl for a in val.atoms()):
                    ty = ir.DOUBLE
        r = self.I._load(self.st, self.st.mem, b, off, size, ty, tag)
        if len(r) != 1:
            return self.add_hv(('base', b)) if b.obj else self.add_hv(('var', b, off, size, tag))
        iv = self.st.facts.norm(r[0][1])
        if ty is not None and ty.k == 'int' and size == 8:
            bb, _ = IP.base_of(iv)
            if bb is not None:
                ty = ir.PTR
            elif any(a.fl for a in iv.atoms()):
                ty = ir.DOUBLE
        self.vars.append(Var('cell', (b, off, size, tag), ty, iv, '%s[%r]' % (b.name, off)))
        return True

    # -- accumulated strings
    def add_text(self, b, t):
        if b in self.saccs or ('base', b) in [x[:2] for x in self.hv]:
            return False
        if b in self.nosacc:
            return self.add_hv(('base', b))
        # index form: every text write of the iteration starts at a phi
        ents = [e for e in since(t.st.mem, self.mark) if e[0] != 'hv' and e[1] is b]
        first = ents[0]
        var = None
        for v in self.vars:
            if v.kind in ('phi', 'cell', 'at') and v.sym is not None and (v.ty is None or v.ty.k == 'int'):
                d = t.st.facts.norm(sub(first[2], V(v.sym)))
                if first[2] == V(v.sym) or (first[2].coef(v.sym) == 1 and d == ZERO):
                    var = v
        init = None
        if var is not None:
            i0 = var.init
            if i0 == ZERO or i0.const:
                toks = []
                if i0.c != 0:
                    g = libc.gather(self.I, self.st, b, ZERO)
                    toks = g if g is not None else None
                if toks is not None:
                    self.saccs[b] = dict(mode='idx', off=ZERO, var=var, init=libc.norm_tokens(toks))
                    return True
        if first[0] == 'str' and first[2].const and not variant(first[2], self.lid):
            g = libc.gather(self.I, self.st, b, first[2])
            if g is not None and first[3] and first[3][:0] == ():
                self.saccs[b] = dict(mode='cat', off=first[2], var=None, init=libc.norm_tokens(g))
                return True
        return self.add_hv(('base', b))

    def check_saccs(self, back):
        """per-iteration contribution of accumulated strings; drop those that are not accumulations"""
        bad = []
        for b, d in self.saccs.items():
            tok = ('sacc', self.lid, b)
            for t in back:
                g = libc.gather_open(self.I, t.st, b, d['off'],
                                     t.nxt[d['var']] if d['mode'] == 'idx' else None)
                if g is None or not g or g[0] != tok or tok in g[1:]:
                    bad.append(b)
                    break
        for b in bad:
            del self.saccs[b]
            self.nosacc.add(b)
            self.hv.append(('base', b))
        return bool(bad)

    # ---- invariants
    def find_flags(self, back):
        ch = False
        for v in self.vars:
            if v.flag or v.tmpl:
                continue
            iv = self.st.facts.value(v.init)
            if iv is None:
                continue
            vals = {iv}
            ok = True
            chg = False
            for t in back:
                n = t.nxt[v]
                if n == V(v.sym):
                    continue
                c = t.facts.value(n)
                if c is None:
                    ok = False
                    break
                vals.add(c)
                chg = True
            if not ok and iv in (0, 1) and v.ty is not None and v.ty.k == 'int' and v.kind in ('phi', 'cell') and \
                    not any((lambda d: d.const and d.c)(t.facts.norm(sub(t.nxt[v], V(v.sym)))) for t in back):
                # perhaps a boolean combined with others
                v.flag = v.opt = ch = True
                continue
            if ok and len(vals) <= (40 if v.kind == 'x' else 12):
                v.flag = True
                ch = True
            elif not ok and self.I.opts.get('small_counters') and back and v.sym is not None:
                # a counter that takes few values
                ds = {(lambda d: d.c if d.const else 0)(t.facts.norm(sub(t.nxt[v], V(v.sym)))) for t in back}
                if len(ds) == 1 and 0 not in ds:
                    d = ds.pop()
                    ends = [bounds_rel(t.facts, v.sym)[1 if d > 0 else 0] for t in back]
                    if all(abs(e) < INF and 0 <= (e - iv) // d < 8 for e in ends):
                        v.flag = True
                        ch = True
        return ch

    def find_templates(self, back):
        ch = False
        # a local variable that always equals a place in memory
        for v in self.vars:
            if v.kind != 'phi' or v.flag or v.tmpl or not back or v.init.const:
                continue
            for w in self.vars:
                if w.kind == 'cell' and not w.flag and not w.tmpl and w.sym is not None and w.init == v.init and \
                        all(t.facts.norm(t.nxt[v]) == t.facts.norm(t.nxt[w]) for t in back) and \
                        not all(t.facts.norm(sub(t.nxt[w], V(w.sym))).const for t in back):
                    v.tmpl = lambda vals, w=w: vals[w]
                    ch = True
                    break
        for v in self.vars:
            if v.flag or v.tmpl or not back:
                continue
            ia = v.init.one()
            if ia is None or not isinstance(ia.key, tuple) or not isinstance(ia.key[0], str):
                continue
            op = ia.key[0]
            res = None
            for w in self.vars:
                if w is v or w.flag or w.tmpl or w.sym is None:
                    continue
                cs = None
                ok = True
                for t in back:
                    na = t.nxt[v].one()
                    if na is None or not isinstance(na.key, tuple) or na.key[0] != op or len(na.key) != len(ia.key):
                        ok = False
                        break
                    c = []
                    for x, y in zip(na.key[1:], ia.key[1:]):
                        if isinstance(x, Lin) and isinstance(y, Lin):
                            dx = t.facts.norm(sub(x, t.nxt[w]))
                            dy = self.st.facts.norm(sub(y, w.init))
                            if dx.const and dy.const and dx.c == dy.c:
                                c.append(('v', dx.c))
                                continue
                            if x == y and not variant(x, self.lid):
                                c.append(('k', x))
                                continue
                            ok = False
                            break
                        elif x == y:
                            c.append(('k', x))
                        else:
                            ok = False
                            break
                    if not ok or not any(z[0] == 'v' for z in c):
                        ok = False
                        break
                    if cs is None:
                        cs = c
                    elif cs != c:
                        ok = False
                        break
                if ok and cs is not None:
                    res = (w, cs)
                    break
            if res:
                w, cs = res

                def tm(vals, w=w, cs=cs, op=op, ia=ia, ptr=v.ty is not None and v.ty.k == 'ptr'):
                    key = (op,) + tuple(add(vals[w], C(z[1])) if z[0] == 'v' else z[1] for z in cs)
                    a = atom(key, None, ia.lo, ia.hi, ia.obj, ia.fl)
                    return V(IP.mkptr(a) if ptr and not ia.obj else a)
                v.tmpl = tm
                ch = True
        return ch

    def numeric(self):
        return [v for v in self.vars if not v.flag and not v.tmpl and v.sym is not None and
                not (v.ty is not None and v.ty.k in ('double', 'float'))]

    def candidates(self, back):
        c = []
        nums = self.numeric()
        f0 = self.st.facts

        def put(l, op):
            if (l, op) not in c and not l.const:
                # must hold initially
                m = {v.sym: v.init for v in self.vars if v.sym is not None}
                if f0.decide(deep_subst(l, m), op) is True:
                    c.append((l, op))
        delt = {}
        for v in nums:
            ds = [t.facts.norm(sub(t.nxt[v], V(v.sym))) for t in back]
            delt[v] = ds
            d = sub(V(v.sym), v.init)
            if v.ty is not None and v.ty.k == 'ptr' and not all(x.const for x in ds):
                continue
            odd = [a.key[0] for x in ds for a in deep_atoms(x) if isinstance(a.key, tuple)]
            if any(k in ('trunc', 'zext', 'sext', 'wrap') for k in odd):
                # machine conversions: try the bounds, they are dropped if not inductive
                put(scale(d, -1), '<=')
                put(d, '<=')
                continue
            if all(t.facts.decide(scale(x, -1), '<=') is True for t, x in zip(back, ds)):
                put(scale(d, -1), '<=')
            if all(t.facts.decide(x, '<=') is True for t, x in zip(back, ds)):
                put(d, '<=')
        for i, v in enumerate(nums):
            for w in nums[i + 1:]:
                dv, dw = delt[v], delt[w]
                if not dv:
                    continue
                r = None
                ok = True
                if all(x == y for x, y in zip(dv, dw)):
                    r = (1, 1)
                elif all(x == scale(y, -1) for x, y in zip(dv, dw)):
                    r = (1, -1)
                else:
                    for x, y in zip(dv, dw):
                        if not (x.const and y.const):
                            ok = False
                            break
                        if x.c == 0 and y.c == 0:
                            continue
                        if x.c == 0 or y.c == 0:
                            ok = False
                            break
                        if r is None:
                            g = gcd(abs(x.c), abs(y.c))
                            r = (x.c // g, y.c // g)
                        elif x.c * r[1] != y.c * r[0]:
                            ok = False
                            break
                if v.ty is not None and v.ty.k == 'int' and w.ty is not None and w.ty.k == 'int' and \
                        any(not x.const for x in dv) and any(not x.const for x in dw) and not f0.norm(v.init).const and not f0.norm(w.init).const:
                    put(sub(V(v.sym), V(w.sym)), '<=')
                    put(sub(V(w.sym), V(v.sym)), '<=')
                dv, dw = ([untrunc(x, t.facts) for x, t in zip(ds, back)] for ds in (dv, dw))
                if (not ok or r is None) and v.ty is not None and v.ty.k == 'int' and w.ty is not None and w.ty.k == 'int' and \
                        all(x.const and y.const for x, y in zip(dv, dw)):
                    # one never moves further than the other (if no value is cut off, which is seen when this is tried)
                    l = sub(sub(V(v.sym), v.init), sub(V(w.sym), w.init))
                    if all(x.c <= y.c for x, y in zip(dv, dw)):
                        put(l, '<=')
                    elif all(x.c >= y.c for x, y in zip(dv, dw)):
                        put(scale(l, -1), '<=')
                if not ok or r is None:
                    # values set anew whose sum or difference may stay what it was: tried where that is simpler than the values
                    if not ok and any(not x.const and not y.const for x, y in zip(dv, dw)):
                        x, y = f0.norm(v.init), f0.norm(w.init)
                        for z, l in ((add(x, y), add(V(v.sym), V(w.sym))), (sub(x, y), sub(V(v.sym), V(w.sym)))):
                            if x.t and y.t and x != y and len(z.t) < len(x.t) + len(y.t) - 1:
                                put(sub(l, z), '==')
                    continue
                # r[1]*v - r[0]*w constant
                l = sub(scale(sub(V(v.sym), v.init), r[1]), scale(sub(V(w.sym), w.init), r[0]))
                put(l, '==')
        # guard-derived
        syms = {v.sym: v for v in nums}
        for t in back:
            cons = []
            for l in t.facts.le:
                cons.append(l)
            for l in t.facts.ne:
                cons.append(l)
                cons.append(scale(l, -1))
            for a, d in t.facts.dom.items():
                if a in syms and d:
                    if d[0][0] > -INF:
                        cons.append(sub(C(d[0][0]), V(a)))
                    if d[-1][1] < INF:
                        cons.append(sub(V(a), C(d[-1][1])))
                    for i in range(len(d) - 1):
                        if d[i + 1][0] - d[i][1] == 2:
                            cons.append(sub(V(a), C(d[i][1] + 1)))
                            cons.append(scale(cons[-1], -1))
            for l in cons:
                at = [a for a, _ in l.t if a in syms]
                if not at:
                    continue
                if any(variant(V(a), self.lid) and a not in syms for a, _ in l.t):
                    continue
                put(l, '<=')
                # l(v) <= 0 with v = v' - d
                m = {}
                ok = True
                for a in at:
                    d = t.facts.norm(sub(t.nxt[syms[a]], V(a)))
                    if not d.const:
                        ok = False
                        break
                    m[a] = add(V(a), C(-d.c))
                if ok:
                    put(subst_lin(l, m), '<=')
        return c

    def holds_after(self, t, l, op, vals):
        m = {v.sym: t.nxt[v] for v in self.vars if v.sym is not None}
        return t.facts.decide(deep_subst(l, m), op) is True

    def pin(self, k, nxt, facts):
        """values that a variable has whenever the flags have the values k; False if one tried turns out different"""
        ok = True
        first = k not in self.pins
        p = self.pins.setdefault(k, {})
        for v in self.numeric():
            if v.ty is not None and v.ty.k == 'ptr':
                continue
            n = facts.norm(nxt[v])
            if first:
                if (k, v) not in self.unpinned and not variant(n, self.lid):
                    p[v] = n
            elif v in p and facts.decide(sub(n, p[v]), '==') is not True:
                del p[v]
                self.unpinned.add((k, v))
                ok = False
        return ok

    # ---- driver
    def split(self, back, fl):
        """decide the boolean values flags on trial get"""
        for v in fl:
            if not v.opt:
                continue
            out = []
            for t in back:
                n = t.nxt[v]
                if t.facts.value(n) is None and self.I.within(t.st, n, 0, 1):
                    for c in (0, 1):
                        s = t.st.assume(sub(n, C(c)), '==')
                        if s is not None:
                            out.append(Trans(s, t.events, t.nxt, None, t.head))
                else:
                    out.append(t)
            back = out
        return back

    def afresh(self):
        for v in self.vars:
            v.flag = v.opt = False
            if not v.place:
                v.tmpl = None
        return self.analyse()

    def analyse(self):
        I = self.I
        fr = self.fr
        memo = I.__dict__.setdefault('_loopmemo', {})
        # stage 1: memory footprint
        unclear = self.unclear
        for _ in range(18):
            try:
                s, back, exits, vals = self.run({}, [], False)
            except Unclear as u:
                # stored to at a place that turns out to vary
                v = u.var
                if v.key[:3] in unclear or v not in self.vars:
                    raise
                unclear.add(v.key[:3])
                self.vars.remove(v)
                continue
            if s is None:
                break
            if self.places(back):
                continue
            if not self.discover(s, back):
                if not (self.saccs and self.check_saccs(back)):
                    break
        else:
            raise IP.Unsupported('loop footprint does not stabilise in %s' % fr.fn.name)
        # stage 2: flags and templates
        self.find_flags(back)
        self.find_templates(back)
        inv = self.candidates(back)
        for rnd in range(40):
            again = False
            parts = {}
            fl = [v for v in self.vars if v.flag]
            st0 = tuple(self.st.facts.value(v.init) for v in fl)
            todo = [st0]
            self.sum.saccs = self.saccs
            self.pins = {}
            if fl:
                self.pin(st0, {v: v.init for v in self.vars}, self.st.facts)
            while todo and not again:
                k = todo.pop()
                if k in parts:
                    continue
                try:
                    s, back, exits, vals = self.run({v: C(c) for v, c in zip(fl, k)}, inv)
                except Unclear as u:
                    v = u.var
                    if v.key[:3] in unclear or v not in self.vars:
                        raise
                    unclear.add(v.key[:3])
                    self.vars.remove(v)
                    return self.afresh()
                p = Part(k, s)
                p.vals = vals
                p.exits = exits
                p.trans = back
                parts[k] = p
                if len(parts) > 40:
                    raise IP.Unsupported('too many loop head states')
                if s is not None and self.places(back):
                    return self.afresh()
                if s is not None and self.discover(s, back):
                    again = True
                    inv = []
                    break
                back = p.trans = self.split(back, fl)
                for t in back:
                    t.src = k
                    nk = []
                    for v in fl:
                        c = t.facts.value(t.nxt[v])
                        if c is None or (v.opt and c not in (0, 1)):
                            v.flag = False
                            v.sym = v.sym
                            again = True
                        nk.append(c)
                    if again:
                        break
                    t.target = tuple(nk)
                    todo.append(t.target)
                    if fl and not self.pin(t.target, t.nxt, t.facts):
                        again = True
                    for v in self.vars:
                        if v.tmpl and t.facts.norm(v.tmpl(t.nxt)) != t.nxt[v]:
                            v.tmpl = None
                            again = True
                    keep = [(l, op) for l, op in inv if self.holds_after(t, l, op, vals)]
                    if len(keep) != len(inv):
                        inv = keep
                        again = True
                if not again and self.saccs and self.check_saccs(back):
                    again = True
            if again:
                continue
            # complete: maybe strengthen once more with facts visible only now
            if rnd < 3:
                allb = [t for p in parts.values() for t in p.trans]
                extra = [c for c in self.candidates(allb) if c not in inv]
                good = []
                for l, op in extra:
                    good.append((l, op))
                if good and not getattr(self, '_strong', 0) >= 2:
                    self._strong = getattr(self, '_strong', 0) + 1
                    inv = inv + good
                    continue
            break
        else:
            raise IP.Unsupported('loop invariants do not stabilise in %s' % fr.fn.name)
        self.narrow([t for p in parts.values() for t in p.trans])
        S = self.sum
        S.vars = self.vars
        S.parts = parts
        S.start = st0
        S.inv = inv
        S.hv = self.hv
        S.saccs = self.saccs
        for b, d in self.saccs.items():
            d['delta'] = {}
            for t in S.trans():
                g = libc.gather_open(I, t.st, b, d['off'], t.nxt[d['var']] if d['mode'] == 'idx' else None)
                d['delta'][id(t)] = libc.norm_tokens(g[1:])
        I.loops_done.append(S)
        out = []
        for k, p in parts.items():
            for o in p.exits:
                ex = dict(o.st.extra)
                # the values the flags had when the loop was left
                ex['left'] = ex.get('left', ()) + ((S, dict(zip(fl, k)), p, o),)
                ex['iter'] = self.st.extra.get('iter', ()) + (('after', self.lid),)
                o2 = IP.Outcome(o.kind, State(o.st.facts, o.st.mem, o.st.ev, ex), o.val, o.blk, o.prev, o.env)
                out.append(o2)
        return out


State = IP.State


def bounds_rel(f, a):
    """bounds of an atom from its domain and from inequalities with atoms of known range"""
    lo, hi = f.bounds_box(f.norm(V(a)))
    for l in f.le:
        for b, k in l.t:
            if b is not a:
                continue
            rest = sub(l, scale(V(a), k))
            rlo, rhi = f.bounds_box(rest)
            # k*a + rest <= 0  =>  k*a <= -rlo
            if rlo > -INF:
                if k > 0:
                    hi = min(hi, (-rlo) // k)
                else:
                    lo = max(lo, -((-rlo) // -k))
    return lo, hi


def subst_eq(x, off):
    return len(x.t) == len(off.t) and x.c == off.c and sorted(k for _, k in x.t) == sorted(k for _, k in off.t)


def handle_loop(I, fr, blk, prev, env, st):
    return Analysis(I, fr, blk, prev, env, st).analyse()
