"""Abstract interpreter: trace-partitioned analysis of LLVM IR functions over symbolic states."""
import sys
from . import ir
from .terms import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """the analysis does not understand a construct (analysis broken, not a verdict)"""


class Budget(Unsupported):
    pass


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, modules):
        self.modules = {m.name: m for m in modules}
        self.ext = {}
        self.gext = {}
        self.structs = {}
        self.fields = {}
        self.strs = {}
        for m in modules:
            for f in m.functions.values():
                if not f.internal:
                    self.ext.setdefault(f.name, f)
            for g, d in m.globals.items():
                if not d['internal'] and not d['external']:
                    self.gext.setdefault(g, m.name)
            m.layout = ir.Layout(m.structs)
            for n, (sz, fs) in ir.struct_fields(m).items():
                self.fields.setdefault(n, (sz, fs))

    def resolve(self, mod, name):
        f = mod.functions.get(name)
        if f is not None:
            return f
        return self.ext.get(name)

    def unwritten(self, mod, name):
        """no code writes the global or lets its address escape (only loads at computed offsets)"""
        if not hasattr(self, '_esc'):
            self._esc = {}
            for m in self.modules.values():
                esc = set()

                def lits(v):
                    if isinstance(v, tuple):
                        if len(v) == 2 and v[0] == 'global':
                            esc.add(v[1])
                        else:
                            for x in v:
                                lits(x)
                    elif isinstance(v, list):
                        for x in v:
                            lits(x)
                for d in m.globals.values():
                    lits(d['init'])
                for f in m.functions.values():
                    ok = {}       # address values derived from globals
                    for b in f.order:
                        for ins in f.blocks[b]:
                            if ins.op == 'load':
                                continue
                            if ins.op == 'gep' and all(x[1][0] != 'global' and x[1][0] != 'ce' for x in ins.a[1:]):
                                ok[ins.res] = ins.a[0][1]
                                continue
                            lits(ins.a)
                    # uses of derived addresses other than load and gep let them escape
                    bad = set()

                    def uses(v):
                        if isinstance(v, tuple):
                            if len(v) == 2 and v[0] == 'local' and v[1] in ok:
                                bad.add(v[1])
                            else:
                                for x in v:
                                    uses(x)
                        elif isinstance(v, list):
                            for x in v:
                                uses(x)
                    for b in f.order:
                        for ins in f.blocks[b]:
                            if ins.op == 'load':
                                continue
                            if ins.op == 'gep' and ins.res in ok:
                                continue
                            uses(ins.a)
                    todo = list(bad)
                    seen = set()
                    while todo:
                        r = todo.pop()
                        if r in seen:
                            continue
                        seen.add(r)
                        b = ok[r]
                        if b[0] == 'local' and b[1] in ok:
                            todo.append(b[1])
                        else:
                            lits(b)
                self._esc[m.name] = esc
        g = self.modules[mod].globals[name]
        if name in self._esc[mod]:
            return False
        return g['internal'] or not any(name in e for e in self._esc.values())

    def off(self, struct, field):
        if struct not in self.fields or field not in self.fields[struct][1]:
            raise Unsupported('anchor vanished: field %s.%s' % (struct, field))
        return self.fields[struct][1][field][0]

    def sizeof(self, struct):
        if struct not in self.fields:
            raise Unsupported('anchor vanished: struct %s' % struct)
        return self.fields[struct][0]

    def func(self, name, module=None):
        if module:
            m = self.modules.get(module)
            f = m and m.functions.get(name)
        else:
            f = self.ext.get(name)
        if f is None:
            raise Unsupported('anchor vanished: function %s' % name)
        return f


# ------------------------------------------------------------------- atoms
def glob_atom(mod, name):
    return atom(('glob', mod, name), '@' + name, obj='global')


def fn_atom(mod, name):
    return atom(('fn', mod, name), '&' + name, obj='fn')


WR = {8: (-128, 127), 16: (-32768, 32767), 32: (-2 ** 31, 2 ** 31 - 1), 64: (-2 ** 63, 2 ** 63 - 1), 1: (0, 1)}


def is_ptr_atom(a):
    return a.obj is not None or (a.meta is not None and a.meta.get('ptr'))


def mkptr(a):
    if a.meta is None:
        a.meta = {}
    a.meta['ptr'] = True
    return a


def _loops():
    from . import loops
    return loops


def base_of(l):
    """(base atom, offset Lin) of an address"""
    b = None
    for a, k in l.t:
        if k == 1 and is_ptr_atom(a):
            if b is None or (a.obj and not b.obj):
                b = a
    if b is None:
        return None, l
    return b, sub(l, V(b))


def rounded(x, ty):
    """the value in single precision when that is the type"""
    if ty.k != 'float':
        return x
    a = x.one()
    if a is not None and (a.key[0] == 'f32' or a.key[0] == 'fconst' and float(int(a.key[1])) == a.key[1] and abs(a.key[1]) < 2 ** 24):
        return x
    return app('f32', x, fl=True)


def app(op, *args, lo=-INF, hi=INF, fl=False, name=None):
    return V(atom((op,) + args, name, lo, hi, None, fl))


# -------------------------------------------------------------------- state
class State:
    __slots__ = ('facts', 'mem', 'ev', 'log', 'steps', 'extra')

    def __init__(self, facts, mem=None, ev=None, extra=None):
        self.facts = facts
        self.mem = mem      # linked list (parent, entry)
        self.ev = ev        # linked list (parent, event)
        self.extra = extra or {}

    def copy(self):
        return State(self.facts, self.mem, self.ev, self.extra)

    def with_facts(self, f):
        s = self.copy()
        s.facts = f
        return s

    def assume(self, l, op):
        f = self.facts.assume(l, op)
        if f is None:
            return None
        return self if f is self.facts else self.with_facts(f)

    def assume_dom(self, a, d):
        f = self.facts.assume_dom(a, d)
        if f is None:
            return None
        return self if f is self.facts else self.with_facts(f)

    def event(self, *e):
        s = self.copy()
        s.ev = (self.ev, e)
        return s

    def put(self, entry):
        s = self.copy()
        s.mem = (self.mem, entry)
        return s

    def events(self, since=None):
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def entries(self):
        m = self.mem
        while m is not None:
            yield m[1]
            m = m[0]

    def setx(self, k, v):
        s = self.copy()
        s.extra = dict(self.extra)
        s.extra[k] = v
        return s


# mem entries:
# ('st', base, off, size, val, tag)
# ('str', base, off, tokens)           C string incl. terminator
# ('u8', base, off, cp, len)           UTF-8 bytes of cp, no terminator
# ('cp', base, off, nbytes, srcbase, srcoff, srcmem)
# ('bytes', base, off, nLin, what)     n opaque bytes identified by 'what'
# ('hv', loopid, what)                 havoc marker: what = ('cell',base,off,size,val) or ('tag',tag) or ('base',base)


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'blk', 'prev', 'env')

    def __init__(self, kind, st, val=None, blk=None, prev=None, env=None):
        self.kind = kind     # 'ret' | 'goto' | 'exit'
        self.st = st
        self.val = val
        self.blk = blk
        self.prev = prev
        self.env = env


class Frame:
    __slots__ = ('fn', 'mod', 'depth', 'parent', 'site', 'uid')

    def __init__(self, fn, depth, parent, site, uid):
        self.fn = fn
        self.mod = fn.module
        self.depth = depth
        self.parent = parent
        self.site = site
        self.uid = uid

    def chain(self):
        f = self
        while f:
            yield f
            f = f.parent


# ----------------------------------------------------------------- CFG utils
def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'condbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return list(dict.fromkeys([t.a[1]] + [c[1] for c in t.a[2]]))
    return []


def analyse_cfg(f):
    if hasattr(f, 'loops'):
        return
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(succs(f, b)))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs(f, s))))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f, b):
            preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f, b):
            if dom(s, b):
                body = loops.setdefault(s, set([s]))
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
            elif pos[s] <= pos[b]:
                raise Unsupported('irreducible control flow in %s' % f.name)
    f.loops = loops
    f.dom = dom
    f.preds = preds
    # uses for liveness of phis not needed
    # map from SSA name to defining inst
    f.defs = {}
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.res is not None:
                f.defs[ins.res] = ins


def defs_of(f):
    d = getattr(f, '_defs', None)
    if d is None:
        d = f._defs = {ins.res: ins for b in f.order for ins in f.blocks[b] if ins.res is not None}
    return d


# --------------------------------------------------------------- interpreter
SHORT = 8
PREDS = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
         'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}
UPREDS = {'ult': PREDS['slt'], 'ule': PREDS['sle'], 'ugt': PREDS['sgt'], 'uge': PREDS['sge']}     # of what is not negative


def pointer_table(fn, head):
    """the loop takes pointers from a local array of at most SHORT of them"""
    cache = fn.__dict__.setdefault('_ptables', {})
    if head not in cache:
        defs = fn.defs

        def table(v, depth=0):
            d = defs.get(v[1]) if v[0] == 'local' else None
            if d is None or depth > 4:
                return False
            if d.op == 'alloca':
                return d.ty.k == 'arr' and d.ty.b.k == 'ptr' and d.ty.a <= SHORT
            return d.op == 'gep' and table(d.a[0][1], depth + 1)
        cache[head] = any(i.op == 'load' and i.ty.k == 'ptr' and table(i.a[0])
                          for b in fn.loops[head] for i in fn.blocks[b])
    return cache[head]


class Interp:
    def __init__(self, prog, prims=None, opts=None):
        self.prog = prog
        from . import libc
        self.prims = dict(libc.PRIMS)
        if prims:
            self.prims.update(prims)
        self.opts = dict(alias='no', max_paths=20000, max_steps=3000000, fresh_globals=False, pure_stop=())
        if opts:
            self.opts.update(opts)
        self.steps = 0
        self.uid = 0
        self.counters = {}
        self.analysed = set()
        self.callsites = 0
        self.loops_done = []
        self.range_hook = self.opts.get('range_hook')
        self.load_hook = self.opts.get('load_hook')
        self.obligations = []
        self.access_hook = self.opts.get('access_hook')
        self._strcache = {}

    def fresh(self, tag, *key, ptr=False, lo=-INF, hi=INF, fl=False):
        n = self.counters.get((tag,) + key, 0)
        self.counters[(tag,) + key] = n + 1
        a = atom((tag,) + key + (n,), '%s%s.%d' % (tag, ''.join('_' + str(k) for k in key), n), lo, hi, None, fl)
        if ptr:
            mkptr(a)
        return V(a)

    # ------------------------------------------------------------ values
    def gval(self, mod, name):
        f = mod.functions.get(name)
        if f is not None or name in mod.declares:
            t = self.prog.resolve(mod, name)
            if t is not None:
                return V(fn_atom(t.module.name if t.internal else '', name))
            return V(fn_atom('', name))
        g = mod.globals.get(name)
        if g is None:
            raise Unsupported('global %s' % name)
        if g['internal']:
            return V(glob_atom(mod.name, name))
        return V(glob_atom('', name))

    def ginfo(self, a):
        """global dict for a global atom, plus module"""
        _, mod, name = a.key
        if mod == '':
            mod = self.prog.gext.get(name)
            if mod is None:
                return None, None
        m = self.prog.modules[mod]
        return m.globals[name], m

    def const(self, mod, ty, v):
        k = v[0]
        if k == 'int':
            return C(v[1])
        if k == 'null':
            return ZERO
        if k == 'global':
            return self.gval(mod, v[1])
        if k == 'float':
            return V(atom(('fconst', v[1]), '%g' % v[1], fl=True))
        if k == 'undef':
            return V(atom(('undef',), 'undef'))
        if k == 'zero':
            if ty.k in ('double', 'float'):
                return V(atom(('fconst', 0.0), '0.0', fl=True))
            return ZERO
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(mod, v[2], [self.const(mod, t, o) for t, o in v[3]], [t for t, _ in v[3]])
            if v[1] in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.const(mod, v[2], v[3])
        raise Unsupported('constant %r' % (v,))

    def val(self, fr, env, ty, v):
        if v[0] == 'local':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined ssa %s in %s' % (v[1], fr.fn.name))
        return self.const(fr.mod, ty, v)

    def gep(self, mod, ety, vals, tys):
        L = mod.layout
        addr = vals[0]
        if len(vals) > 1:
            addr = add(addr, scale(vals[1], L.size(ety)))
        ty = ety
        for v in vals[2:]:
            if ty.k == 'arr':
                addr = add(addr, scale(v, L.size(ty.b)))
                ty = ty.b
            else:
                if not v.const:
                    raise Unsupported('gep index')
                o, ty = L.elem(ty, v.c)
                addr = add(addr, C(o))
        return addr

    # ------------------------------------------------------------- memory
    def ptr_tag(self, fr, v, ty):
        """static tag of an access: (struct, field index) of the last named struct in the defining gep"""
        g = None
        if v[0] == 'local':
            ins = fr.fn.defs.get(v[1])
            if ins is not None and ins.op == 'gep':
                g = (ins.ty, ins.a)
            elif ins is None or ins.op != 'gep':
                return ('ty', repr(ty))
        elif v[0] == 'ce' and v[1] == 'gep':
            g = (v[2], v[3])
        if g is None:
            return ('ty', repr(ty))
        t = g[0]
        ops = g[1]
        tag = None
        for (ot, o) in ops[2:]:
            if t.k == 'arr':
                t = t.b
            elif t.k in ('named', 'struct'):
                if t.k == 'named':
                    tag = (t.a.replace('struct.', ''), o[1])
                    t = fr.mod.structs[t.a]
                t = t.a[o[1]]
        if tag is None:
            b = ops[0][1]
            if b[0] in ('local', 'ce'):
                return Interp.ptr_tag(self, fr, b, ty)
            return ('ty', repr(ty))
        return tag

    def _same(self, st, b1, o1, b2, o2):
        """are addresses equal: True/False/None"""
        d = add(sub(o1, o2), sub(V(b1), V(b2)))
        return st.facts.decide(d, '==')

    def overlap(self, st, o1, s1, o2, s2):
        """overlap of [o1,o1+s1) and [o2,o2+s2): 'eq','no','part',None"""
        d = sub(o1, o2)
        d = st.facts.norm(d)
        if d.const:
            if d.c == 0:
                return 'eq' if s2 >= s1 else 'part'
            if d.c >= s2 or -d.c >= s1:
                return 'no'
            return 'part'
        # multiples
        g = reduce(gcd, (abs(k) for _, k in d.t))
        if s1 == s2 and g % s1 == 0 and d.c % s1 == 0:
            e = st.facts.decide(d, '==')
            return 'eq' if e is True else 'no' if e is False else None
        if g > 1:
            r = d.c % g
            # d = r mod g: overlap iff -s1 < d < s2
            ok = False
            x = r
            if x < s2 or g - x < s1:
                ok = True
            if not ok:
                return 'no'
        if st.facts.decide(sub(C(s2), d), '<=') is True or st.facts.decide(add(d, C(s1)), '<=') is True:
            return 'no'
        e = st.facts.decide(d, '==')
        if e is True:
            return 'eq'
        return None

    def may_alias_bases(self, b1, t1, b2, t2):
        if b1 is b2:
            return True
        if b1 is None or b2 is None:
            return False
        if b1.obj and b2.obj:
            return False
        if self.opts['alias'] == 'no':
            return False
        # tags of different fields do not alias
        if t1 is not None and t2 is not None and t1 != t2 and t1[0] != 'ty' and t2[0] != 'ty':
            return False
        if (b1.obj in ('heap', 'alloca')) or (b2.obj in ('heap', 'alloca')):
            return False
        return True

    def load(self, st, addr, size, ty, tag=None, fr=None, ins=None):
        """-> list of (state, value)"""
        addr = st.facts.norm(addr)
        if self.load_hook:
            r = self.load_hook(self, st, addr, size, ty, tag)
            if r is not None:
                return r
        base, off = base_of(addr)
        if base is None:
            return [(st, self.fresh('badload', ptr=(ty.k == 'ptr')))]
        return self._load(st, st.mem, base, off, size, ty, tag)

    def _load(self, st, mem, base, off, size, ty, tag):
        m = mem
        while m is not None:
            e = m[1]
            k = e[0]
            if k == 'hv':
                w = e[2]
                if base.obj == 'heap' and isinstance(base.key, tuple) and _loops().key_has(base.key, e[1]):
                    pass        # made after this point of the loop: not there when the loop was (re)entered
                elif w[0] == 'cell':
                    if w[1] is base:
                        o = self.overlap(st, off, size, w[2], w[3])
                        if o == 'eq':
                            return [(st, self.coerce(st, w[4], size, ty))]
                        if o is None:
                            return self._fork_alias(st, m, base, off, size, ty, tag, base, w[2])
                elif w[0] == 'var':
                    if w[1] is base:
                        o = self.overlap(st, off, size, w[2], w[3])
                        if o != 'no':
                            return [(st, self.initial(base, off, size, ty, tag, ('hv', e[1])))]
                elif (w[0] == 'tag' and w[1] == tag and (base.obj is None or base.obj == 'heap')) or (w[0] == 'base' and w[1] is base) or \
                        (w[0] == 'all' and self._hv_all(w, base, tag)):
                    return [(st, self.initial(base, off, size, ty, tag, ('hv', e[1])))]
                m = m[0]
                continue
            eb = e[1]
            if eb is base:
                if k == 'st':
                    o = self.overlap(st, off, size, e[2], e[3])
                    if o == 'eq':
                        return [(st, self.coerce(st, e[4], size, ty))]
                    if o == 'part':
                        return [(st, self.fresh('part', ptr=(ty.k == 'ptr')))]
                    if o is None:
                        return self._fork_alias(st, m, base, off, size, ty, tag, base, e[2])
                elif k == 'cp':
                    d = st.facts.norm(sub(off, e[2]))
                    if d.const and 0 <= d.c < e[3]:
                        return self._load(st, e[6], e[4], add(e[5], d), size, ty, tag)
                    if not d.const:
                        lo = st.facts.decide(scale(d, -1), '<=')
                        hi = st.facts.decide(sub(d, C(e[3] - 1)), '<=')
                        if lo is True and hi is True:
                            return self._load(st, e[6], e[4], add(e[5], d), size, ty, tag)
                        if lo is not False and hi is not False:
                            # array of structs: fork on element equality
                            g = reduce(gcd, (abs(kk) for _, kk in d.t))
                            if g >= e[3]:
                                eqd = sub(d, C(d.c % g)) if d.c % g < e[3] else None
                                if eqd is not None:
                                    return self._fork_alias(st, m, base, off, size, ty, tag, base, sub(off, eqd))
                            else:
                                return [(st, self.fresh('cpunk', ptr=(ty.k == 'ptr')))]
                elif k in ('str', 'u8', 'bytes'):
                    r = self._load_text(st, e, off, size, ty)
                    if r is not None:
                        return r
            elif k == 'st' and eb is not None and self.may_alias_bases(base, tag, eb, e[5]):
                if e[3] == size:
                    s = self._same(st, base, off, eb, e[2])
                    if s is True:
                        return [(st, self.coerce(st, e[4], size, ty))]
                    if s is None:
                        # offsets must agree for aliasing structures
                        d = st.facts.norm(sub(off, e[2]))
                        if d.const and d.c == 0:
                            return self._fork_alias(st, m, base, off, size, ty, tag, eb, e[2])
            m = m[0]
        return [(st, self.initial(base, off, size, ty, tag, None))]

    def _hv_all(self, w, base, tag):
        return w[1](base, tag)

    def _fork_alias(self, st, m, base, off, size, ty, tag, b2, o2):
        d = add(sub(off, o2), sub(V(base), V(b2)))
        out = []
        s1 = st.assume(d, '==')
        if s1 is not None:
            out += self.load(s1, add(V(base), off), size, ty, tag)
        s2 = st.assume(d, '!=')
        if s2 is not None:
            a = s2.facts.norm(add(V(base), off))
            nb, no = base_of(a)
            out += self._load(s2, m[0], nb, no, size, ty, tag)
        return out

    def coerce(self, st, v, size, ty):
        return v

    def truth_known(self, st, v):
        return st.facts.decide(v, '!=')

    def initial(self, base, off, size, ty, tag, epoch):
        k0 = base.key[0] if isinstance(base.key, tuple) else None
        if epoch is not None and base.obj == 'global':
            g, m = self.ginfo(base)
            if g is not None and g['init'] is not None and (g['const'] or self.prog.unwritten(m.name, base.key[2])):
                epoch = None        # nothing ever writes it
        if k0 == 'props' and off.const and off.c == 0:
            from . import libc
            return V(libc.category(base.key[1]))
        if base.obj == 'global' and base.key[1] == '':
            if base.key[2] in ('stdin', 'stdout', 'stderr'):
                return V(mkptr(atom(('std', base.key[2]), base.key[2], lo=1)))
            if base.key[2] == 'utf8proc_utf8class' and size == 1:
                return V(atom(('u8class', off), None, 0, 4))
        if base.obj == 'global':
            g, m = self.ginfo(base)
            if g is not None and off.const and epoch is None and (g['const'] or self.opts['fresh_globals'] or
                                                                  g['init'] is not None and self.prog.unwritten(m.name, base.key[2]) or
                                                                  (self.opts.get('init_globals') and base.key[2] in self.opts['init_globals'])):
                v = self.const_at(m, g['ty'], g['init'], off.c, size)
                if v is not None:
                    return v
            elif g is not None and epoch is None and self.opts['fresh_globals'] and g['init'] is not None and g['init'][0] == 'zero':
                return ZERO
        if base.obj == 'heap' and epoch is None:
            if base.key[0] == 'calloc':
                if ty.k in ('double', 'float'):
                    return V(atom(('fconst', 0.0), '0.0', fl=True))
                return ZERO
            return V(atom(('uninit', base, off, size), lo=-INF))
        if base.obj == 'alloca' and epoch is None:
            a = atom(('uninit', base, off, size))
            if ty.k == 'ptr':
                mkptr(a)
            return V(a)
        key = ('ld', add(V(base), off), size) + ((epoch,) if epoch else ())
        lo, hi = -INF, INF
        fl = ty.k in ('double', 'float')
        if ty.k == 'int':
            lo, hi = WR.get(ty.a, (-INF, INF))
            if base.obj == 'global' and epoch is None:
                g, m = self.ginfo(base)
                if g is not None and g['init'] is not None and g['init'][0] == 'agg' and (g['const'] or self.prog.unwritten(m.name, base.key[2])):
                    r = self.column(m, base.key[2], g, off, size)
                    if r:
                        lo, hi = max(lo, r[0]), min(hi, r[1])
        if self.range_hook and not fl:
            r = self.range_hook(tag, base, off, ty)
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
        a = atom(key, None, lo, hi, None, fl)
        if a.name.startswith('ld('):
            a.name = self.nice(base, off, tag, epoch)
        if ty.k == 'ptr':
            mkptr(a)
            if a.lo == -INF:
                a.lo = 0
        return V(a)

    def nice(self, base, off, tag, epoch):
        s = '%s' % base.name
        if tag and tag[0] != 'ty':
            fs = self.prog.fields.get(tag[0])
            nm = None
            if fs:
                lst = list(fs[1].items())
                if tag[1] < len(lst):
                    nm = lst[tag[1]][0]
            if nm and off.const and fs[1][nm][0] == off.c:
                s = '%s.%s' % (s, nm)
            else:
                s = '%s[%r].%s' % (s, off, nm or tag[1])
        else:
            s = '%s[%r]' % (s, off)
        if epoch:
            s += "'%s" % (epoch[1],)
        return s

    def flat(self, m, name, g):
        """[(offset, size, constant)] of the integers of an initialiser"""
        c = self.prog.__dict__.setdefault('_flat', {})
        if (m.name, name) in c:
            return c[(m.name, name)]
        out = []
        L = m.layout

        def go(ty, init, off):
            if init is None:
                return
            if ty.k == 'arr':
                es = L.size(ty.b)
                if init[0] == 'bytes':
                    for i, b in enumerate(init[1]):
                        out.append((off + i, 1, b - 256 if b > 127 else b))
                elif init[0] == 'zero':
                    for i in range(min(ty.a, 1 << 16)):
                        go(ty.b, ('zero',), off + i * es)
                elif init[0] == 'agg':
                    for i, (t, v) in enumerate(init[1]):
                        go(t, v, off + i * es)
            elif ty.k in ('named', 'struct', 'packed'):
                t = m.structs[ty.a] if ty.k == 'named' else ty
                for j in range(len(t.a)):
                    o, et = L.elem(t, j)
                    go(et, ('zero',) if init[0] == 'zero' else init[1][j][1], off + o)
            elif ty.k == 'int':
                v = 0 if init[0] == 'zero' else init[1] if init[0] == 'int' else None
                if v is not None:
                    n = L.size(ty)
                    if v >= 1 << (8 * n - 1):
                        v -= 1 << (8 * n)
                    out.append((off, n, v))
        go(g['ty'], g['init'], 0)
        c[(m.name, name)] = out
        return out

    def column(self, m, name, g, off, size):
        """range of the values at offsets of this form in an initialised table"""
        st = reduce(gcd, (abs(k) for _, k in off.t), 0)
        c = self.prog.__dict__.setdefault('_column', {})
        k = (m.name, name, st, off.c % st if st else off.c, size)
        if k not in c:
            vs = [v for o, n, v in self.flat(m, name, g) if n == size and (o - off.c) % st == 0] if st else []
            c[k] = (min(vs), max(vs)) if vs else None
        return c[k]

    def const_at(self, m, ty, init, off, size):
        L = m.layout
        while True:
            if init is None:
                return None
            if init[0] == 'zero':
                return ZERO
            if ty.k == 'arr':
                es = L.size(ty.b)
                i = off // es
                if i >= ty.a or off < 0:
                    return None
                if init[0] == 'bytes':
                    if size == 1:
                        b = init[1][i]
                        return C(b - 256 if b > 127 else b)
                    return None
                ty, init = init[1][i]
                off -= i * es
            elif ty.k in ('named', 'struct', 'packed'):
                t = m.structs[ty.a] if ty.k == 'named' else ty
                for j in range(len(t.a)):
                    o, et = L.elem(t, j)
                    if o <= off < o + L.size(et):
                        init = init[1][j][1]
                        ty = et
                        off -= o
                        break
                else:
                    return None
            else:
                if off != 0 or L.size(ty) != size:
                    return None
                return self.const(m, ty, init)

    def store(self, st, addr, size, v, ty, tag=None):
        addr = st.facts.norm(addr)
        base, off = base_of(addr)
        if base is None:
            return [st.event('badstore', addr)]
        return [st.put(('st', base, off, size, v, tag))]

    def alloca(self, fr, ins):
        L = fr.mod.layout
        a = atom(('alloca', fr.uid, fr.fn.name, ins.res), '%s' % (ins.res,), obj='alloca')
        if a.meta is None:
            a.meta = {}
        a.meta['size'] = L.size(ins.ty)
        a.meta['ty'] = ins.ty
        return V(a)

    # -------------------------------------------------------------- strings
    def cstring(self, l):
        """bytes of a constant C string at address l, or None"""
        b, o = base_of(l)
        if b is None or b.obj != 'global' or not o.const:
            return None
        g, m = self.ginfo(b)
        if g is None or not g['const'] or g['init'] is None:
            return None
        if g['init'][0] == 'bytes':
            s = g['init'][1][o.c:]
        elif g['init'][0] == 'zero':
            s = b'\0'
        else:
            return None
        i = s.find(b'\0')
        return s[:i] if i >= 0 else None

    def _load_text(self, st, e, off, size, ty):
        from . import libc
        return libc.load_text(self, st, e, off, size, ty)

    # -------------------------------------------------------------- execution
    def run(self, fn, args, st=None, parent=None, site=None):
        """-> list of Outcome (kind ret/exit)"""
        if isinstance(fn, str):
            fn = self.prog.func(fn)
        analyse_cfg(fn)
        self.analysed.add((fn.module.name, fn.name))
        st = st or State(Facts())
        self.uid += 1
        depth = parent.depth + 1 if parent else 0
        if depth > 40:
            raise Unsupported('call depth')
        # frame uid: deterministic by call chain so that equal contexts give equal atoms
        cu = (parent.uid if parent else ()) + ((site.blk, site.idx) if site is not None else (),)
        fr = Frame(fn, depth, parent, site, cu)
        env = {}
        for (ty, nm), v in zip(fn.params, list(args) + [None] * (len(fn.params) - len(args))):
            if v is None:
                v = V(atom(('missingarg', fn.name, nm)))
            env[nm] = v
        return self.region(fr, fn.entry, None, env, st, None)

    def region(self, fr, blk, prev, env, st, loop):
        """explore from blk; loop=(header, bodyset) of the enclosing loop or None.
        -> list of outcomes: ret / exit / goto (header or out of loop body)"""
        out = []
        work = [(blk, prev, env, st, True)]
        fn = fr.fn
        while work:
            blk, prev, env, st, first = work.pop()
            if loop is not None and not first:
                if blk == loop[0] or blk not in loop[1]:
                    out.append(Outcome('goto', st, None, blk, prev, env))
                    if len(out) > self.opts['max_paths']:
                        raise Budget('too many paths in %s' % fn.name)
                    continue
            if blk in fn.loops and not (loop is not None and blk == loop[0] and first):
                from .loops import handle_loop
                outs = None
                if pointer_table(fn, blk) or self.opts.get('short_loops'):
                    trips = self.trips(fr, blk, prev, env)
                    if trips is not None and trips <= SHORT:
                        outs = self.short_loop(fr, blk, prev, env, st, trips)
                if outs is None:
                    outs = handle_loop(self, fr, blk, prev, env, st)
                for o in outs:
                    if o.kind == 'goto':
                        work.append((o.blk, o.prev, o.env, o.st, False))
                    else:
                        out.append(o)
                continue
            self.block(fr, blk, prev, env, st, work, out)
            if len(out) + len(work) > self.opts['max_paths']:
                raise Budget('too many paths in %s' % fn.name)
        return out

    def trips(self, fr, blk, prev, env):
        """how often a loop comes back to its head at most, when it counts from one constant to another one"""
        fn = fr.fn
        body, defs = fn.loops[blk], fn.defs
        got = None

        def value(v, cur, depth=0):
            if v[0] == 'int':
                return v[1]
            if v[0] != 'local' or depth > 6:
                return None
            if v[1] in cur:
                return cur[v[1]]
            d = defs.get(v[1])
            if d is None or d.blk not in body:
                x = env.get(v[1])
                return x.c if x is not None and x.const else None
            if d.op in ('sext', 'zext', 'trunc'):
                return value(d.a[1], cur, depth + 1)
            if d.op in ('add', 'sub'):
                x, y = value(d.a[0], cur, depth + 1), value(d.a[1], cur, depth + 1)
                return None if x is None or y is None else x + y if d.op == 'add' else x - y
            return None
        for b in body:
            t = fn.blocks[b][-1]
            if t.op != 'condbr' or all(x in body for x in t.a[1:]) or t.a[0][0] != 'local':
                continue
            c = defs.get(t.a[0][1])
            if c is None or c.op != 'icmp' or c.blk not in body or c.a[0] not in PREDS and c.a[0] not in UPREDS:
                continue
            if not all(fn.dom(b, x) for x in fn.preds[blk] if x in body):
                continue
            for ph in fn.blocks[blk]:
                if ph.op != 'phi':
                    break
                first = [v for v, lb in ph.a if lb == prev]
                back = [v for v, lb in ph.a if lb in body]
                if len(first) != 1 or not back or any(v != back[0] for v in back):
                    continue
                cur = self.val(fr, env, ph.ty, first[0])
                cur = cur.c if cur.const else None
                n = 0
                while cur is not None and n <= SHORT + 1:
                    x, y = value(c.a[1], {ph.res: cur}), value(c.a[2], {ph.res: cur})
                    if x is None or y is None or c.a[0] in UPREDS and (x < 0 or y < 0):
                        n = None
                        break
                    holds = (PREDS.get(c.a[0]) or UPREDS[c.a[0]])(x, y)
                    if (t.a[1] if holds else t.a[2]) not in body:
                        break
                    cur = value(back[0], {ph.res: cur})
                    n += 1
                if cur is not None and n is not None:
                    got = n if got is None else min(got, n)
        return got

    def short_loop(self, fr, blk, prev, env, st, trips):
        """a loop with a small constant count is a list of statements: it is interpreted iteration by iteration"""
        body = fr.fn.loops[blk]
        work, out = [(prev, env, st, 0)], []
        while work:
            prev, env, st, n = work.pop()
            for o in self.region(fr, blk, prev, env, st, (blk, body)):
                if o.kind == 'goto' and o.blk == blk:
                    if n >= trips:
                        raise Unsupported('count of a short loop in %s' % fr.fn.name)
                    work.append((o.prev, o.env, o.st, n + 1))
                else:
                    out.append(o)
        return out

    def phis(self, fr, blk, prev, env):
        new = {}
        for ins in fr.fn.blocks[blk]:
            if ins.op != 'phi':
                break
            for v, lb in ins.a:
                if lb == prev:
                    new[ins.res] = self.val(fr, env, ins.ty, v)
                    break
            else:
                raise Unsupported('phi')
        if new:
            env = dict(env)
            env.update(new)
        return env

    def block(self, fr, blk, prev, env, st, work, out, skip_phi=False):
        insts = fr.fn.blocks[blk]
        i = 0
        if prev is not None:
            env = self.phis(fr, blk, prev, env)
        while i < len(insts) and insts[i].op == 'phi':
            i += 1
        # stack of (index, env, state)
        stack = [(i, dict(env), st)]
        while stack:
            i, env, st = stack.pop()
            while True:
                ins = insts[i]
                self.steps += 1
                if self.steps > self.opts['max_steps']:
                    raise Budget('step budget exhausted in %s' % fr.fn.name)
                op = ins.op
                if op == 'br':
                    work.append((ins.a[0], blk, env, st, False))
                    break
                if op == 'condbr':
                    c = self.val(fr, env, ir.ity(1), ins.a[0])
                    for s2, v in self.truth(st, c):
                        work.append((ins.a[1] if v else ins.a[2], blk, env, s2, False))
                    break
                if op == 'switch':
                    v = self.val(fr, env, ins.ty, ins.a[0])
                    self.do_switch(fr, ins, v, st, blk, env, work)
                    break
                if op == 'ret':
                    v = None
                    if ins.a[0] is not None:
                        v = self.val(fr, env, ins.ty, ins.a[0])
                    out.append(Outcome('ret', st, v))
                    break
                if op == 'unreachable':
                    out.append(Outcome('exit', st.event('unreachable'), None))
                    break
                res = self.inst(fr, ins, env, st)
                # res: list of (state, value) or ('exit', outcome)
                i += 1
                if len(res) == 1 and res[0][0] != 'exit':
                    st, v = res[0]
                    if ins.res is not None:
                        env[ins.res] = v
                    continue
                alive = []
                for r in res:
                    if r[0] == 'exit':
                        out.append(r[1])
                    else:
                        alive.append(r)
                if not alive:
                    break
                for s2, v in alive[1:]:
                    e2 = dict(env)
                    if ins.res is not None:
                        e2[ins.res] = v
                    stack.append((i, e2, s2))
                st, v = alive[0]
                env = dict(env)
                if ins.res is not None:
                    env[ins.res] = v

    def truth(self, st, c):
        if c.const:
            return [(st, c.c != 0)]
        d = st.facts.decide(c, '==')
        if d is not None:
            return [(st, not d)]
        r = []
        s = st.assume(c, '!=')
        if s:
            r.append((s, True))
        s = st.assume(c, '==')
        if s:
            r.append((s, False))
        return r

    def do_switch(self, fr, ins, v, st, blk, env, work):
        v = st.facts.norm(v)
        groups = {}
        for cv, lb in ins.a[2]:
            groups.setdefault(lb, []).append(cv)
        dflt = ins.a[1]
        if v.const:
            for lb, cs in groups.items():
                if v.c in cs:
                    work.append((lb, blk, env, st, False))
                    return
            work.append((dflt, blk, env, st, False))
            return
        if len(v.t) == 1 and abs(v.t[0][1]) == 1:
            a, k = v.t[0]

            def inv(cs):
                return is_from([(c - v.c) * k for c in cs])
            allc = []
            targets = {}
            for lb, cs in groups.items():
                allc += cs
                if lb == dflt:
                    continue
                targets[lb] = inv(cs)
            rest = is_compl(is_from([(c - v.c) * k for c in allc]))
            if dflt in groups:
                rest = is_union(rest, inv(groups[dflt]))
            targets[dflt] = rest
            for lb, d in targets.items():
                s = st.assume_dom(a, d)
                if s is not None:
                    work.append((lb, blk, env, s, False))
            return
        rest = st
        for lb, cs in groups.items():
            for c in cs:
                if rest is None:
                    return
                s = rest.assume(sub(v, C(c)), '==')
                if s is not None:
                    work.append((lb, blk, env, s, False))
                rest = rest.assume(sub(v, C(c)), '!=')
        if rest is not None:
            work.append((dflt, blk, env, rest, False))

    # ----------------------------------------------------------- instructions
    def rng(self, st, v):
        lo, hi = st.facts.bounds_box(st.facts.norm(v))
        return lo, hi

    def within(self, st, v, lo, hi):
        l, h = self.rng(st, v)
        if l >= lo and h <= hi:
            return True
        if l < lo and st.facts.decide(sub(C(lo), v), '<=') is not True:
            return False
        if h > hi and st.facts.decide(sub(v, C(hi)), '<=') is not True:
            return False
        return True

    def inst(self, fr, ins, env, st):
        op = ins.op
        if op == 'gep':
            vals = [self.val(fr, env, t, v) for t, v in ins.a]
            return [(st, self.gep(fr.mod, ins.ty, vals, None))]
        if op == 'load':
            addr = self.val(fr, env, ir.PTR, ins.a[0])
            tag = self.ptr_tag(fr, ins.a[0], ins.ty)
            if self.access_hook:
                st = self.access_hook(self, fr, ins, st, addr, fr.mod.layout.size(ins.ty), 'load')
            return self.load(st, addr, fr.mod.layout.size(ins.ty), ins.ty, tag, fr, ins)
        if op == 'store':
            sz = None
            # type of stored value: recover from operand
            ty = ins.ty
            v = self.val(fr, env, ty, ins.a[0])
            addr = self.val(fr, env, ir.PTR, ins.a[1])
            tag = self.ptr_tag(fr, ins.a[1], ty)
            sz = fr.mod.layout.size(ty)
            if self.access_hook:
                st = self.access_hook(self, fr, ins, st, addr, sz, 'store')
            return [(s, None) for s in self.store(st, addr, sz, v, ty, tag)]
        if op == 'icmp':
            pred, a, b = ins.a
            x = self.val(fr, env, ins.ty, a)
            y = self.val(fr, env, ins.ty, b)
            return self.icmp(st, pred, x, y, ins.ty)
        if op == 'fcmp':
            pred, a, b = ins.a
            x = self.val(fr, env, ins.ty, a)
            y = self.val(fr, env, ins.ty, b)
            return self.fcmp(st, pred, x, y)
        if op in ('add', 'sub'):
            x = self.val(fr, env, ins.ty, ins.a[0])
            y = self.val(fr, env, ins.ty, ins.a[1])
            return [(st, add(x, y) if op == 'add' else sub(x, y))]
        if op == 'call':
            return self.call(fr, ins, env, st)
        if op in ('sext', 'zext', 'trunc'):
            ft, a = ins.a
            x = self.val(fr, env, ft, a)
            return self.cast(st, op, x, ft.a, ins.ty.a)
        if op == 'select':
            c = self.val(fr, env, ir.ity(1), ins.a[0])
            r = []
            for s, t in self.truth(st, c):
                r.append((s, self.val(fr, env, ins.ty, ins.a[1] if t else ins.a[2])))
            return r
        if op == 'alloca':
            return [(st, self.alloca(fr, ins))]
        if op in ('mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            x = self.val(fr, env, ins.ty, ins.a[0])
            y = self.val(fr, env, ins.ty, ins.a[1])
            return self.arith(st, op, x, y, ins.ty)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x = self.val(fr, env, ins.ty, ins.a[0])
            y = self.val(fr, env, ins.ty, ins.a[1])
            return [(st, rounded(self.farith(op, x, y), ins.ty))]
        if op == 'fneg':
            x = self.val(fr, env, ins.ty, ins.a[0])
            return [(st, app('fneg', x, fl=True))]
        if op in ('sitofp', 'uitofp'):
            ft, a = ins.a
            x = self.val(fr, env, ft, a)
            x = st.facts.norm(x)
            if x.const:
                return [(st, V(atom(('fconst', float(x.c)), '%g' % x.c, fl=True)))]
            return [(st, rounded(app('i2f', x, fl=True), ins.ty))]
        if op == 'fptrunc':
            return [(st, rounded(self.val(fr, env, ins.a[0], ins.a[1]), ir.FLOAT))]
        if op in ('fpext', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
            if op in ('freeze',):
                return [(st, self.val(fr, env, ins.ty, ins.a[0]))]
            ft, a = ins.a
            return [(st, self.val(fr, env, ft, a))]
        if op in ('fptosi', 'fptoui'):
            ft, a = ins.a
            return [(st, app('f2i', self.val(fr, env, ft, a)))]
        raise Unsupported('instruction %s' % op)

    def cast(self, st, op, x, fb, tb):
        x = st.facts.norm(x)
        if op == 'trunc':
            lo, hi = WR.get(tb, (-(1 << (tb - 1)), (1 << (tb - 1)) - 1))
            if tb == 1:
                if x.const:
                    return [(st, C(x.c & 1))]
                if self.within(st, x, 0, 1):
                    return [(st, x)]
            if x.const:
                v = x.c & ((1 << tb) - 1)
                if v > hi:
                    v -= 1 << tb
                return [(st, C(v))]
            if self.within(st, x, lo, hi):
                return [(st, x)]
            o = x.one()
            if o is not None and o.key[0] == 'zext' and o.key[1] == tb:
                return [(st, o.key[2])]
            return [(st, self.mk_trunc(x, tb, lo, hi))]
        if op == 'sext':
            if fb == 1:
                return [(s, C(-1) if t else ZERO) for s, t in self.truth(st, x)]
            return [(st, x)]
        # zext
        if fb == 1:
            if x.const:
                return [(st, C(x.c & 1))]
            return [(s, C(1) if t else ZERO) for s, t in self.truth(st, x)]
        if x.const:
            return [(st, C(x.c & ((1 << fb) - 1)))]
        lo, hi = self.rng(st, x)
        if self.within(st, x, 0, INF):
            return [(st, x)]
        o = x.one()
        if o is not None and o.key[0] == 'trunc' and o.key[1] == fb:
            if self.within(st, o.key[2], 0, (1 << fb) - 1):
                return [(st, o.key[2])]
        if fb >= 32:
            # fork on sign
            r = []
            s = st.assume(scale(x, -1), '<=')
            if s is not None:
                r.append((s, x))
            s = st.assume(add(x, ONE), '<=')
            if s is not None:
                r.append((s, add(x, C(1 << fb))))
            return r
        if self.opts.get('zext_fork'):
            r = []
            s = st.assume(scale(x, -1), '<=')
            if s is not None:
                r.append((s, x))
            s = st.assume(add(x, ONE), '<=')
            if s is not None:
                r.append((s, add(x, C(1 << fb))))
            return r
        return [(st, app('zext', fb, x, lo=0, hi=(1 << fb) - 1))]

    def mk_trunc(self, x, tb, lo, hi):
        return app('trunc', tb, x, lo=lo, hi=hi)

    def farith(self, op, x, y):
        a, b = x.one(), y.one()
        if a is not None and b is not None and a.key[0] == 'fconst' and b.key[0] == 'fconst':
            u, v = a.key[1], b.key[1]
            r = None
            if op == 'fadd':
                r = u + v
            elif op == 'fsub':
                r = u - v
            elif op == 'fmul':
                r = u * v
            elif op == 'fdiv' and v:
                r = u / v
            if r is not None:
                return V(atom(('fconst', r), '%g' % r, fl=True))
        if op in ('fadd', 'fmul'):
            # commutative: canonical order
            ka, kb = repr(x), repr(y)
            if kb < ka:
                x, y = y, x
        return app(op, x, y, fl=True)

    def icmp(self, st, pred, x, y, ty):
        d = sub(x, y)
        if pred in ('eq', 'ne'):
            r = st.facts.decide(d, '==')
            if r is not None:
                return [(st, C(int(r == (pred == 'eq'))))]
            out = []
            s = st.assume(d, '==')
            if s is not None:
                out.append((s, C(int(pred == 'eq'))))
            s = st.assume(d, '!=')
            if s is not None:
                out.append((s, C(int(pred == 'ne'))))
            return out
        if pred[0] == 'u':
            w = ty.a if ty.k == 'int' else 64
            if ty.k == 'int':
                return self.ucmp(st, pred, x, y, w)
            pred = 's' + pred[1:]
        # signed
        if pred == 'sgt':
            x, y, pred = y, x, 'slt'
        elif pred == 'sge':
            x, y, pred = y, x, 'sle'
        d = sub(x, y)
        if pred == 'slt':
            d = add(d, ONE)
        r = st.facts.decide(d, '<=')
        if r is not None:
            return [(st, C(int(r)))]
        out = []
        s = st.assume(d, '<=')
        if s is not None:
            out.append((s, ONE))
        s = st.assume(add(scale(d, -1), ONE), '<=')
        if s is not None:
            out.append((s, ZERO))
        return out

    def ucmp(self, st, pred, x, y, w):
        # split into non-negative / negative operands
        cases = [(st, x, y)]
        for k in (0, 1):
            nc = []
            for s, a, b in cases:
                v = (a, b)[k]
                if v.const:
                    if v.c < 0:
                        v = C(v.c + (1 << w))
                    nc.append((s, v, b) if k == 0 else (s, a, v))
                    continue
                if self.within(s, v, 0, INF):
                    nc.append((s, a, b))
                    continue
                s1 = s.assume(scale(v, -1), '<=')
                if s1 is not None:
                    nc.append((s1, a, b))
                s2 = s.assume(add(v, ONE), '<=')
                if s2 is not None:
                    v2 = add(v, C(1 << w))
                    nc.append((s2, v2, b) if k == 0 else (s2, a, v2))
            cases = nc
        out = []
        for s, a, b in cases:
            out += self.icmp(s, 's' + pred[1:], a, b, None)
        return out

    def fcmp(self, st, pred, x, y):
        if pred in ('ogt', 'oge', 'ugt', 'uge'):
            x, y = y, x
            pred = pred[0] + {'gt': 'lt', 'ge': 'le'}[pred[1:]]
        a, b = x.one(), y.one()
        if a is not None and b is not None and a.key[0] == 'fconst' and b.key[0] == 'fconst':
            u, v = a.key[1], b.key[1]
            r = {'lt': u < v, 'le': u <= v, 'eq': u == v, 'ne': u != v}[pred[1:]]
            return [(st, C(int(r)))]
        neg = False
        p = pred[1:]
        if p == 'ne':
            p = 'eq'
            neg = True
        if p == 'eq':
            if x == y:
                return [(st, C(0 if neg else 1))]
            if repr(y) < repr(x):
                x, y = y, x
        if p == 'le':
            # x <= y  ==  not (y < x)   (NaN-free assumption)
            x, y, p = y, x, 'lt'
            neg = not neg
        c = app('f' + p, x, y, lo=0, hi=1)
        out = []
        for s, t in self.truth(st, c):
            out.append((s, C(int(t != neg))))
        return out

    def arith(self, st, op, x, y, ty):
        x = st.facts.norm(x)
        y = st.facts.norm(y)
        vx, vy = st.facts.value(x), st.facts.value(y)
        w = ty.a
        if op == 'mul':
            if vy is not None:
                return [(st, scale(x, vy))]
            if vx is not None:
                return [(st, scale(y, vx))]
            if repr(y) < repr(x):
                x, y = y, x
            return [(st, app('mul', x, y))]
        if op == 'shl' and vy is not None:
            return [(st, scale(x, 1 << vy))]
        if vx is not None and vy is not None:
            m = (1 << w) - 1
            if op == 'and':
                r = vx & vy
            elif op == 'or':
                r = vx | vy
            elif op == 'xor':
                r = vx ^ vy
            elif op == 'ashr':
                r = vx >> vy
            elif op == 'lshr':
                r = (vx & m) >> vy
            elif op in ('sdiv',) and vy:
                r = abs(vx) // abs(vy) * (1 if (vx < 0) == (vy < 0) else -1)
            elif op == 'udiv' and vy:
                r = (vx & m) // (vy & m)
            elif op == 'srem' and vy:
                r = abs(vx) % abs(vy) * (1 if vx >= 0 else -1)
            elif op == 'urem' and vy:
                r = (vx & m) % (vy & m)
            else:
                raise Unsupported('const arith')
            if w > 1 and op in ('lshr',) and r > m >> 1:
                r -= 1 << w
            return [(st, C(r))]
        if w == 1:
            out = []
            for s, t in self.truth(st, x):
                if op == 'and':
                    out.append((s, y if t else ZERO))
                elif op == 'or':
                    out.append((s, ONE if t else y))
                elif op == 'xor':
                    for s2, u in self.truth(s, y):
                        out.append((s2, C(int(t != u))))
                else:
                    raise Unsupported('i1 %s' % op)
            return out
        if op in ('and', 'or', 'xor'):
            # boolean flags 0/1
            bx = self.within(st, x, 0, 1)
            by = self.within(st, y, 0, 1)
            if op == 'and' and vy == 0 or op == 'and' and vx == 0:
                return [(st, ZERO)]
            if op in ('or', 'xor') and vy == 0:
                return [(st, x)]
            if op in ('or', 'xor') and vx == 0:
                return [(st, y)]
            if op == 'and' and vy == 1 and bx:
                return [(st, x)]
            if op == 'and' and vx == 1 and by:
                return [(st, y)]
            if bx and by:
                out = []
                for s, t in self.truth(st, x):
                    if op == 'and':
                        out.append((s, y if t else ZERO))
                    elif op == 'or':
                        if t:
                            out.append((s, ONE))
                        else:
                            out.append((s, y))
                    else:
                        for s2, u in self.truth(s, y):
                            out.append((s2, C(int(t != u))))
                return out
            # flags of unknown (non 0/1) value: treat as 0 / non-zero
            if op == 'or':
                lo, hi = -INF, INF
                return [(st, app('or', *sorted((x, y), key=repr)))]
            if op == 'and':
                m = vy if vy is not None else vx
                o = x if vy is not None else y
                if m is not None and m > 0 and (m & (m + 1)) == 0 and self.within(st, o, 0, m):
                    return [(st, o)]
                return [(st, app('and', *sorted((x, y), key=repr), lo=0 if (m is not None and m >= 0) else -INF,
                                 hi=m if (m is not None and m >= 0) else INF))]
            return [(st, app(op, *sorted((x, y), key=repr)))]
        if op in ('ashr', 'lshr'):
            if vy is not None and (op == 'ashr' or self.within(st, x, 0, INF)):
                return self.floordiv(st, x, 1 << vy)
        if op in ('sdiv', 'udiv') and vy is not None and vy > 0:
            if vy == 1:
                return [(st, x)]
            if self.within(st, x, 0, INF):
                return self.floordiv(st, x, vy)
            lo, hi = self.rng(st, x)
            return [(st, app('sdiv', x, vy))]
        if op in ('srem', 'urem') and vy is not None and vy > 0:
            if self.within(st, x, 0, INF):
                lo, hi = self.rng(st, x)
                if hi < vy:
                    return [(st, x)]
                if op == 'urem' or True:
                    return [(st, app('mod', x, vy, lo=0, hi=vy - 1))]
            if op == 'srem':
                return [(st, app('srem', x, vy, lo=-(vy - 1), hi=vy - 1))]
            return [(st, app('urem', x, vy, lo=0, hi=vy - 1))]
        return [(st, app(op, x, y))]

    def floordiv(self, st, x, d):
        # exact parts out
        q = {}
        rest = []
        for a, k in x.t:
            if k % d == 0:
                q[a] = k // d
            else:
                rest.append((a, k))
        c = x.c // d
        r0 = x.c - c * d
        r = C(c)
        for a, k in q.items():
            r = add(r, V(a), k)
        if not rest:
            return [(st, r)]
        y = Lin(tuple(rest), r0)
        lo, hi = self.rng(st, y)
        a = atom(('fdiv2', y, d), None, lo // d if lo > -INF else -INF, hi // d if hi < INF else INF)
        v = V(a)
        # facts: d*v <= y <= d*v + d-1
        s = st.assume(sub(scale(v, d), y), '<=')
        s = s.assume(sub(y, add(scale(v, d), C(d - 1))), '<=')
        return [(s, add(r, v))]

    # ---------------------------------------------------------------- calls
    def call(self, fr, ins, env, st):
        callee, args, nr = ins.a
        vals = [self.val(fr, env, t, v) for t, v in args if t.k != 'metadata']
        self.callsites += 1
        if callee[0] == 'global':
            name = callee[1]
            tgt = self.prog.resolve(fr.mod, name)
        else:
            v = self.val(fr, env, ir.PTR, callee)
            v = st.facts.norm(v)
            o = v.one()
            if o is not None and o.key[0] == 'fn':
                name = o.key[2]
                tgt = self.prog.modules[o.key[1]].functions[name] if o.key[1] else self.prog.ext.get(name)
            else:
                h = self.prims.get('*indirect')
                if h:
                    return h(self, fr, ins, st, v, vals)
                raise Unsupported('indirect call in %s' % fr.fn.name)
        p = self.prims.get((tgt.module.name, name)) if tgt is not None else None
        if p is None:
            p = self.prims.get(name) if (tgt is None or not tgt.internal) else None
        if p is not None:
            return p(self, fr, ins, st, vals)
        if tgt is None:
            if nr:
                return [('exit', Outcome('exit', st.event('call', name, tuple(vals), self.line(fr, ins))))]
            raise Unsupported('call to unknown function %s' % name)
        # recursion?
        for f in fr.chain():
            if f.fn is tgt:
                h = self.prims.get('*recursion')
                if h:
                    return h(self, fr, ins, st, tgt, vals)
                raise Unsupported('recursion in %s' % name)
        outs = self.run(tgt, vals, st, fr, ins)
        res = []
        for o in outs:
            if o.kind == 'ret':
                res.append((o.st, o.val if o.val is not None else ZERO))
            else:
                res.append(('exit', o))
        return res

    def line(self, fr, ins):
        return (fr.mod.name, fr.fn.name, ir.line_of(fr.mod, ins.dbg))


def generic_event(name, ret=None, noreturn=False, havoc=None):
    """primitive: record a call event, return a fresh deterministic value"""
    def h(I, fr, ins, st, args):
        s = st.event('call', name, tuple(st.facts.norm(a) for a in args), I.line(fr, ins))
        if noreturn:
            return [('exit', Outcome('exit', s))]
        v = None
        if ins.ty is not None and ins.ty.k != 'void' and ret != 'none':
            n = sum(1 for e in s.events() if e[0] == 'call' and e[1] == name)
            lo, hi = (-INF, INF)
            if ins.ty.k == 'int':
                lo, hi = WR.get(ins.ty.a, (lo, hi))
            a = atom(('ret', name, tuple(st.facts.norm(x) for x in args), n) + ((s.extra['iter'],) if s.extra.get('iter') else ()),
                     'ret_%s.%d' % (name, n), lo, hi)
            if ins.ty.k == 'ptr':
                mkptr(a)
            v = V(a)
        if havoc:
            s = havoc(I, s, args)
        return [(s, v)]
    return h
