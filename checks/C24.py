"""C24: no text overruns the fixed-size buffer it is put in."""
import os
import signal
import time
import traceback
from multiprocessing import Pool
from .common import *
from engine import build
from engine.interp import base_of

RULE = ('Every function that owns or writes a character array of fixed size (local, global, member of a structure, or reached through a parameter) is '
        'interpreted with unknown arguments and unknown memory. At every library call that writes text or bytes, every store of a character and every '
        'computed index into such an array, the text with its terminator (the index) is shown to stay inside the array, for every iteration of every '
        'loop. Where that depends on a number (parameter, result, variable, member), its range is inferred from every place of the program that gives '
        'it a value, first without assumptions and then under ranges already established. A function that writes through a parameter, or is safe only '
        'for some arguments, is interpreted again inside each of its callers.')
ASSUME = ['pointers of different origin do not overlap', 'strings are terminated; texts and counts of things held in memory are shorter than 2^40',
          'counts of a report are not negative', 'functions called by address are taken with unknown arguments; library functions obey their contracts',
          'code points lie in 0..10FFFF (C01)']
TECH = 'abstract interpretation of LLVM IR (relational loop invariants) with whole-program range inference'

BIG = 1 << 40
FINAL = ('error', 'error_string', 'quit', 'terminate')
TOP = (-INF, INF)


# ------------------------------------------------------------------ the program
def names_in(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'global':
            out.add(v[1])
        else:
            for x in v:
                names_in(x, out)
    elif isinstance(v, list):
        for x in v:
            names_in(x, out)


def whole(P):
    """all tools in one program; what no tool reaches is dropped"""
    tools = [m for m in P.modules.values() if 'main' in m.functions]
    used = {}
    for m in P.modules.values():
        s = set()
        for d in m.globals.values():
            names_in(d['init'], s)
        for f in m.functions.values():
            for b in f.order:
                for i in f.blocks[b]:
                    names_in(i.a, s)
                    if i.op == 'call':
                        names_in(i.a[0], s)
        used[m.name] = s
    for m in tools:
        for n, f in m.functions.items():
            f.internal = True
        for n, d in m.globals.items():
            if not d['external'] and not any(n in used[k] for k in used if k != m.name and
                                             (n in P.modules[k].declares or P.modules[k].globals.get(n, {}).get('external'))):
                d['internal'] = True
    P.ext = {f.name: f for m in P.modules.values() if m not in tools for f in m.functions.values() if not f.internal}
    P.gext = {g: m.name for m in P.modules.values() for g, d in m.globals.items() if not d['internal'] and not d['external']}
    # reachability
    taken, calls = {}, {}
    seen, todo = set(), [(m, 'main') for m in tools]
    addr = set()
    gseen = set()

    def globs(m, names):
        for n in names:
            f = P.resolve(m, n)
            if f is not None:
                addr.add((f.module.name, f.name))
                todo.append((f.module, f.name))
                continue
            mm = m if n in m.globals and not m.globals[n]['external'] else P.modules.get(P.gext.get(n))
            if mm is not None and (mm.name, n) not in gseen and n in mm.globals:
                gseen.add((mm.name, n))
                s = set()
                names_in(mm.globals[n]['init'], s)
                globs(mm, s)
    while todo:
        m, n = todo.pop()
        if (m.name, n) in seen or n not in m.functions:
            continue
        seen.add((m.name, n))
        f = m.functions[n]
        calls[(m.name, n)] = set()
        for b in f.order:
            for i in f.blocks[b]:
                s = set()
                if i.op == 'call':
                    if i.a[0][0] == 'global':
                        t = P.resolve(m, i.a[0][1])
                        if t is not None:
                            calls[(m.name, n)].add((t.module.name, t.name))
                            todo.append((t.module, t.name))
                    else:
                        names_in(i.a[0], s)
                    names_in(i.a[1], s)
                else:
                    names_in(i.a, s)
                globs(m, s)
    for m in P.modules.values():
        for n in list(m.functions):
            if (m.name, n) not in seen:
                del m.functions[n]
    roots = {(m.name, 'main') for m in tools} | addr
    return calls, roots


class Static:
    """facts read off the code once"""
    def __init__(self, P):
        self.P = P
        self.calls, self.roots = whole(P)
        self.fns = sorted(self.calls)
        # structures of one name and several shapes
        shapes = {}
        for m in P.modules.values():
            for n, t in m.structs.items():
                shapes.setdefault(n.replace('struct.', ''), set()).add(repr(t))
        self.odd = {n for n, s in shapes.items() if len(s) > 1}
        self.elem = {}        # structure a parameter points to
        self.size = {}
        self.escaped_fields = set()
        self.writes = {}
        self.scalars = {}
        esc = set()
        for m in P.modules.values():
            for g, d in m.globals.items():
                s = set()
                names_in(d['init'], s)
                for x in s:
                    esc.add(self.gkey(m, x))
                if d['ty'].k == 'int' and not d['external'] and not d['const'] and d['ty'].a > 8:
                    self.scalars[self.gkey(m, g)] = d
                if d['ty'].k in ('named', 'struct', 'arr') and d['init'] is not None and d['init'][0] == 'agg':
                    for x in self.structs_in(m, d['ty']):
                        self.odd.add(x)
            for f in m.functions.values():
                interp.analyse_cfg(f)
                defs = interp.defs_of(f)
                w = set()
                n = 0
                fields = {}
                for b in f.order:
                    for i in f.blocks[b]:
                        n += 1
                        if i.op == 'gep' and i.a[0][1][0] == 'local' and len(i.a) > 2 and i.ty.k == 'named':
                            k = self.origin(defs, i.a[0][1])
                            self.elem.setdefault((m.name, f.name, k), i.ty.a)
                        if i.op == 'gep':
                            t = self.field_of(m, i)
                            if t:
                                fields[i.res] = t
                        if i.op == 'load':
                            continue
                        if i.op == 'store':
                            names = set()
                            names_in(i.a[0], names)
                            for x in names:
                                esc.add(self.gkey(m, x))
                            r = i.a[1]
                            if r[0] == 'global':
                                w.add(self.gkey(m, r[1]))
                            continue
                        if i.op == 'gep':
                            continue
                        names = set()
                        names_in(i.a[1:] if i.op == 'call' else i.a, names)
                        for x in names:
                            esc.add(self.gkey(m, x))
                for b in f.order:
                    for i in f.blocks[b]:
                        for x in self.locals_in(i):
                            if x in fields:
                                if i.op == 'load' or i.op == 'store' and i.a[0] != ('local', x) or i.op == 'gep':
                                    continue
                                self.escaped_fields.add(fields[x])
                self.writes[(m.name, f.name)] = w
                self.size[(m.name, f.name)] = n
        for g in esc:
            self.scalars.pop(g, None)
        # transitively written scalars
        self.tw = {}
        for f in self.fns:
            seen, todo, r = set(), [f], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                r |= self.writes.get(x, set())
                todo += self.calls.get(x, ())
                if any(i.op == 'call' and i.a[0][0] != 'global' for b in P.modules[x[0]].functions[x[1]].blocks.values() for i in b):
                    todo += [q for q in self.roots if q[1] != 'main']
            self.tw[f] = r
        # recursion, calls that do not return left aside
        self.below = {}
        for f in self.fns:
            seen, todo = set(), list(self.calls[f])
            while todo:
                x = todo.pop()
                if x in seen or x[1] in FINAL:
                    continue
                seen.add(x)
                todo += self.calls.get(x, ())
            self.below[f] = seen
        self.rec = {f for f in self.fns if f in self.below[f]}
        self.callers = {f: {g for g in self.fns if f in self.calls[g]} for f in self.fns}
        # the variables a function or those below it use, of its own module
        uses = {}
        for f in self.fns:
            m = P.modules[f[0]]
            s = set()
            for b in m.functions[f[1]].order:
                for i in m.functions[f[1]].blocks[b]:
                    names_in(i.a, s)
            uses[f] = {self.gkey(m, x) for x in s} & set(self.scalars)
        self.gl = {}
        for f in self.fns:
            r = set()
            for x in self.below[f] | {f}:
                r |= uses[x]
            self.gl[f] = sorted(g for g in r if g[0] == f[0] or g[0] == '' and P.gext.get(g[1]) == f[0])
        self.mdims = {}
        for m in P.modules.values():
            self.dims = set()
            for d in m.globals.values():
                self.dims_in(m, d['ty'])
            for f in m.functions.values():
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.op == 'alloca':
                            self.dims_in(m, i.ty)
            for t in m.structs.values():
                self.dims_in(m, t)
            self.mdims[m.name] = sorted({d - 1 for d in self.dims} | self.dims)
        self.dims = set()
        for m in P.modules.values():
            for d in m.globals.values():
                self.dims_in(m, d['ty'])
            for t in m.structs.values():
                self.dims_in(m, t)
            for f in m.functions.values():
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.op == 'alloca':
                            self.dims_in(m, i.ty)
        self.thr = sorted({1, BIG, 2 ** 31 - 1} | {d for d in self.dims} | {d - 1 for d in self.dims})

    def dims_in(self, m, t, seen=()):
        if t is None:
            return
        if t.k == 'arr':
            if t.a <= 1 << 24:
                self.dims.add(t.a)
            self.dims_in(m, t.b, seen)
        elif t.k == 'struct':
            for x in t.a:
                self.dims_in(m, x, seen)

    def structs_in(self, m, t):
        if t.k == 'arr':
            return self.structs_in(m, t.b)
        if t.k == 'named':
            r = [t.a.replace('struct.', '')]
            for x in m.structs[t.a].a:
                r += self.structs_in(m, x)
            return r
        if t.k == 'struct':
            return [y for x in t.a for y in self.structs_in(m, x)]
        return []

    def gkey(self, m, n):
        d = m.globals.get(n)
        if d is None:
            return None
        return (m.name if d['internal'] else '', n)

    def origin(self, defs, v):
        """parameter (or other local) a pointer starts from, going through element steps"""
        while v[0] == 'local' and v[1] in defs and defs[v[1]].op == 'gep' and len(defs[v[1]].a) == 2:
            v = defs[v[1]].a[0][1]
        return v[1] if v[0] == 'local' else None

    def locals_in(self, i):
        out = []

        def go(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'local':
                    out.append(v[1])
                else:
                    for x in v:
                        go(x)
            elif isinstance(v, list):
                for x in v:
                    go(x)
        go(i.a)
        return out

    def field_of(self, m, i):
        t = i.ty
        tag = None
        for ot, o in i.a[2:]:
            if t.k == 'arr':
                t = t.b
            elif t.k in ('named', 'struct'):
                if t.k == 'named':
                    tag = (t.a.replace('struct.', ''), o[1])
                    t = m.structs[t.a]
                t = t.a[o[1]]
        return tag if tag and t.k == 'int' else None


# ------------------------------------------------------------------ one function
def type_extent(m, ty, off):
    """(start, size) of the innermost array the place lies in, or None; constants decide the member, what varies the element"""
    L = m.layout
    start, c, terms = ZERO, off.c, list(off.t)
    best = None
    t = ty
    while True:
        if t.k == 'named':
            t = m.structs[t.a]
        elif t.k == 'struct':
            for i in range(len(t.a)):
                o, ft = L.elem(t, i)
                if o <= c < o + max(1, L.size(ft)):
                    break
            else:
                return best
            start, c, t = add(start, C(o)), c - o, ft
        elif t.k == 'arr':
            es = L.size(t.b)
            best = (start, C(L.size(t))) if chars(t) else None
            if not es:
                return best
            across = [(a, k) for a, k in terms if k % es == 0]
            inner = [(a, k) for a, k in terms if k % es]
            if across and not inner and t.b.k != 'arr':
                return best
            row = c // es if not across or 0 <= c < es else 0
            start = add(start, add(Lin(tuple(across), 0), C(row * es)))
            c, terms, t = c - row * es, inner, t.b
        else:
            return best


def chars(t):
    """an array (of arrays) of characters"""
    while t.k == 'arr':
        t = t.b
        if t.k == 'int' and t.a == 8:
            return True
    return False


class BI(interp.Interp):
    def setup(self, S, con, inline, unk):
        self.S, self.con, self.inl, self.unk = S, con, inline, unk
        self.n = 0
        self.sites, self.used = set(), set()
        self.range_hook = self.range
        self.access_hook = self.access
        self.opts['write_hook'] = self.text
        self.base_ranges = ranges(self.prog)
        self.prims.update({'*indirect': p_indirect, '*recursion': p_rec, 'fgets': p_fgets, 'snprintf': p_snprintf, 'getc': p_getc, 'fgetc': p_getc,
                           'fread': p_fread, 'getline': p_getline, 'atoi': p_int, 'getopt': p_int, 'strncpy': p_strncpy, 'strncat': p_strncat,
                           'memcpy': p_copy, 'memmove': p_copy, 'memset': p_fill, 'utf8proc_iterate': p_iterate, 'sscanf': p_scan, 'qsort': p_qsort})

    # ---- assumed ranges
    def range(self, tag, base, off, ty):
        if ty.k != 'int':
            return None
        r = self.base_ranges(tag, base, off, ty)
        k = None
        if base.obj == 'global' and not off.t and off.c == 0 and (base.key[1], base.key[2]) in self.S.scalars:
            k = ('g', base.key[1], base.key[2])
        elif tag and isinstance(tag[1], int) and tag[0] not in self.S.odd and tag not in self.S.escaped_fields:
            k = ('f',) + tag
        if tag and tag[0] in ('Accclass', 'Wac') and r is None:
            r = (0, BIG)
        if isinstance(base.key, tuple) and base.key[0] == 'ld' and '.match' in base.name and r is None:
            r = (0, BIG)
        if k is not None:
            self.used.add(k)
        if k is not None and k in self.con:
            c = self.con[k]
            r = c if r is None else (max(r[0], c[0]), min(r[1], c[1]))
        return r

    def span(self, st, v):
        """range of a value, in terms of the thresholds"""
        f = st.facts
        v = f.norm(v)
        lo, hi = f.bounds_box(v)
        if lo < 0 and f.decide(scale(v, -1), '<=') is True:
            lo = 0
        if lo < -1 and f.decide(sub(C(-1), v), '<=') is True:
            lo = -1
        lo = 1 if lo >= 1 else 0 if lo >= 0 else -1 if lo >= -1 else -INF
        for t in [0] + self.S.thr:
            if t >= hi:
                hi = t
                break
            if hi > 0 and len(v.t) >= 1 and f.decide(sub(v, C(t)), '<=') is True:
                hi = t
                break
        else:
            hi = INF
        return lo, hi

    def note(self, st, key, v):
        f = st.facts
        v = f.norm(v)
        lo, hi = self.span(st, v)
        return st.event('c24site', key, lo, hi, key[0] in 'gf' and any(self.mentions(a, key) for a, _ in v.t))

    def mentions(self, a, key):
        if key[0] == 'g':
            return '@' + key[2] in a.name
        fs = self.prog.fields.get(key[1])
        n = fs and list(fs[1])[key[2]] if fs and key[2] < len(fs[1]) else None
        return n is not None and '.' + n in a.name

    def globals_for(self, k):
        return self.S.gl.get(k, ())

    # ---- extents
    def extent(self, b, off):
        """(start, size) within b, both Lin or int, or None"""
        m = b.meta or {}
        ty, mod = None, None
        if b.obj == 'global':
            g, mod = self.ginfo(b)
            if g is None or g['external']:
                return None
            ty = g['ty']
        elif b.obj == 'alloca':
            ty = m.get('ty')
            mod = self.prog.modules[m['mod']] if 'mod' in m else None
        elif b.obj == 'heap':
            s = m.get('size')
            return (ZERO, C(s) if isinstance(s, int) else s) if s is not None and (isinstance(s, int) or s.const) else None
        else:
            e = m.get('elem')
            if e is None:
                return None
            mod = self.prog.modules[e[0]]
            t = ir.Ty('named', e[1]) if not hasattr(e[1], 'k') else e[1]
            size = mod.layout.size(t)
            if any(k % size == 0 for _, k in off.t) or not 0 <= off.c < size:
                return None
            return type_extent(mod, t, off)
        if ty is None:
            return None
        if mod is None:
            return (ZERO, C(m['size'])) if 'size' in m else None
        r = type_extent(mod, ty, off)
        return r or (chars(ty) and (ZERO, C(mod.layout.size(ty))) or None)

    def alloca(self, fr, ins):
        v = super().alloca(fr, ins)
        v.one().meta['mod'] = fr.mod.name
        return v

    def bad(self, fr, ins, st, kind, msg, demand=None):
        return st.event('oob', (fr.mod.name, fr.fn.name, ir.line_of(fr.mod, ins.dbg)), kind, msg, demand)

    def inside(self, st, start, size, off, n):
        f = st.facts
        d = f.norm(sub(off, start))
        return f.decide(scale(d, -1), '<=') is True and f.decide(sub(add(d, n), size), '<=') is True

    def access(self, I, fr, ins, st, addr, size, kind):
        a = st.facts.norm(addr)
        b, o = base_of(a)
        if b is None:
            return st
        if isinstance(size, int) and size == 1 and kind == 'load' and ins.op == 'load':
            return st           # a string is read up to its end; indices into arrays are looked at where they are computed
        if not o.t and ins.op in ('load', 'store') and o.c == 0:
            return st
        if b.obj == 'heap' or kind == 'load':
            return st
        e = self.extent(b, o)
        if e is None:
            if o.t and b.key[0] == 'carg' and size == 1:
                self.unknown_param.add(b.key[2])
            return st
        self.n += 1
        self.sites.add((fr.mod.name, fr.fn.name, ir.line_of(fr.mod, ins.dbg)))
        if not self.inside(st, e[0], e[1], o, C(size) if isinstance(size, int) else size):
            return self.bad(fr, ins, st, 'access', '%s of %s bytes at %r, array at %r of %r bytes' % (kind, size, a, e[0], e[1]))
        return st

    def text(self, I, fr, ins, st, b, o, n):
        o = st.facts.norm(o)
        n = st.facts.norm(n)
        e = self.extent(b, o)
        if e is None:
            if b.key[0] == 'carg':
                self.unknown_param.add(b.key[2])
            return st
        self.n += 1
        self.sites.add((fr.mod.name, fr.fn.name, ir.line_of(fr.mod, ins.dbg)))
        if self.inside(st, e[0], e[1], o, n):
            return st
        m = self.bounded(st, n)
        if self.inside(st, e[0], e[1], o, m):
            return st
        # what one string of unknown length may at most be long, for an argument by induction over its loop
        d = None
        for a, k in m.t:
            if a.key[0] == 'toklen' and k == 1 and loop_of(a) is not None and not any(x is not a and x.key[0] == 'toklen' for x, _ in m.t):
                d = (a, st.facts.norm(sub(sub(add(e[0], e[1]), o), sub(m, V(a)))))
        for a, k in n.t:
            if d is None and a.key[0] == 'toklen' and k == 1 and loop_of(a) is not None:
                d = (a, st.facts.norm(sub(sub(add(e[0], e[1]), o), sub(self.bounded(st, sub(n, V(a))), ZERO))))
        return self.bad(fr, ins, st, 'text', 'text of %r bytes at %r, array at %r of %r bytes' % (n, o, e[0], e[1]), d and (d, st))

    def bounded(self, st, n):
        """upper bound of a text length: numbers by their ranges, strings in fixed buffers by the buffer"""
        f = st.facts
        r = C(n.c)
        for a, k in n.t:
            x = V(a)
            if k > 0 and a.key[0] == 'toklen':
                u = self.token_bound(st, a.key[1:])
                if u is not None:
                    x = u
            r = add(r, scale(x, k))
        return f.norm(r)

    def token_bound(self, st, t):
        f = st.facts
        if t[0] in ('int', 'uint', 'hex', 'oct'):
            v = next((x for x in t[1:] if isinstance(x, Lin)), None)
            if v is None:
                return None
            lo, hi = f.bounds_box(f.norm(v))
            w = max([x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)] + [0])
            if t[0] == 'int':
                hi = min(hi, 2 ** 63 - 1)
                for K in [0] + self.S.thr:
                    if K < hi and f.decide(sub(v, C(K)), '<=') is True:
                        hi = K
                        break
                if hi > BIG and self.capped(st, v, BIG):
                    hi = BIG
                if lo < 0 and f.decide(scale(v, -1), '<=') is True:
                    lo = 0
                n = max(len(str(hi)), len(str(max(lo, -2 ** 63))) if lo < 0 else 1)
            else:
                if lo < 0:
                    hi = 2 ** 64 - 1 if hi > 2 ** 32 or lo < -2 ** 31 else 2 ** 32 - 1
                hi = min(hi, 2 ** 64 - 1)
                n = len(('%x' if t[0] == 'hex' else '%o' if t[0] == 'oct' else '%d') % hi)
            return C(max(n, w))
        if t[0] == 'str':
            p = next((x for x in t[1:] if isinstance(x, Lin)), None)
            if p is None:
                return None
            b, o = base_of(f.norm(p))
            if b is None or b.obj not in ('alloca', 'global'):
                return None
            e = self.extent(b, o)
            if e is None:
                return None
            return f.norm(sub(sub(add(e[0], e[1]), o), ONE))
        if t[0] == 'sacc':
            # what a loop appended is in a buffer, whose writes are looked at one by one
            S = next((s for s in self.loops_done if s.lid in t[1:]), None)
            b = next((x for x in S.saccs if x in t[1:] or getattr(x, 'name', None) in t[1:]), None) if S is not None else None
            e = self.extent(b, ZERO) if b is not None and b.obj in ('alloca', 'global') else None
            return None if e is None else f.norm(sub(e[1], ONE))
        if t[0] == 'u8':
            return C(4)
        return None

    def capped(self, st, v, K):
        """a loop variable that starts below K and is only ever given values below K"""
        f = st.facts
        v = f.norm(v)
        todo, seen = [a for a, k in v.t], set()
        if len(v.t) != 1 or v.t[0][1] != 1 or v.c > 0:
            return False
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if f.bounds_box(V(a))[1] <= K:
                continue
            hit = None
            for S in self.loops_done:
                for x in S.vars:
                    if x.sym is a:
                        hit = (S, x)
            if hit is None:
                return False
            S, x = hit
            for w, fc in [(x.init, S.pre.facts if hasattr(S.pre, 'facts') else f)] + [(t.nxt[x], t.facts) for t in S.trans()]:
                w = fc.norm(w)
                if fc.bounds_box(w)[1] <= K:
                    continue
                if len(w.t) == 1 and w.t[0][1] == 1 and w.c <= 0:
                    todo.append(w.t[0][0])
                    continue
                return False
        return True

    # ---- instructions
    def inst(self, fr, ins, env, st):
        if ins.op == 'gep':
            ty = ins.ty
            vals = None
            for j, (ot, ov) in enumerate(ins.a[2:]):
                if ty.k == 'named':
                    ty = fr.mod.structs[ty.a]
                if ty.k == 'arr':
                    if not chars(ty) or not self.written(fr.fn, ins):
                        pass
                    elif ov[0] != 'int':
                        v = st.facts.norm(self.val(fr, env, ot, ov))
                        self.n += 1
                        self.sites.add((fr.mod.name, fr.fn.name, ir.line_of(fr.mod, ins.dbg)))
                        lim = ty.a if self.strict(fr.fn, ins, j) else ty.a + 1
                        f = st.facts
                        if f.decide(scale(v, -1), '<=') is not True or f.decide(sub(v, C(lim - 1)), '<=') is not True:
                            st = self.bad(fr, ins, st, 'index', 'index %r of an array of %d' % (v, ty.a))
                    elif not 0 <= ov[1] < ty.a + (0 if self.strict(fr.fn, ins, j) else 1) and ty.a:
                        st = self.bad(fr, ins, st, 'index', 'index %d of an array of %d' % (ov[1], ty.a))
                    ty = ty.b
                elif ty.k == 'struct':
                    ty = ty.a[ov[1]]
        elif ins.op == 'store' and ins.ty.k == 'int':
            tag = self.ptr_tag(fr, ins.a[1], ins.ty)
            p = ins.a[1]
            k = None
            if p[0] == 'global' and self.S.gkey(fr.mod, p[1]) in self.S.scalars:
                k = ('g',) + self.S.gkey(fr.mod, p[1])
            elif tag and isinstance(tag[1], int) and tag[0] not in self.S.odd and tag not in self.S.escaped_fields:
                k = ('f',) + tag
            if k is not None:
                st = self.note(st, k, self.val(fr, env, ins.ty, ins.a[0]))
        return super().inst(fr, ins, env, st)

    def users(self, fn):
        u = self.__dict__.setdefault('_uses', {})
        k = (fn.module.name, fn.name)
        if k not in u:
            d = u[k] = {}
            for b in fn.order:
                for i in fn.blocks[b]:
                    for x in self.S.locals_in(i):
                        d.setdefault(x, []).append(i)
        return u[k]

    def strict(self, fn, ins, j):
        """is something at that very index used (and not just its address taken)?"""
        if j < len(ins.a) - 3:
            return True
        return any(i.op in ('load', 'gep') or i.op == 'store' and i.a[1] == ('local', ins.res) for i in self.users(fn).get(ins.res, ()))

    def written(self, fn, ins):
        """is the place used for more than reading it?"""
        return any(i.op != 'load' for i in self.users(fn).get(ins.res, ()))

    # ---- calls
    def call(self, fr, ins, env, st):
        callee, args, nr = ins.a
        if callee[0] != 'global':
            return super().call(fr, ins, env, st)
        name = callee[1]
        t = self.prog.resolve(fr.mod, name)
        if t is None:
            if name not in self.prims and not nr:
                return [(self.forget_args(fr, ins, env, st), self.result(fr, ins))]
            return super().call(fr, ins, env, st)
        if name in self.prims and not t.internal and name in FINAL:
            return super().call(fr, ins, env, st)
        k = (t.module.name, t.name)
        self.used.add(('i',) + k)
        vals = [self.val(fr, env, ty, v) for ty, v in args if ty.k != 'metadata']
        for g in self.S.gl[k]:
            for s2, v in self.load(st, V(interp.glob_atom(*g)), self.S.scalars[g]['ty'].a // 8, self.S.scalars[g]['ty'])[:1]:
                st = self.note(st, ('e',) + k + g, v)
        for j, ((ty, nm), v) in enumerate(zip(t.params, vals)):
            if ty.k == 'int':
                st = self.note(st, ('p',) + k + (j,), v)
        go = k in self.inl or self.S.size[k] <= self.small
        for j in sorted(self.unk.get(k, ())):
            if j < len(vals):
                b, o = base_of(st.facts.norm(vals[j]))
                if b is None:
                    continue
                if b.key[0] == 'carg':
                    self.unknown_param.add(b.key[2])
                elif self.extent(b, o) is not None:
                    go = True
        if any(f.fn is t for f in fr.chain()) or k in self.S.rec or not go:
            return [(self.summary(fr, ins, env, st, k, vals), self.result(fr, ins, k))]
        self.callsites += 1
        outs = self.run(t, vals, st, fr, ins)
        return [(o.st, o.val if o.val is not None else ZERO) if o.kind == 'ret' else ('exit', o) for o in outs]

    def mark(self, fr, ins, st):
        return (fr.uid, ins.blk, ins.idx, st.extra.get('iter', ()))

    def forget_args(self, fr, ins, env, st):
        for t, v in ins.a[1]:
            if t.k == 'ptr':
                st = self.forget(fr, ins, st, self.val(fr, env, t, v))
        return st

    def forget(self, fr, ins, st, p, what='lib'):
        b, o = base_of(st.facts.norm(p))
        if b is None or b.obj == 'global' and (self.ginfo(b)[0] or {}).get('const'):
            return st
        if b.key[0] == 'fn':
            return st
        return st.put(('hv', (what,) + self.mark(fr, ins, st), ('base', b)))

    def summary(self, fr, ins, env, st, k, vals):
        """anything the callee may have changed is unknown"""
        w = self.S.tw.get(k, set())
        st2 = st
        for v in vals:
            b, o = base_of(st.facts.norm(v))
            if b is not None and b.obj == 'alloca':
                st2 = self.forget(fr, ins, st2, v, 'callee')
        may = self.changes(frozenset(w))
        st2 = st2.put(('hv', ('callee',) + self.mark(fr, ins, st), ('all', may)))
        for g in self.S.gl[k]:
            self.used.add(('o',) + k + g)
            c = self.con.get(('o',) + k + g)
            if c and c != TOP and g in w:
                d = self.S.scalars[g]['ty']
                lo, hi = max(c[0], -(1 << (d.a - 1))), min(c[1], (1 << (d.a - 1)) - 1)
                st2 = st2.put(('st', interp.glob_atom(*g), ZERO, d.a // 8, self.fresh('after', g[1], lo=lo, hi=hi), None))
        return st2

    def changes(self, w):
        d = self.__dict__.setdefault('_changes', {})
        if w in d:
            return d[w]
        sc = self.S.scalars

        def may(b, t):
            if b.obj == 'alloca':
                return False
            if b.obj == 'global':
                g = (b.key[1], b.key[2])
                if g in sc:
                    return g in w
                d, m = self.ginfo(b)
                return not (d is not None and d['const'])
            return True
        d[w] = may
        return may

    def result(self, fr, ins, k=None):
        ty = ins.ty
        if ty is None or ty.k == 'void':
            return None
        if ty.k == 'int':
            lo, hi = -(1 << (ty.a - 1)), (1 << (ty.a - 1)) - 1
            c = self.con.get(('r',) + k) if k else None
            if k:
                self.used.add(('r',) + k)
            if c:
                lo, hi = max(lo, c[0]), min(hi, c[1])
            return self.fresh('result', ins.blk, ins.idx, lo=lo, hi=hi)
        if ty.k == 'ptr':
            return self.fresh('result', ins.blk, ins.idx, ptr=True, lo=0)
        return self.fresh('result', ins.blk, ins.idx, fl=True)


def loop_of(a):
    for x in a.key[1:]:
        if hasattr(x, 'name') and type(x).__name__ == 'Lid':
            return x
        if isinstance(x, tuple):
            for y in x:
                if type(y).__name__ == 'Lid':
                    return y
    return None


def p_indirect(I, fr, ins, st, v, vals):
    return [(st, I.result(fr, ins))]


def p_rec(I, fr, ins, st, tgt, vals):
    raise Unsupported('recursion')


def p_fgets(I, fr, ins, st, a):
    b, o = base_of(st.facts.norm(a[0]))
    if b is None:
        raise Unsupported('fgets target')
    st = I.text(I, fr, ins, st, b, o, st.facts.norm(a[1]))
    return [(st, ZERO), (I.forget(fr, ins, st, a[0]), a[0])]


def p_snprintf(I, fr, ins, st, a):
    b, o = base_of(st.facts.norm(a[0]))
    if b is not None:
        st = I.text(I, fr, ins, st, b, o, st.facts.norm(a[1]))
        st = I.forget(fr, ins, st, a[0])
    return [(st, I.fresh('snprintf', lo=-1, hi=2 ** 31 - 1))]


def p_strncpy(I, fr, ins, st, a):
    b, o = base_of(st.facts.norm(a[0]))
    if b is None:
        raise Unsupported('strncpy target')
    st = I.text(I, fr, ins, st, b, o, st.facts.norm(a[2]))
    return [(I.forget(fr, ins, st, a[0]), a[0])]


def p_strncat(I, fr, ins, st, a):
    b, o = base_of(st.facts.norm(a[0]))
    if b is None:
        raise Unsupported('strncat target')
    n = libc.toks_len(libc.norm_tokens(libc.string_tokens(I, st, a[0])))
    st = I.text(I, fr, ins, st, b, o, add(add(n, st.facts.norm(a[2])), ONE))
    return [(I.forget(fr, ins, st, a[0]), a[0])]


def p_copy(I, fr, ins, st, a):
    n = st.facts.norm(a[2])
    if st.facts.value(n) is not None:
        return libc.p_memcpy(I, fr, ins, st, a)
    for x in a[:2]:
        b, o = base_of(st.facts.norm(x))
        if b is not None:
            st = I.text(I, fr, ins, st, b, o, n)
    return [(I.forget(fr, ins, st, a[0]), a[0])]


def p_fill(I, fr, ins, st, a):
    b, o = base_of(st.facts.norm(a[0]))
    if b is not None:
        st = I.text(I, fr, ins, st, b, o, st.facts.norm(a[2]))
    return [(I.forget(fr, ins, st, a[0]), a[0])]


def p_getc(I, fr, ins, st, a):
    return [(st, I.fresh('getc', lo=-1, hi=255))]


def p_int(I, fr, ins, st, a):
    return [(st, I.result(fr, ins))]


def p_getline(I, fr, ins, st, a):
    for x in a[:2]:
        st = I.forget(fr, ins, st, x)
    return [(st, I.fresh('getline', lo=-1, hi=BIG))]


def p_fread(I, fr, ins, st, a):
    f = st.facts
    s, n = f.value(f.norm(a[1])), f.value(f.norm(a[2]))
    b, o = base_of(f.norm(a[0]))
    if b is None or s is None and n is None:
        raise Unsupported('fread')
    k = scale(f.norm(a[2]), s) if s is not None else scale(f.norm(a[1]), n)
    st = I.text(I, fr, ins, st, b, o, k)
    r = I.fresh('fread', lo=0, hi=BIG)
    st = I.forget(fr, ins, st, a[0])
    s2 = st.assume(sub(r, f.norm(a[2])), '<=')
    return [(s2 or st, r)]


def p_iterate(I, fr, ins, st, a):
    b, o = base_of(st.facts.norm(a[2]))
    if b is None:
        raise Unsupported('utf8proc_iterate')
    cp = I.fresh('code point', lo=0, hi=MAXCP)
    bad = I.store(st, a[2], 4, C(-1), ir.ity(32), None)
    r = [(s, I.fresh('undecoded', lo=-10, hi=0)) for s in bad]
    for s in I.store(st, a[2], 4, cp, ir.ity(32), None):
        r.append((s, I.fresh('decoded', lo=1, hi=4)))
    return r


def p_scan(I, fr, ins, st, a):
    fmt = I.cstring(st.facts.norm(a[1]))
    if fmt is None:
        raise Unsupported('sscanf with a computed format')
    import re
    convs = [m.groups() for m in re.finditer(rb'%(\*?)(\d*)(hh|h|ll|l|z|j|t)?(\[\^?\]?[^]]*\]|[a-zA-Z%])', fmt)]
    args = list(a[2:])
    text = libc.string_tokens(I, st, a[0])
    for star, width, ln, c in convs:
        if star or c == b'%':
            continue
        if not args:
            return [(I.bad(fr, ins, st, 'text', 'sscanf lacks an argument'), I.result(fr, ins))]
        p = args.pop(0)
        if c in b'disuxXoc' and c != b's' and c != b'c' or c == b'n':
            size = {b'l': 8, b'll': 8, b'z': 8, b'j': 8, b't': 8, b'h': 2, b'hh': 1}.get(ln, 4)
            st = I.access(I, fr, ins, st, p, size, 'store')
            n = I.fresh('scanned', lo=-(1 << (8 * size - 1)), hi=(1 << (8 * size - 1)) - 1)
            if c == b'n':
                # not more than was there to be read
                n = I.fresh('scanned to', lo=0, hi=BIG)
                b0, o0 = base_of(st.facts.norm(a[0]))
                e = I.extent(b0, o0) if b0 is not None else None
                if e is not None:
                    s2 = st.assume(sub(n, sub(sub(add(e[0], e[1]), o0), ONE)), '<=')
                    st = s2 or st
            st = I.store(st, p, size, n, ir.ity(8 * size), None)[0]
        else:
            b, o = base_of(st.facts.norm(p))
            if b is not None:
                n = C(int(width) + (c != b'c')) if width else ONE if c == b'c' else add(libc.toks_len(libc.norm_tokens(text)), ONE)
                if c in (b'f', b'g', b'e'):
                    st = I.access(I, fr, ins, st, p, 8 if ln == b'l' else 4, 'store')
                else:
                    st = I.text(I, fr, ins, st, b, o, n)
                st = I.forget(fr, ins, st, p)
    return [(st, I.fresh('fields', lo=-1, hi=sum(1 for x in convs if not x[0] and x[3] not in (b'n', b'%'))))]


def p_qsort(I, fr, ins, st, a):
    return [(I.forget(fr, ins, st, a[0]), None)]


def walk(evs):
    for e in evs:
        if e[0] in ('oob', 'c24site'):
            yield e, None
        elif e[0] == 'loop':
            for t in e[1].trans():
                yield from walk(t.events)
            for p in e[1].parts.values():
                for x in p.exits:
                    yield from walk(x.st.events(p.head.ev))


def by_induction(I, d):
    """is the string of a loop never longer than demanded? d = (atom, most)"""
    a, most = d
    lid = loop_of(a)
    S = next((s for s in I.loops_done if s.lid is lid), None)
    if S is None:
        return False
    t = a.key[1:]
    if t[0] == 'sacc':
        d = next(iter(S.saccs.values())) if len(S.saccs) == 1 else None
        if d is not None and most.const and most.c >= 0 and all(
                id(x) in d['delta'] and x.facts.decide(sub(x.facts.norm(add(V(a), libc.toks_len(d['delta'][id(x)]))), most), '<=') is True for x in S.trans()):
            return True
        return sacc_bound(I, S, t, most)
    if t[0] != 'str':
        return False
    p = next(x for x in t[1:] if isinstance(x, Lin))

    def length(st):
        toks = libc.norm_tokens(libc.string_tokens(I, st, p))
        n = libc.toks_len(toks)
        m = C(n.c)
        f = st.facts
        for x, k in n.t:
            m = add(m, scale(V(x), k))
        return st.facts.norm(m)
    for st in [S.pre] + [t.st for t in S.trans()]:
        f = st.facts
        n = length(st)
        if f.decide(sub(n, most), '<=') is not True:
            return False
    return True


def sacc_bound(I, S, t, most):
    """a string that grows by bounded pieces in a counted loop"""
    d = next((v for b, v in S.saccs.items()), None)
    if d is None or len(S.saccs) != 1:
        return False
    M = 0
    for tr in S.trans():
        toks = d['delta'].get(id(tr))
        if toks is None:
            return False
        n = I.bounded(tr.st, libc.toks_len(toks))
        hi = tr.facts.bounds_box(n)[1]
        M = max(M, hi)
    if M >= INF:
        return False
    return M


KEEP = {}


def one(job):
    k, con, inline, unk, limit, small = job
    S = KEEP['S']
    P = S.P
    I = BI(P)
    I.setup(S, con, inline, unk)
    I.small = small
    F = P.modules[k[0]].functions[k[1]]
    args = []
    I.unknown_param = set()
    for j, (ty, nm) in enumerate(F.params):
        if ty.k == 'int':
            lo, hi = -(1 << (ty.a - 1)), (1 << (ty.a - 1)) - 1
            c = con.get(('p',) + k + (j,))
            I.used.add(('p',) + k + (j,))
            if c:
                lo, hi = max(lo, c[0]), min(hi, c[1])
            args.append(V(atom(('carg', k, j, lo, hi), nm, lo, hi)))
        else:
            a = atom(('carg', k, j, 0, 0), nm, fl=ty.k in ('double', 'float'))
            if ty.k == 'ptr':
                interp.mkptr(a)
                a.lo = 0
                if a.meta is None:
                    a.meta = {}
                e = S.elem.get((k[0], k[1], nm))
                if e:
                    a.meta['elem'] = (k[0], ir.Ty('named', e) if not hasattr(e, 'k') else e)
            args.append(V(a))
    for b in F.order:
        for i in F.blocks[b]:
            pass
    err = None
    t0 = time.time()

    def alarm(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    oob, sites, first = {}, {}, {}
    try:
        st = interp.State(Facts())
        if k[1] == 'main':
            st = startup(S, k[0], st)
        else:
            for g in S.gl[k]:
                I.used.add(('e',) + k + g)
                c = con.get(('e',) + k + g)
                if c and c != TOP:
                    d = S.scalars[g]['ty']
                    lo, hi = max(c[0], -(1 << (d.a - 1))), min(c[1], (1 << (d.a - 1)) - 1)
                    st = st.put(('st', interp.glob_atom(*g), ZERO, d.a // 8, V(atom(('entry', k, g, lo, hi), '@' + g[1], lo, hi)), None))
        outs = live(I.run(F, args, st))
        seen = set()
        for o in outs:
            evs = list(walk(o.st.events()))
            if o.kind == 'ret' and F.ret is not None and F.ret.k == 'int' and o.val is not None:
                lo, hi = I.span(o.st, o.val)
                evs.append((('c24site', ('r',) + k, lo, hi, False), None))
            if o.kind == 'ret':
                for g in S.gl[k]:
                    if g in S.tw[k]:
                        for s2, v in I.load(o.st, V(interp.glob_atom(*g)), S.scalars[g]['ty'].a // 8, S.scalars[g]['ty'])[:1]:
                            lo, hi = I.span(o.st, v)
                            evs.append((('c24site', ('o',) + k + g, lo, hi, False), None))
            for e, _ in evs:
                if id(e) in seen:
                    continue
                seen.add(id(e))
                if e[0] == 'oob':
                    if e[4] is not None and proved(I, e):
                        continue
                    oob.setdefault((e[1], e[2]), e[3])
                else:
                    lo, hi = sites.get(e[1], (INF, -INF))
                    sites[e[1]] = (min(lo, e[2]), max(hi, e[3]))
                    if not e[4]:
                        lo, hi = first.get(e[1], (INF, -INF))
                        first[e[1]] = (min(lo, e[2]), max(hi, e[3]))
    except TimeoutError:
        err = 'time limit'
    except RecursionError:
        err = 'recursion limit'
    except Exception as ex:
        err = '%s: %s' % (type(ex).__name__, str(ex)[:200])
        if os.environ.get('VERIF_DEBUG') == '2':
            traceback.print_exc()
    signal.alarm(0)
    return k, err, oob, sites, I.n, len(I.loops_done), I.callsites, I.unknown_param, sorted(I.sites), I.used, time.time() - t0, first


def proved(I, e):
    (a, most), st = e[4]
    try:
        r = by_induction(I, (a, most))
    except Unsupported:
        return False
    if r is True:
        return True
    if r is False or r is None:
        return False
    # r: most that one iteration adds; the loop's counter tells how many there were
    S = next(s for s in I.loops_done if s.lid is loop_of(a))
    for v, init, step in counters(S):
        if step == 1 and st.facts.decide(sub(scale(sub(V(v.sym), init), r), most), '<=') is True:
            return True
    return False


def startup(S, mod, st):
    """simple variables start with their initial values"""
    P = S.P
    for (m, g), d in S.scalars.items():
        v = 0 if d['init'] is None or d['init'][0] == 'zero' else d['init'][1] if d['init'][0] == 'int' else None
        if v is not None and (m == mod or m == '' and P.gext.get(g) in (mod,) or m in P.modules and 'main' not in P.modules[m].functions):
            st = st.put(('st', interp.glob_atom(m, g), ZERO, d['ty'].a // 8, C(v), None))
    return st


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def tidy(S, r):
    """to the thresholds"""
    lo = 1 if r[0] >= 1 else 0 if r[0] >= 0 else -1 if r[0] >= -1 else -INF
    hi = next((t for t in [0] + S.thr if t >= r[1]), INF)
    return lo, hi


def initial(S, k):
    """values there before anything is stored"""
    if k[0] == 'g':
        d = S.scalars[k[1:]]
        v = 0 if d['init'] is None or d['init'][0] == 'zero' else d['init'][1] if d['init'][0] == 'int' else None
        return (v, v) if v is not None else TOP
    if k[0] == 'f':
        return TOP      # memory may be allocated without being cleared
    return None


def givers(S, key):
    """functions that may give a value to it; None if that cannot be told"""
    t = key[0]
    if t in 'ro':
        return {key[1:3]}
    if t in 'pe':
        f = key[1:3]
        return None if f in S.roots and not (t == 'e' and f[1] == 'main') else set(S.callers[f])
    if t == 'g':
        return {f for f in S.fns if key[1:] in S.writes[f]}
    return None


WRITERS = {'sprintf', 'snprintf', 'vsprintf', 'vsnprintf', 'strcat', 'strcpy', 'strncpy', 'strncat', 'gets', 'fgets', 'fread', 'memcpy', 'memmove',
           'sscanf', 'fscanf', 'scanf', 'read', 'stpcpy', 'realpath', 'getcwd', 'strftime', 'wcstombs', 'wctomb', 'utf8proc_encode_char', 'memset'}


def concerned(S, k):
    """does the function own, index or write characters in arrays?"""
    m = S.P.modules[k[0]]
    f = m.functions[k[1]]
    defs = interp.defs_of(f)
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'alloca' and chars(i.ty):
                return True
            if i.op == 'gep':
                t = i.ty
                for _, o in i.a[2:]:
                    if t.k == 'named':
                        t = m.structs[t.a]
                    if chars(t):
                        return True
                    t = t.b if t.k == 'arr' else t.a[o[1]] if t.k == 'struct' else t
            elif i.op == 'store' and i.ty.k == 'int' and i.ty.a == 8:
                p = i.a[1]
                if p[0] != 'local' or p[1] not in defs or defs[p[1]].op != 'alloca':
                    return True
            elif i.op == 'call' and i.a[0][0] == 'global':
                n = i.a[0][1]
                if S.P.resolve(m, n) is None and (n in WRITERS or n.startswith('llvm.mem')):
                    return True
    return False


def costly(err):
    return bool(err) and err.startswith(('time', 'Budget'))


def solve(S, ctx, limit):
    con, inline, unk, res, lean = {}, set(), {}, {}, set()
    KEEP['S'] = S
    todo = {k for k in S.fns if concerned(S, k)}
    target = set(todo)

    def runs(ks, limit=limit):
        t0 = time.time()
        jobs = [(k, con, inline, unk, limit, -1 if k in lean else 25) for k in sorted(ks, key=lambda k: -S.size[k])]
        with Pool(8) as p:
            for r in p.imap_unordered(one, jobs, 1):
                res[r[0]] = r[1:]
        long = {k for k in ks if costly(res[k][0]) and k not in lean}
        if long:
            # without looking into small functions
            lean.update(long)
            runs(long, 200)
        if os.environ.get('VERIF_DEBUG'):
            print('run of', len(jobs), '%.0fs' % (time.time() - t0))
            for k in sorted(ks):
                r = res[k]
                if r[0] or r[1] or r[6]:
                    print('   ', k[0], k[1], r[0] or '', '%.1f' % r[9], [(x[0][1:], x[1]) for x in r[1]], sorted(r[6]) if r[6] else '')

    def settle():
        """callees that write through a parameter are looked into where the buffer is known"""
        again = set(todo)
        while again:
            runs(again)
            again = set()
            for k in sorted(todo):
                w = res[k][6] - unk.get(k, set())
                if w and k not in S.rec:
                    unk[k] = unk.get(k, set()) | w
                    again |= S.callers[k]
            todo.update(again)
            target.update(again)

    def wanted(ks):
        return {u for k in ks if k in res for u in res[k][8] if u[0] in 'rogep'}

    def dirty():
        return {k for k in target if res[k][1] or res[k][0]}
    settle()
    slow = set()
    for depth in range(8):
        d = dirty()
        if not d:
            break
        # ranges of the numbers it depends on, from every place that gives them, as far as three steps away
        need, front = set(), d
        for step in range(3):
            new = wanted(front) - need
            need |= new
            front = set()
            for u in new:
                front |= givers(S, u) or set()
            front -= slow
            if len(front) > 12:
                break
            runs(front - set(res), 20)
            slow |= {k for k in front if costly(res[k][0])}
        changed = set()
        for u in sorted(need, key=repr):
            g = givers(S, u)
            if g is None or any(x not in res or res[x][0] for x in g):
                continue
            v = initial(S, u)
            for x in g:
                if u in res[x][2]:
                    v = join(v, res[x][2][u]) if v else res[x][2][u]
            if v is None:
                continue
            v = tidy(S, v)
            if v != TOP and con.get(u) != v:
                con[u] = v
                changed.add(u)
        if changed:
            if os.environ.get('VERIF_DEBUG'):
                print('ranges', len(con), [(k, con[k]) for k in sorted(changed, key=repr)])
            runs({k for k in res if k not in slow and changed & set(res[k][8])})
            continue
        more = {k for k in d if res[k][1] and k not in inline and k not in S.roots and k not in S.rec}
        if not more:
            break
        inline |= more
        up = set()
        for k in more:
            up |= S.callers[k]
        todo |= up
        target |= up
        runs(up)
    for k in S.fns:
        if k not in res:
            res[k] = (None, {}, {}, 0, 0, 0, set(), [], set(), 0, {})
    return con, inline, res, target


def run(ctx):
    P = ctx.program()
    S = Static(P)
    limit = 40 if ctx.tier == 'quick' else 200
    con, inline, res, target = solve(S, ctx, limit)
    done = set()
    bad = {}
    for k in sorted(target):
        err, oob, sites, n, loops, cs, up, where = res[k][:8]
        if err is None:
            ctx.analysed.add(k)
        else:
            bad[k] = err
        ctx.loops += loops
        ctx.callsites += cs
        ctx.paths += 1
        done |= set(where)
        if k in inline and k not in S.roots and S.callers[k]:
            continue        # has to be safe in each of its callers
        for (site, kind), msg in sorted(oob.items()):
            ctx.fail(kind, '%s (reached through %s)' % (msg, k[1]), '%s.c:%s line %s' % site)
    for site in sorted(done):
        ctx.require(True, 'bounds', 'the text written in %s.c:%s line %s fits its array' % site)
    if bad and not ctx.violations:
        raise Unsupported('not interpreted: %s' % '; '.join('%s (%s)' % (k[1], e) for k, e in sorted(bad.items())))
    ctx.counts['ranges inferred'] = len(con)
