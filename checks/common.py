"""helpers shared by the checks"""
from engine.check import *
from engine import libc, interp, ir
from engine.terms import *


_args = {}


def arg(n, lo=None, hi=None, ptr=False):
    """an unknown value; without a range, the last one of that name"""
    if lo is None and hi is None and not ptr and n in _args:
        return _args[n]
    lo, hi = -INF if lo is None else lo, INF if hi is None else hi
    a = atom(('arg', n, lo, hi, ptr), n, lo, hi)
    if ptr:
        interp.mkptr(a)
        a.lo = 0 if ptr == 'null' else 1
    _args[n] = V(a)
    return V(a)


def obj(n, size=None):
    """an object of unknown contents, distinct from every other"""
    a = atom(('obj', n), n, obj='param')
    if a.meta is None:
        a.meta = {}
    a.meta['size'] = size
    return V(a)


def outs_by_stream(events):
    d = {}
    for e in events:
        if e[0] == 'out':
            d.setdefault(e[1], []).extend(e[2])
    return {k: libc.norm_tokens(v) for k, v in d.items()}


MAXCP = 0x10FFFF
GRAPHIC = is_from(list(range(1, 23)) + [29])
COMBINING = ((6, 8),)


def spec_char(o, suspect, value, fake):
    """documented rendering of a character: token tuple"""
    t = []
    if o.nz(suspect):
        t.append(('lit', b'^'))
    if o.eq(value, 10):
        t.append(('lit', b'<\\n>' if o.nz(fake) else b'\n'))
        return tuple(t)
    cat = libc.category(o.facts.norm(value))
    v = o.facts.value(value)
    graphic = o.eq(value, 32) or o.in_(V(cat), GRAPHIC)
    if graphic:
        if o.in_(V(cat), COMBINING) and not o.eq(value, 32):
            t.append(('u8', C(0x25CC)))
        t.append(('u8', value))
        return tuple(t)
    w = 2 if o.lt(value, 256) else 4
    return tuple(t + [('lit', b'<'), ('hex', w, '0', True, value), ('lit', b'>')])


def walker(S, next_off):
    """(Var, early-exit outcomes) when loop S walks a list through the field at next_off, else None"""
    for v in S.vars:
        if v.kind not in ('phi', 'cell') or v.sym is None or v.flag:
            continue
        ok = bool(S.trans())
        for t in S.trans():
            n = t.nxt[v]
            a = n.one()
            if a is None or a.key[0] != 'ld' or t.facts.norm(a.key[1]) != t.facts.norm(add(V(v.sym), C(next_off))):
                ok = False
                break
            if t.facts.decide(V(v.sym), '!=') is not True:
                ok = False
                break
        if ok:
            early = [o for o in S.exits() if not (o.kind == 'goto' and o.st.facts.value(V(v.sym)) == 0)]
            return v, early
    return None


def ranges(P):
    """value ranges established by other properties (C01: code points; list counts and flags)"""
    names = {}
    for st, fs in P.fields.items():
        names[st] = list(fs[1].keys())

    def h(tag, base, off, ty):
        if tag and tag[0] in names and isinstance(tag[1], int) and tag[1] < len(names[tag[0]]):
            n = names[tag[0]][tag[1]]
            if tag[0] == 'Char' and n == 'value':
                return (0, MAXCP)
            if tag[0] == 'Char' and n == 'suspect':
                return (0, 1)
            if n == 'count' and names[tag[0]][:3] == ['first', 'last', 'array']:
                return (0, 1 << 40)
            if tag[0] == 'Substr':
                return (-1 if n == 'stop' else 0, 1 << 40)
        return None
    return h


# ------------------------------------------------------------------ loops
def live(outs):
    """outcomes whose facts are consistent"""
    return [o for o in outs if libc.consistent(o.st.facts)]


def loops_of(st, since=None):
    return [e[1] for e in st.events(since) if e[0] == 'loop']


def counters(S):
    """[(var, init, step)] of the loop variables that advance by one constant every iteration"""
    out = []
    for v in S.vars:
        if v.sym is None or v.tmpl or not S.trans():
            continue
        ds = [t.facts.norm(sub(t.nxt[v], V(v.sym))) for t in S.trans()]
        if all(d.const for d in ds) and len({d.c for d in ds}) == 1 and ds[0].c:
            out.append((v, v.init, ds[0].c))
    return out


def elements(S, base, size):
    """addresses of the element of the array at base that an iteration is at, going from the first on one by one, by index or by pointer"""
    out = []
    for v, init, step in counters(S):
        if step == 1 and S.pre.facts.value(init) == 0:
            out.append(add(base, scale(V(v.sym), size)))
        elif step == size and lin_eq(S.pre.facts, init, base):
            out.append(V(v.sym))
        elif step == size and S.pre.facts.value(init) == 0:
            out.append(add(base, V(v.sym)))
    return out


def counted(S, lo, hi, early=False):
    """the loop variable running over lo <= i < hi upwards one by one, or None.
    Unless `early`, the loop is left only when the range is used up."""
    if all(dead(o) for o in S.exits()):
        return None         # never left
    for v, init, step in counters(S):
        if step != 1:
            continue
        i = V(v.sym)
        if not lin_eq(S.pre.facts, init, lo):
            continue
        if not all(t.facts.decide(add(sub(i, hi), ONE), '<=') is True for t in S.trans()):
            continue
        if not early and not all(dead(o) or fatal(S, o) or o.st.facts.decide(sub(hi, i), '<=') is True for o in S.exits()):
            continue
        return v
    for v, init, step in counters(S):
        # a counter that is off by some number, or runs down
        if step not in (1, -1) or v.ty is not None and v.ty.k == 'ptr' or step == 1 and lin_eq(S.pre.facts, init, lo):
            continue
        i = add(scale(sub(V(v.sym), init), step), lo)
        if all(t.facts.decide(add(sub(i, hi), ONE), '<=') is True for t in S.trans()) and \
                (early or all(dead(o) or fatal(S, o) or o.st.facts.decide(sub(hi, i), '<=') is True for o in S.exits())):
            return Shifted(v, i)
    return None


def places(S, base, size, n):
    """address of the element an iteration is at, if the loop goes over all n elements of the array at base from the first on; or None"""
    v = counted(S, ZERO, n)
    if v is not None:
        return add(base, scale(V(v.sym), size))
    end = add(base, scale(n, size))
    for v, init, step in counters(S):
        x = V(v.sym)
        if step == size and lin_eq(S.pre.facts, init, base) and all(t.facts.decide(add(sub(x, end), ONE), '<=') is True for t in S.trans()) and \
                all(dead(o) or fatal(S, o) or o.st.facts.decide(sub(end, x), '<=') is True for o in S.exits()):
            return x
    return None


class Shifted:
    """the values lo, lo + 1, ... in terms of a loop variable that starts elsewhere"""
    def __init__(self, v, i):
        self.var, self.sym, self.name, self.key, self.kind, self.init, self.ty = v, i, v.name, v.key, v.kind, v.init, v.ty


def fatal(S, o):
    """this way out of the loop ends the program with an error"""
    if o.kind == 'exit':
        return not any(e[0] == 'terminate' for e in o.st.events())
    if o.kind != 'goto':
        return False
    f = S.func

    def go(b, seen):
        if b in seen:
            return False
        t = f.blocks[b][-1]
        if t.op == 'unreachable':
            # a regular end of the program is not an error
            return not any(i.op == 'call' and (i.a[0] == ('global', 'terminate') or
                                               (i.a[0] == ('global', 'exit') and i.a[1] and i.a[1][0][1] == ('int', 0))) for i in f.blocks[b])
        n = interp.succs(f, b)
        return bool(n) and all(go(x, seen | {b}) for x in n)
    return go(o.blk, frozenset())


def dead(o):
    return not libc.consistent(o.st.facts)


def sign_rows(outs, spec):
    """compare the sign of returned values with a specification: list of (outcome, facts, got, want)"""
    rows = []
    for o in outs:
        if dead(o):
            continue
        for f, want in table(o.st.facts, lambda q: spec(q, o)):
            if o.kind != 'ret' or o.val is None:
                rows.append((o, f, 'no return', want))
                continue
            got = None
            if f.decide(o.val, '==') is True:
                got = 0
            elif f.decide(add(o.val, ONE), '<=') is True:
                got = -1
            elif f.decide(add(scale(o.val, -1), ONE), '<=') is True:
                got = 1
            rows.append((o, f, got, want))
    return rows


def cmp3(q, x, y):
    return -1 if q.lt(x, y) else 0 if q.eq(x, y) else 1


def fcmp3(q, x, y):
    if q.nz(V(atom(('flt', x, y), None, 0, 1))):
        return -1
    if q.nz(V(atom(('flt', y, x), None, 0, 1))):
        return 1
    return 0


def p_ustrcmp(I, fr, ins, st, a):
    """ustrcmp behaves as strcmp does in the C locale (its body is verified by C13)"""
    return libc.p_strcmp(I, fr, ins, st, a)


def event_prim(name, ret='none', **kw):
    return interp.generic_event(name, ret, **kw)


def table_in_array_prim(I, fr, ins, st, a):
    """contract of table_in_array/list_in_array (C20, C21): the array member now lists the entries"""
    p = st.facts.norm(a[0])
    b, o = interp.base_of(p)
    n = sum(1 for e in st.events() if e[0] == 'in_array')
    off = I.prog.off(I.array_struct, 'array')
    arr = atom(('array_of', p, n), 'array_of(%r)' % p, 1)
    interp.mkptr(arr)
    s = st.event('in_array', p, V(arr), I.line(fr, ins))
    return [(s.put(('st', b, add(o, C(off)), 8, V(arr), None)), None)]


# ------------------------------------------------------------- call graph
def callgraph(P):
    g = {}
    for m in P.modules.values():
        for f in m.functions.values():
            s = g.setdefault((m.name, f.name), set())
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == 'call' and ins.a[0][0] == 'global':
                        t = P.resolve(m, ins.a[0][1])
                        s.add((t.module.name, t.name) if t is not None else ('', ins.a[0][1]))
    return g


def reaches(g, src, names):
    seen, todo = set(), [src]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[1] in names and x != src:
            return True
        todo += list(g.get(x, ()))
    return False


def entry_below_main(P, mod, pred, what):
    """the function of the tool called from main at or below which pred(function) holds in the tool's own code"""
    g = callgraph(P)
    M = P.modules[mod]

    def own(x, seen):
        if x in seen or x[0] != mod:
            return False
        seen.add(x)
        return pred(M.functions[x[1]]) or any(own(y, seen) for y in g.get(x, ()))
    c = [y for y in g[(mod, 'main')] if own(y, set())]
    if len(c) != 1:
        raise Unsupported('anchor vanished: %s is not below one function called from main in %s' % (what, mod))
    return M.functions[c[0][1]]


def calls_name(f, name):
    return any(ins.op == 'call' and ins.a[0] == ('global', name) for b in f.order for ins in f.blocks[b])


def reach_entry(P, mod, name):
    return entry_below_main(P, mod, lambda f: calls_name(f, name), name)


class _Fr:
    def __init__(self, m, f):
        self.mod, self.fn = m, f
        interp.analyse_cfg(f)


def store_tags(P, m, f):
    """(struct, field index) of every store of the function"""
    fr = _Fr(m, f)
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op == 'store':
                yield interp.Interp.ptr_tag(None, fr, ins.a[1], ins.ty), ins


def stores_field(P, struct, fld):
    k = list(P.fields[struct][1]).index(fld)

    def local(f, v):
        d = interp.defs_of(f).get(v[1]) if v[0] == 'local' else None
        return d is not None and (d.op == 'alloca' or d.op == 'gep' and local(f, d.a[0][1]))

    def pred(f):
        return any((t == (struct, ('int', k)) or t == (struct, k)) and not local(f, ins.a[1]) for t, ins in store_tags(P, f.module, f))
    return pred


def charclass_prim(I, fr, ins, st, a):
    """contract of charclass (C26): a class number determined by the character"""
    return [(st, V(atom(('charclass', st.facts.norm(a[0])), None, 0, 255)))]


def charclass_name_prim(I, fr, ins, st, a):
    v = atom(('charclass_name', st.facts.norm(a[0])), None, 1)
    interp.mkptr(v)
    return [(st, V(v))]


CONTRACT = {'charclass': charclass_prim, 'charclass_name': charclass_name_prim, 'ustrcmp': p_ustrcmp}


# -------------------------------------------------------------- effects
def root_globals(fn, op, seen=None):
    """globals an address may be derived from by address arithmetic (not through memory)"""
    seen = seen if seen is not None else set()
    if op[0] == 'global':
        return {op[1]}
    if op[0] == 'ce' and op[1] == 'gep':
        return root_globals(fn, op[3][0][1], seen)
    if op[0] == 'local':
        if op[1] in seen:
            return set()
        seen.add(op[1])
        d = interp.defs_of(fn).get(op[1])
        if d is None:
            return set()
        if d.op == 'gep':
            return root_globals(fn, d.a[0][1], seen)
        if d.op == 'phi':
            return set().union(*[root_globals(fn, x[0], seen) for x in d.a]) if d.a else set()
        if d.op == 'select':
            return set().union(*[root_globals(fn, x, seen) for x in d.a if isinstance(x, tuple)])
    return set()


def writes(P, mod):
    """per function of a module: the globals it, or what it calls, may write or hand out by address"""
    g = callgraph(P)
    direct = {}
    for f in P.modules[mod].functions.values():
        w = set()
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'store':
                    for x in ins.a:
                        w |= root_globals(f, x)
                elif ins.op == 'call':
                    for t, v in ins.a[1]:
                        if isinstance(v, tuple):
                            w |= root_globals(f, v)
        direct[(mod, f.name)] = w

    def clo(x):
        seen, todo, r = set(), [x], set()
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            r |= direct.get(y, set())
            todo += list(g.get(y, ()))
        return r
    return {k: clo(k) for k in direct}


def opaque(P, mod, protected):
    """primitives that record a call of the tool's own functions that leave the protected globals alone"""
    return {k: event_prim(k[1], None) for k, w in writes(P, mod).items() if not (w & set(protected))}


# ------------------------------------------------------------ documents, tables
def mem_since(t):
    """memory entries written in one iteration, newest first"""
    out = []
    m = t.st.mem
    while m is not None and m is not t.head.mem:
        out.append(m[1])
        m = m[0]
    return out


def last_stores(t):
    """memory entries written in one iteration, newest first, without those that a later one replaces"""
    out = []
    f = t.facts
    for e in mem_since(t):
        if e[0] == 'st' and any(x[0] == 'st' and x[1] is e[1] and x[3] == e[3] and lin_eq(f, x[2], e[2]) for x in out):
            continue
        out.append(e)
    return out


def document(events, stream='stdout'):
    """what is written: [('toks', tokens) | ('rows', Summary)] in order; loops that write nothing are left out"""
    out = []
    for e in events:
        if e[0] == 'out':
            if repr(e[1]) != stream:
                continue
            if out and out[-1][0] == 'toks':
                out[-1] = ('toks', libc.norm_tokens(out[-1][1] + tuple(e[2])))
            else:
                out.append(('toks', libc.norm_tokens(tuple(e[2]))))
        elif e[0] == 'loop':
            if any(document(t.events, stream) for t in e[1].trans()):
                out.append(('rows', e[1]))
    return out


def spell_prim(I, fr, ins, st, a):
    """contract of char_to_string (C04): the representation of a character, determined by its arguments"""
    f = st.facts
    return [(libc.buf_put(I, fr, ins, st, a[2], [('spell', f.norm(a[0]), f.norm(a[1]), f.norm(a[3]))]), None)]


def lookup_prim(I, fr, ins, st, a):
    """contract of table_lookup (C21): the entry of that key, or NULL"""
    f = st.facts
    k = tuple(libc.norm_tokens(libc.string_tokens(I, st, a[1])))
    x = atom(('found', f.norm(a[0]), k) + ((st.extra['iter'],) if st.extra.get('iter') else ()), 'found', 1)
    interp.mkptr(x)
    return [(st.event('lookup', f.norm(a[0]), k, ZERO, I.line(fr, ins)), ZERO),
            (st.event('lookup', f.norm(a[0]), k, V(x), I.line(fr, ins)), V(x))]


def insert_prim(I, fr, ins, st, a):
    return [(st.event('insert', st.facts.norm(a[0]), st.facts.norm(a[1]), I.line(fr, ins)), None)]


def initialize_prim(I, fr, ins, st, a):
    """contract of initialize (C25): argc is the number of arguments that are not options"""
    b, o = interp.base_of(st.facts.norm(a[0]))
    n = atom(('argc',), 'argc', 0, 2 ** 31 - 1)
    st = st.event('initialize', tuple(st.facts.norm(x) for x in a), I.line(fr, ins))
    return [(st.put(('st', b, o, 4, V(n), None)), None)]


def same_word(f, a, b):
    return libc.norm_tokens(norm_deep(f, tuple(a))) == libc.norm_tokens(norm_deep(f, tuple(b)))


def walk_var(S, off):
    """the loop variable going from item to item through the field at off"""
    w = [v for v in S.vars if v.sym is not None and not v.tmpl and S.trans() and
         all(lin_eq(t.facts, t.nxt[v], V(atom(('ld', add(V(v.sym), C(off)), 8)))) for t in S.trans())]
    return w[0] if len(w) == 1 else None


def load_at(I, st, base, P, struct, *path):
    """value of base->path now; a path element (struct, field) steps into a nested struct"""
    off, size = 0, 8
    s, tag = struct, None
    for k in path:
        if isinstance(k, tuple):
            s, k = k
        off += P.off(s, k)
        size = P.fields[s][1][k][1]
        tag = (s, list(P.fields[s][1]).index(k))
    ty = {8: ir.Ty('int', 64), 4: ir.Ty('int', 32), 2: ir.Ty('int', 16), 1: ir.Ty('int', 8)}[size]
    r = I.load(st, add(base, C(off)), size, ty, tag)
    return r[0][1] if len(r) == 1 else None


def steps(S, f, l, pre=True):
    """(initial value, constant step) of a linear expression over the variables of the loop, or None"""
    ini, d = l, ZERO
    for v, init, step in counters(S):
        k = l.coef(v.sym) if hasattr(l, 'coef') else dict(l.t).get(v.sym, 0)
        if k:
            ini = add(ini, scale(sub(init, V(v.sym)), k))
            d = add(d, C(k * step))
    if any(v.sym is not None and v.sym in dict(ini.t) for v in S.vars):
        return None
    return ini, d.c


def times(S, n):
    """does the loop run exactly n times?"""
    for v, init, step in counters(S):
        d = scale(sub(V(v.sym), init), 1 if step > 0 else -1)     # a multiple of |step|
        k = abs(step)
        if all(t.facts.decide(add(sub(d, scale(n, k)), ONE), '<=') is True for t in S.trans()) and \
                all(dead(o) or fatal(S, o) or o.st.facts.decide(add(sub(scale(n, k), d), C(1 - k)), '<=') is True for o in S.exits()):
            return True
    return False


def flat(ev):
    """events in order, those of one iteration in place of a loop"""
    for e in ev:
        if e[0] == 'loop':
            for x in e[1].trans():
                yield from flat(x.events)
        else:
            yield e


def each_of(S, most=4):
    """the iterations of a loop over a fixed small number of things, with the loop variables at their values: [[transitions' events]]"""
    for n in range(1, most + 1):
        if not times(S, C(n)):
            continue
        out = []
        for k in range(n):
            m = {v.sym: add(init, C(step * k)) for v, init, step in counters(S)}
            row = []
            for t in S.trans():
                g = t.facts
                for a, x in m.items():
                    g = g.assume(sub(V(a), x), '==') if g is not None else None
                if g is not None and libc.consistent(g):
                    row.append(deep_subst(tuple(t.events), m))
            if len(set(map(repr, row))) != 1:
                return None
            out.append(row[0])
        return out
    return None


def unfold(ev, pick):
    """events with the loops over a fixed small number of things that contain picked ones replaced by their iterations"""
    out = []
    for e in ev:
        if e[0] == 'loop' and any(pick(x) for x in flat([e])):
            rows = each_of(e[1])
            if rows is not None:
                for r in rows:
                    out += unfold(r, pick)
                continue
        out.append(e)
    return out


def possible(I, o, argv, argc, most=4):
    """not an outcome in which an argument that is there is no string, or one that is not there is"""
    f = o.st.facts
    for k in range(most):
        x = I.load(o.st, add(argv, C(8 * k)), 8, ir.PTR)[0][1]
        if f.decide(x, '==') is True and f.decide(sub(C(k + 1), argc), '<=') is True:
            return False
        if f.decide(sub(argc, C(k)), '==') is True and f.decide(x, '!=') is True:
            return False
    return True


def visits(ev, f, argv, addr, n):
    """how many elements of the array argv are visited, one after the other from the first on: candidate expressions of 8 times the
    number, each with: is it at most 8*n?; addr(event) is the element an event visits, or None"""
    cands = [(ZERO, True)]

    def at(g, x, pos):
        a = x.one()
        return a is not None and a.key[0] == 'ld' and lin_eq(g, a.key[1], add(argv, pos))
    for e in ev:
        if e[0] == 'loop':
            S = e[1]
            if not any(addr(x) is not None for x in flat([e])):
                continue
            new = []
            for pos, le in cands:
                ok = True
                for t in S.trans():
                    got = [addr(x) for x in flat(t.events) if addr(x) is not None]
                    a = got[0].one() if len(got) == 1 else None
                    r = steps(S, t.facts, a.key[1]) if a is not None and a.key[0] == 'ld' else None
                    ok = ok and r is not None and r[1] == 8 and lin_eq(S.pre.facts, r[0], add(argv, pos))
                if ok:
                    for v, init, step in counters(S):
                        if 8 % step == 0:
                            p = add(pos, scale(sub(V(v.sym), init), 8 // step))
                            new.append((p, le and all(t.facts.decide(add(sub(p, scale(n, 8)), ONE), '<=') is True for t in S.trans())))
            cands = new
        elif addr(e) is not None:
            cands = [(add(p, C(8)), le and f.decide(add(sub(p, scale(n, 8)), ONE), '<=') is True) for p, le in cands if at(f, addr(e), p)]
    return cands


def visits_all(ev, f, argv, n, addr):
    """exactly the first n elements of argv are visited, in order"""
    return any(f.decide(sub(x, scale(n, 8)), '==') is True or le and f.decide(add(sub(scale(n, 8), x), C(-7)), '<=') is True
               for x, le in visits(ev, f, argv, addr, n))


def labels(S, start, step):
    """the labels each part of a loop is reached with: {id(part): set}; step(iteration, label) is the set of labels after it"""
    part = lambda x: S.parts[x] if isinstance(x, tuple) else x
    first = part(S.start)
    lab = {id(first): {start}}
    work = [first]
    while work:
        p = work.pop()
        for me in list(lab[id(p)]):
            for t in p.trans:
                if not libc.consistent(t.facts):
                    continue
                new = step(t, me)
                old = lab.setdefault(id(part(t.target)), set())
                if not new <= old:
                    old |= new
                    work.append(part(t.target))
    return lab


# ------------------------------------------------------------ static data
def agg(init):
    """element values of an aggregate initialiser; None for zero"""
    if init is None or init[0] in ('zero', 'zeroinitializer', 'null'):
        return None
    if init[0] != 'agg':
        raise Unsupported('initialiser %r' % (init[0],))
    return [x[1] for x in init[1]]


def addr_of(v):
    """name of the global a constant address refers to (offset 0)"""
    if v[0] == 'ce' and v[1] == 'gep':
        if any(x[1] != ('int', 0) for x in v[3][1:]):
            return None
        v = v[3][0][1]
    return v[1] if v[0] == 'global' else None


def options(P, mod):
    """the option table of a tool: letter -> (integer/boolean target, string target)"""
    for g, d in P.modules[mod].globals.items():
        if d['external'] or d['ty'] is None or d['ty'].k != 'arr' or 'Option' not in repr(d['ty']):
            continue
        fs = list(P.fields['Option'][1])
        out = {}
        for row in agg(d['init']) or []:
            r = agg(row) if row[0] == 'agg' else None
            if r is None or r[0] == ('int', 0):
                break
            out[chr(r[0][1])] = dict(zip(fs, [None if x[0] in ('null', 'zero') else addr_of(x) if x[0] != 'int' else x[1] for x in r]))
        return g, out
    raise Unsupported('anchor vanished: the option table of %s' % mod)


def option_target(P, mod, letter):
    """the variable an option letter sets"""
    o = options(P, mod)[1].get(letter)
    if o is None:
        return None
    c = [v for k, v in o.items() if isinstance(v, str)]
    return c[0] if len(c) == 1 else None


def written_globals(P, mod):
    """globals of a module that any of its functions may store to or hand out by address"""
    w = writes(P, mod)
    return set().union(*w.values()) if w else set()


def displays(P, mod):
    """primitives for the tool's own functions that only print: they store nothing but locals and call nothing but output functions"""
    out = {}
    for f in P.modules[mod].functions.values():
        if f.ret.k != 'void' or f.name == 'main':
            continue
        ok, prints = True, False
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'store':
                    ok = False
                elif ins.op == 'call':
                    n = ins.a[0][1] if ins.a[0][0] == 'global' else None
                    if n in ('printf', 'puts', 'putchar', 'fflush'):
                        prints = True
                    else:
                        ok = False
        if ok and prints:
            out[(mod, f.name)] = event_prim('display', None)
    return out


def walk_from(I, S, P, rec, fld='next'):
    """the loop variable going from item to item through the field as it is at the head of the loop"""
    w = []
    for v in S.vars:
        if v.sym is None or v.tmpl or not S.trans():
            continue
        if all(lin_eq(t.facts, t.nxt[v], load_at(I, t.head, V(v.sym), P, rec, fld)) for t in S.trans()):
            w.append(v)
    return w[0] if len(w) == 1 else None


def poly(f, l):
    """polynomial {sorted atoms: coefficient} of a linear expression with products"""
    out = {}

    def put(k, c):
        out[k] = out.get(k, 0) + c
        if not out[k]:
            del out[k]
    l = f.norm(l)
    put((), l.c)
    for a, k in l.t:
        if isinstance(a.key, tuple) and a.key[0] == 'mul':
            x, y = poly(f, a.key[1]), poly(f, a.key[2])
            for m, c in x.items():
                for n, d in y.items():
                    put(tuple(sorted(m + n, key=lambda z: z.id)), k * c * d)
        else:
            put((a,), k)
    return out


def product(x, y):
    if x.const:
        return scale(y, x.c)
    if y.const:
        return scale(x, y.c)
    return interp.app('mul', x, y)


def poly_eq(f, x, y):
    return poly(f, x) == poly(f, y)
