"""Loops that test at the end are given the form of loops that test at the start, where the first test is bound to succeed.

    if (c(x0)) do { B } while (c(x));      =>      while (c(x)) { B }

This keeps what a function does; it only spares the checks the second form of every loop."""
from . import ir

PURE = {'icmp', 'sext', 'zext', 'trunc', 'binop', 'gep', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}
FOLD = {'slt': lambda a, b: a < b, 'sgt': lambda a, b: a > b, 'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b,
        'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def subst(v, f):
    """operands of an instruction with every local name mapped by f"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'local':
            return f(v)
        return tuple(subst(x, f) for x in v)
    if isinstance(v, list):
        return [subst(x, f) for x in v]
    return v


def names(v):
    out = []

    def f(x):
        out.append(x[1])
        return x
    subst(v, f)
    return out


def operands(i):
    """what may hold operands of an instruction (labels are plain strings and not touched)"""
    return i.a


def run(f, analyse, succs):
    done = 0
    while done < 40 and one(f, analyse, succs):
        done += 1
        for k in ('loops', 'preds', 'defs', 'idom', 'rpo', 'live'):
            if hasattr(f, k):
                delattr(f, k)
    return done


def one(f, analyse, succs):
    try:
        analyse(f)
    except Exception:
        return False
    if not f.loops:
        return False
    defs = {i.res: (b, i) for b in f.order for i in f.blocks[b] if i.res is not None}
    for H, B in f.loops.items():
        if turn(f, H, B, defs, succs):
            return True
    return False


def turn(f, H, B, defs, succs):
    reach = set(f.preds)
    latches = [p for p in f.preds[H] if p in B]
    entries = [p for p in f.preds[H] if p not in B]
    if len(set(latches)) != 1 or len(set(entries)) != 1 or len(latches) != 1 or len(entries) != 1:
        return False
    L, P = latches[0], entries[0]
    # the block with the test
    T, chain = L, []
    while f.blocks[T][-1].op == 'br' and len(f.blocks[T]) == 1 and T != H:
        ps = [p for p in f.preds[T]]
        if len(ps) != 1:
            return False
        chain.append(T)
        T = ps[0]
    t = f.blocks[T][-1]
    if t.op != 'condbr' or T not in B:
        return False
    nxt = chain[-1] if chain else H
    if t.a[1] == nxt and t.a[2] not in B:
        X, sense = t.a[2], True
    elif t.a[2] == nxt and t.a[1] not in B:
        X, sense = t.a[1], False
    else:
        return False
    if T != H and any(s not in B for s in succs(f, H)) and not any(i.op == 'store' or i.op == 'call' and not is_dbg(i) for i in f.blocks[H]):
        return False            # tests at the start already
    phis = [i for i in f.blocks[H] if i.op == 'phi']
    init, carried = {}, {}
    for p in phis:
        inc = {lb: v for v, lb in p.a}
        if L not in inc or P not in inc:
            return False
        init[p.res] = inc[P]
        if inc[L][0] == 'local':
            carried.setdefault(inc[L][1], p.res)
    inb = {n for n, (b, i) in defs.items() if b in B}
    # the instructions the test needs, in terms of what is carried on
    clone, made = [], {}
    tail = f.blocks[T]

    def quiet(i):
        k = next(j for j, x in enumerate(tail) if x is i)
        return not any(x.op in ('store', 'call') and not is_dbg(x) for x in tail[k + 1:])

    def need(v):
        if v[0] != 'local':
            return v
        n = v[1]
        if n in carried:
            return ('local', carried[n])
        if n not in inb:
            return v
        if n in made:
            return ('local', made[n])
        b, i = defs[n]
        if i.op == 'phi' and b == H:
            # the value before the step, from the one after it
            nx = {lb: v for v, lb in i.a}[L]
            d = defs[nx[1]][1] if nx[0] == 'local' and nx[1] in defs else None
            if d is None or d.op != 'add' or d.a[0] != ('local', n) or d.a[1][0] != 'int':
                raise KeyError(n)
            made[n] = n + '.top'
            c = ir.Inst('add', made[n], d.ty, (('local', carried[nx[1]]), ('int', -d.a[1][1])))
            c.dbg = d.dbg
            clone.append(c)
            return ('local', made[n])
        if i.op == 'load':
            if b != T or not quiet(i):
                raise KeyError(n)
        elif i.op not in PURE and i.op not in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'ashr'):
            raise KeyError(n)
        a = subst(i.a, need)
        made[n] = n + '.top'
        c = ir.Inst(i.op, made[n], i.ty, a)
        c.dbg = i.dbg
        clone.append(c)
        return ('local', made[n])
    try:
        cond = need(t.a[0])
    except (KeyError, StopIteration):
        return False
    cdefs = {c.res: c for c in clone}
    if not holds(f, cond, sense, init, cdefs, defs, P, H):
        return False
    # values of the loop used behind it
    others = [(b, s) for b in B for s in succs(f, b) if s not in B and not (b == T and s == X)]
    seen, todo = set(), [X]
    while todo:
        b = todo.pop()
        if b in seen or b in B:
            continue
        seen.add(b)
        todo += succs(f, b)
    change = []
    for b in f.order:
        if b in B or b not in reach:
            continue
        for i in f.blocks[b]:
            if i.op == 'phi':
                for v, lb in i.a:
                    if v[0] == 'local' and v[1] in inb:
                        if lb == T and b == X:
                            if v[1] not in carried:
                                return False
                        elif lb not in B and lb in seen:
                            if others or v[1] not in carried:
                                return False
                change.append((b, i))
                continue
            if b in seen:
                for n in names(operands(i)):
                    if n in inb:
                        if others or n not in carried:
                            return False
                change.append((b, i))
    # a value of the loop as it was at its start is not there at the new end
    top = H + '.top'

    def out(v):
        return ('local', carried[v[1]]) if v[1] in inb and v[1] in carried else v
    for b, i in change:
        if i.op == 'phi':
            i.a = tuple((out(v) if v[0] == 'local' and (lb == T and b == X or lb in seen) else v, top if lb == T and b == X else lb) for v, lb in i.a)
        else:
            i.a = subst(i.a, out)
    for p in phis:
        p.a = tuple((v, T if lb == L else lb) for v, lb in p.a)
    br = ir.Inst('condbr', None, None, (cond, H, X) if sense else (cond, X, H))
    br.dbg = t.dbg
    f.blocks[H] = [i for i in f.blocks[H] if i.op != 'phi']
    f.blocks[top] = phis + clone + [br]
    if T == H:
        tail = f.blocks[H]
    back = ir.Inst('br', None, None, (top,))
    back.dbg = t.dbg
    f.blocks[T] = [i for i in f.blocks[T] if i is not t] + [back]
    f.order.insert(f.order.index(H), top)
    e = f.blocks[P][-1]
    ren = lambda x: top if x == H else x
    if e.op == 'br':
        e.a = (top,)
    elif e.op == 'condbr':
        e.a = (e.a[0], ren(e.a[1]), ren(e.a[2]))
    elif e.op == 'switch':
        e.a = (e.a[0], ren(e.a[1]), [(c, ren(l)) for c, l in e.a[2]])
    for b in chain:
        del f.blocks[b]
        f.order.remove(b)
    for b in f.order:
        for k, i in enumerate(f.blocks[b]):
            i.blk, i.idx = b, k
    return True


def is_dbg(i):
    return i.op == 'call' and i.a[0][0] == 'global' and i.a[0][1].startswith('llvm.dbg')


def holds(f, cond, sense, init, cdefs, defs, P, H):
    """does the test succeed when the loop is entered?"""
    def at(v):
        """the value at the entry, as a tree"""
        if v[0] == 'local':
            n = v[1]
            if n in init:
                return tree(init[n])
            if n in cdefs:
                return node(cdefs[n], at)
            return tree(v)
        return v

    def tree(v):
        if v[0] == 'local' and v[1] in defs:
            i = defs[v[1]][1]
            if i.op in PURE or i.op in ('add', 'sub', 'and', 'xor'):
                return node(i, tree)
        return v

    def node(i, rec):
        a = subst(i.a, lambda v: ('tree', rec(v)))
        a = fold(i, a)
        return a

    def strip(v):
        return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'tree' else v

    def fold(i, a):
        a = tuple(strip(x) for x in a) if isinstance(a, tuple) else a
        if i.op == 'icmp':
            p, x, y = a
            if x[0] == 'int' and y[0] == 'int':
                if p in FOLD:
                    return ('int', int(FOLD[p](x[1], y[1])))
                if x[1] >= 0 and y[1] >= 0 and p.replace('u', 's') in FOLD:
                    return ('int', int(FOLD[p.replace('u', 's')](x[1], y[1])))
            return ('icmp', p, x, y)
        if i.op == 'add' and a[0][0] == 'int' and a[1][0] == 'int':
            return ('int', a[0][1] + a[1][1])
        if i.op in ('sext', 'trunc', 'zext') and a[1][0] == 'int' and 0 <= a[1][1] < 128:
            return a[1]
        return (i.op, repr(i.ty)) + a

    c = at(cond)
    if c[0] == 'int':
        return bool(c[1]) == sense
    if c[0] != 'icmp':
        return False
    want = canon(c, sense)
    # a test passed on the way
    b, s = P, H
    for _ in range(50):
        t = f.blocks[b][-1]
        if t.op == 'condbr' and t.a[1] != t.a[2]:
            g = tree(t.a[0])
            if g[0] == 'icmp' and implies(canon(g, t.a[1] == s), want):
                return True
        ps = f.preds[b]
        if len(ps) != 1:
            return False
        b, s = ps[0], b
    return False


def canon(c, sense):
    p, x, y = c[1:]
    if not sense:
        p = NEG[p]
    if p in ('sgt', 'sge', 'ugt', 'uge'):
        p, x, y = SWAP[p], y, x
    if p == 'sle' and y[0] == 'int':
        p, y = 'slt', ('int', y[1] + 1)
    if p == 'sle' and x[0] == 'int':
        p, x = 'slt', ('int', x[1] - 1)
    return p, x, y


def implies(g, w):
    if g == w or g[0] in ('eq', 'ne') and g[0] == w[0] and (g[2], g[1]) == (w[1], w[2]):
        return True
    # constants may be weaker
    if g[0] == w[0] == 'slt':
        if g[1] == w[1] and g[2][0] == w[2][0] == 'int':
            return g[2][1] <= w[2][1]
        if g[2] == w[2] and g[1][0] == w[1][0] == 'int':
            return g[1][1] >= w[1][1]
    return False
