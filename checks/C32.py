"""C32: running out of memory is reported."""
from .common import *

RULE = ('Every call of a library function that obtains memory is assumed to fail: the value it then returns is propagated along the control flow '
        '(decided branches, stores and loads, callees it is handed to, callers it is returned to). On every path left the program ends in error, and '
        'nothing is read from or written to the missing object before, nor is it handed to the library. Sizes given to these functions are not products that '
        'can wrap round, and no stack array has a size only known at run time, whose exhaustion could not be noticed. allocate returns the cleared block of '
        'exactly number times size bytes, and copy_string a block for the whole string with its terminator.')
ASSUME = ['error and error_string write a message and end with a failure status (C22)',
          'calloc itself fails when number times size overflows', 'getline sets the error indicator of its stream when memory is short, which close_file reports (C23)',
          'stdio allocates its buffers on opening or works without them; printf of numbers and strings allocates nothing']
TECH = 'interprocedural constant propagation of the failure value over LLVM IR'

# function -> the value that tells of failure; None: reported otherwise
RAW = {n: 0 for n in ('malloc', 'calloc', 'realloc', 'reallocarray', 'aligned_alloc', 'memalign', 'valloc', 'strdup', 'strndup', '__strdup', 'fopen', 'fopen64',
                      'fmemopen', 'open_memstream', 'utf8proc_NFC', 'utf8proc_NFD', 'utf8proc_NFKC', 'utf8proc_NFKD', 'utf8proc_NFKC_Casefold',
                      'realpath', 'getcwd', 'tempnam', 'tmpfile', 'opendir', 'wcsdup')}
RAW.update({'asprintf': -1, 'vasprintf': -1, '__asprintf_chk': -1, 'posix_memalign': 12, 'utf8proc_map': -1, 'utf8proc_map_custom': -1})
RAW.update({'getline': None, 'getdelim': None, '__getdelim': None})
SIZED = {'malloc': [0], 'calloc': [0, 1], 'realloc': [1], 'reallocarray': [1, 2], 'aligned_alloc': [1], 'memalign': [1], 'valloc': [0], 'posix_memalign': [2]}
FATAL = ('error', 'error_string', '__assert_fail', 'abort')
HARMLESS = ('free', 'cfree')


def run(ctx):
    P = ctx.program()
    n = 0
    for m, f, ins in calls(P):
        where = (m.name, f.name, ir.line_of(m, ins.dbg))
        nm = ins.a[0][1] if ins.a[0][0] == 'global' else None
        t = P.resolve(m, nm) if nm else None
        if t is not None and (t.module.name, t.name) == ('util', 'allocate'):
            d = defs(f)
            for x in ins.a[1]:
                w = wrapping(d, x[1])
                ctx.require(not w, 'size', 'the size asked of allocate is the one computed (%s)' % w, where)
        if nm is None or t is not None:
            continue
        for v in [x[1] for x in ins.a[1]]:
            ctx.require(not (v[0] == 'global' and v[1] in RAW), 'indirect', 'no function that obtains memory is called through a pointer', where)
        if nm not in RAW:
            continue
        n += 1
        ctx.analysed.add((m.name, f.name))
        d = defs(f)
        for k in SIZED.get(nm, ()):
            w = wrapping(d, ins.a[1][k][1])
            ctx.require(not w, 'size', 'the size asked of %s cannot wrap round (%s)' % (nm, w), where)
        if RAW[nm] is None:
            continue
        W = Walk(ctx, P, nm)
        W.site(m, f, ins, RAW[nm] & ((1 << 32) - 1) if nm == 'posix_memalign' else RAW[nm])
        for why, at in sorted(W.bad):
            ctx.fail('failure', 'when %s fails (called in %s): %s' % (nm, f.name, why), at)
        ctx.paths += W.ends
        ctx.require(W.ends > 0 or W.bad, 'failure', 'when %s fails (called in %s) the program ends in error' % (nm, f.name), where)
    ctx.require(n >= 3, 'failure', 'memory is obtained', 'allocate')
    for m in P.modules.values():
        for g in m.globals.values():
            ini = repr(g.get('init'))
            ctx.require(not any("('global', '%s')" % r in ini for r in RAW), 'indirect', 'no function that obtains memory is called through a table', (m.name, 'globals'))
        for f in m.functions.values():
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == 'alloca':
                        ctx.require(ins.a[0][0] == 'int' if isinstance(ins.a[0], tuple) else True, 'stack', 'no array on the stack has a size only known at run time',
                                    (m.name, f.name, ir.line_of(m, ins.dbg)))
                    if ins.op == 'store' and ins.a[0][0] == 'global' and ins.a[0][1] in RAW:
                        ctx.fail('indirect', 'a function that obtains memory is called through a pointer', (m.name, f.name))
                    if ins.op == 'call' and ins.a[0][0] == 'global' and ins.a[0][1] in ('alloca', '__builtin_alloca'):
                        ctx.fail('stack', 'stack memory of a size only known at run time', (m.name, f.name))
    blocks(ctx)


def calls(P):
    for m in P.modules.values():
        for f in m.functions.values():
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == 'call':
                        yield m, f, ins


def defs(f):
    return {ins.res: ins for b in f.order for ins in f.blocks[b] if ins.res is not None}


def wrapping(d, v, seen=()):
    """a multiplication of two values only known at run time, or a narrowing, that makes up the size"""
    if v[0] != 'local' or v[1] not in d or v[1] in seen:
        return None
    ins = d[v[1]]
    seen = seen + (v[1],)
    if ins.op == 'mul' or ins.op == 'shl':
        if ins.op == 'shl' or all(x[0] == 'local' for x in ins.a):
            return 'product'
        # a constant factor on a value of 64 bits
        x = next(x for x in ins.a if x[0] == 'local')
        y = d.get(x[1])
        if y is not None and y.op in ('sext', 'zext'):
            return None
        return 'product'
    if ins.op == 'trunc':
        # a parameter of a K&R function arrives widened
        return wrapping(d, ins.a[1], seen) if ins.a[1][0] == 'local' and ins.a[1][1] not in d else 'narrowed'
    if ins.op in ('add', 'sub', 'sext', 'zext', 'select', 'phi', 'freeze'):
        ops = [x for x in flatten(ins.a)]
        for x in ops:
            w = wrapping(d, x, seen)
            if w:
                return w
    return None


def flatten(x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'local':
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from flatten(y)


class Missing(int):
    """the failure value, as opposed to a constant that happens to be the same"""


class Walk:
    """what happens after one call returned its failure value"""
    def __init__(self, ctx, P, nm):
        self.ctx = ctx
        self.P = P
        self.nm = nm
        self.bad = set()
        self.ends = 0
        self.up = set()
        self.down = set()
        self.memo = {}

    def site(self, m, f, ins, v):
        """go on behind the call ins of f, which returned v"""
        k = (m.name, f.name, ins.blk, ins.idx, v)
        if k in self.up:
            return
        self.up.add(k)
        if len(self.up) > 2000:
            raise Unsupported('the failure of %s is handed up too far' % self.nm)
        env = {}
        if ins.res is not None:
            env[ins.res] = Missing(v) if not isinstance(v, Missing) else v
        for r in self.follow(m, f, ins.blk, ins.idx + 1, None, env, {}):
            self.returned(m, f, r)

    def returned(self, m, f, r):
        where = (m.name, f.name)
        if r is None:
            self.bad.add(('%s goes on' % f.name, where))
            return
        if f.name == 'main':
            self.bad.add(('main returns', where))
            return
        n = 0
        for m2, f2, i2 in calls(self.P):
            if i2.a[0][0] == 'global':
                t = self.P.resolve(m2, i2.a[0][1])
                if t is f:
                    n += 1
                    if i2.res is None:
                        self.bad.add(('%s goes on' % f2.name, (m2.name, f2.name, ir.line_of(m2, i2.dbg))))
                    else:
                        self.site(m2, f2, i2, r)
        if not n:
            self.bad.add(('%s goes on' % f.name, where))

    def follow(self, m, f, blk, idx, prev, env, mem, depth=0):
        """-> the values returned, None for one not known"""
        out = set()
        todo = [(blk, idx, prev, env, mem)]
        seen = set()
        while todo:
            b, i, p, env, mem = todo.pop()
            k = (b, i, p, tuple(sorted(env.items())), tuple(sorted(mem.items(), key=repr)))
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 5000:
                raise Unsupported('the failure of %s is not followed in %s' % (self.nm, f.name))
            env, mem = dict(env), dict(mem)
            new = {}
            blkins = f.blocks[b]
            gone = False
            for ins in blkins[i:]:
                if ins.op == 'phi':
                    new[ins.res] = next((self.val(env, v) for v, lb in ins.a if lb == p), None)
                    continue
                if new:
                    for r, v in new.items():
                        env.pop(r, None)
                        if v is not None:
                            env[r] = v
                    new = {}
                nxt = self.step(m, f, ins, env, mem, out, depth)
                if nxt is None:
                    continue
                for s in nxt:
                    todo.append((s, 0, b, env, mem))
                gone = True
                break
            if not gone:
                raise Unsupported('block of %s without an end' % f.name)
        return out

    def val(self, env, v):
        if v[0] == 'int':
            return v[1]
        if v[0] in ('null',) or v == ('null',):
            return 0
        if v[0] == 'local':
            return env.get(v[1])
        return None

    def root(self, f, v, env):
        """the address is an offset from a value known to be the failure value"""
        d = self.memo.setdefault(id(f), defs(f))
        while True:
            if isinstance(self.val(env, v), Missing):
                return True
            if v[0] == 'local' and v[1] in d and d[v[1]].op in ('gep', 'bitcast'):
                x = d[v[1]]
                v = x.a[0][1] if x.op == 'gep' else x.a[1]
                continue
            return False

    def addr(self, f, v):
        d = self.memo.setdefault(id(f), defs(f))
        if v[0] == 'local' and v[1] in d and d[v[1]].op == 'gep':
            x = d[v[1]]
            return ('gep', repr(x.ty), self.addr(f, x.a[0][1]), tuple(repr(y[1]) for y in x.a[1:]))
        if v[0] == 'local' and v[1] in d and d[v[1]].op == 'load':
            return ('load', self.addr(f, d[v[1]].a[0]))
        return ('v', repr(v))

    def step(self, m, f, ins, env, mem, out, depth):
        line = (m.name, f.name, ir.line_of(m, ins.dbg))
        op = ins.op
        if ins.res is not None:
            env.pop(ins.res, None)
        if op == 'br':
            return [ins.a[0]]
        if op == 'condbr':
            c = self.val(env, ins.a[0])
            return [ins.a[1], ins.a[2]] if c is None else [ins.a[1] if c & 1 else ins.a[2]]
        if op == 'switch':
            c = self.val(env, ins.a[0])
            if c is None:
                return [ins.a[1]] + [x[1] for x in ins.a[2]]
            return [next((l for v, l in ins.a[2] if v == c), ins.a[1])]
        if op == 'ret':
            v = self.val(env, ins.a[0]) if ins.a and ins.a[0] is not None else None
            out.add(v)
            return []
        if op == 'unreachable':
            return []
        if op == 'icmp':
            x, y = self.val(env, ins.a[1]), self.val(env, ins.a[2])
            if x is not None and y is not None:
                w = 64
                r = compare(ins.a[0], x, y)
                if r is not None:
                    env[ins.res] = r
            return None
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            x = self.val(env, ins.a[1])
            if x is not None:
                env[ins.res] = x if op != 'sext' or x >= 0 else x
            return None
        if op == 'freeze':
            x = self.val(env, ins.a[0])
            if x is not None:
                env[ins.res] = x
            return None
        if op == 'select':
            c = self.val(env, ins.a[0])
            x = self.val(env, ins.a[1]) if c is not None and c & 1 else self.val(env, ins.a[2]) if c is not None else None
            if x is not None:
                env[ins.res] = x
            return None
        if op in ('xor', 'and', 'or'):
            x, y = self.val(env, ins.a[0]), self.val(env, ins.a[1])
            if x is not None and y is not None:
                env[ins.res] = x ^ y if op == 'xor' else x & y if op == 'and' else x | y
            return None
        if op == 'load':
            if self.root(f, ins.a[0], env):
                self.bad.add(('the missing object is read', line))
                return []
            x = mem.get(self.addr(f, ins.a[0]))
            if x is not None:
                env[ins.res] = x
            return None
        if op == 'store':
            if self.root(f, ins.a[1], env):
                self.bad.add(('the missing object is written to', line))
                return []
            a = self.addr(f, ins.a[1])
            for k in list(mem):
                if not apart(k, a):
                    del mem[k]
            x = self.val(env, ins.a[0])
            if x is not None:
                mem[a] = x
            return None
        if op == 'call':
            return self.call(m, f, ins, env, mem, line, depth)
        return None

    def call(self, m, f, ins, env, mem, line, depth):
        nm = ins.a[0][1] if ins.a[0][0] == 'global' else None
        t = self.P.resolve(m, nm) if nm else None
        args = [x[1] for x in ins.a[1]]
        if nm in FATAL:
            self.ends += 1
            return []
        if nm == 'terminate' or nm == 'exit' or nm == '_exit':
            self.bad.add(('the program ends without an error', line))
            return []
        if nm and nm.startswith('llvm.'):
            if any(self.root(f, a, env) and a[0] == 'local' for a in args) and ('mem' in nm):
                self.bad.add(('the missing object is used', line))
                return []
            return None
        miss = [k for k, a in enumerate(args) if a[0] == 'local' and self.root(f, a, env) and ptrlike(ins.a[1][k][0])]
        if t is None:
            if miss and nm not in HARMLESS:
                self.bad.add(('the missing object is handed to %s' % (nm or 'an unknown function'), line))
                return []
            if nm in RAW or nm in HARMLESS or nm in PURE:
                return None
            self.forget(f, mem)
            return None
        e2 = {p[1]: self.val(env, a) for p, a in zip(t.params, args) if isinstance(self.val(env, a), Missing)}
        if miss or t.noreturn:
            if depth > 40:
                raise Unsupported('the failure of %s is handed down too far' % self.nm)
            kk = (t.module.name, t.name, tuple(sorted(e2.items())))
            if kk in self.down:
                return []       # being looked at already
            self.down.add(kk)
            r = self.follow(t.module, t, t.entry, 0, None, e2, {}, depth + 1)
            self.down.discard(kk)
            if not r:
                return []
            if len(r) == 1 and None not in r and ins.res is not None:
                env[ins.res] = next(iter(r))
        self.forget(f, mem)
        return None

    def forget(self, f, mem):
        d = self.memo.setdefault(id(f), defs(f))
        for k in list(mem):
            mem.pop(k)


PURE = ('strlen', 'strcmp', 'strncmp', 'memcmp', 'strchr', 'strrchr', 'ferror', 'feof', 'fileno')


def ptrlike(ty):
    return 'ptr' in repr(ty)


def compare(pred, x, y):
    w = (1 << 64) - 1
    u, v = x & w, y & w
    return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
            'ult': u < v, 'ule': u <= v, 'ugt': u > v, 'uge': u >= v}.get(pred, None) and 1 or (0 if pred in
            ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge') else None)


def apart(x, y):
    """two addresses that cannot be the same: different fields of the same object type, or different globals"""
    if x == y:
        return False
    if x[0] == 'gep' and y[0] == 'gep' and x[1] == y[1] and len(x[3]) == len(y[3]) == 2 and x[3][1] != y[3][1] and 'int' in x[3][1] and 'int' in y[3][1]:
        return True
    if x[0] == 'v' and y[0] == 'v' and "'global'" in x[1] and "'global'" in y[1]:
        return True
    return False


def blocks(ctx):
    """the two functions everything else obtains memory from"""
    I = ctx.interp()
    I.prims.pop('allocate')
    n0, s0 = arg('number', 8), arg('size', 8)
    got = []

    def calloc(I, fr, ins, st, a):
        v = libc.p_calloc(I, fr, ins, st, a)[0]
        got.append((st.facts.norm(a[0]), st.facts.norm(a[1])))
        return [(v[0].event('calloc', st.facts.norm(a[0]), st.facts.norm(a[1]), v[1]), v[1])]

    def malloc(I, fr, ins, st, a):
        return [(st.event('malloc', st.facts.norm(a[0])), libc.p_malloc(I, fr, ins, st, a)[0][1])]
    I.prims['calloc'] = calloc
    k = 0
    for o in live(I.run('allocate', [n0, s0])):
        if o.kind != 'ret':
            continue
        f = o.st.facts
        ctx.paths += 1
        ev = [e for e in o.st.events() if e[0] == 'calloc']
        k += 1
        ctx.require(len(ev) == 1 and lin_eq(f, o.val, ev[0][3]) and
                    (lin_eq(f, ev[0][1], n0) and lin_eq(f, ev[0][2], s0) or lin_eq(f, ev[0][1], s0) and lin_eq(f, ev[0][2], n0)), 'block',
                    'allocate returns the cleared block of number times size bytes', 'allocate')
    ctx.require(k > 0, 'block', 'allocate returns', 'allocate')
    I = ctx.interp()
    s = arg('string', 8, ptr=True)
    k = 0
    for o in live(I.run('copy_string', [s])):
        if o.kind != 'ret':
            continue
        k += 1
        f = o.st.facts
        ctx.paths += 1
        b, off = interp.base_of(f.norm(o.val))
        ln = libc.toks_len(libc.norm_tokens(libc.string_tokens(I, o.st, s)))
        size = (b.meta or {}).get('size') if b is not None else None
        ctx.require(b is not None and b.obj == 'heap' and size is not None and lin_eq(f, size, libc.add(ln, ONE)), 'block',
                    'copy_string obtains memory for the whole string and its end', 'copy_string')
        ctx.require(b is not None and repr(libc.norm_tokens(libc.string_tokens(I, o.st, o.val))) == repr(libc.norm_tokens(libc.string_tokens(I, o.st, s))), 'block',
                    'copy_string returns a copy of the string', 'copy_string')
    ctx.require(k > 0, 'block', 'copy_string returns', 'copy_string')
