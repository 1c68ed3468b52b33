"""Parser for textual LLVM IR (the subset clang-18 -O0 + sroa produces for C)."""
import re

TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<qname>[@%]"(?:[^"])*")
 | (?P<name>[@%][-\w.$]+)
 | (?P<meta>!(?:[\w.]+|"(?:[^"])*")|!)
 | (?P<str>"(?:[^"])*")
 | (?P<num>-?(?:0x[0-9A-Fa-fKLMHR]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
 | (?P<word>[A-Za-z_][\w.$-]*:?)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError("cannot tokenize: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'named':
            return '%%%s' % self.a
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        return self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


PTR = Ty('ptr')
VOID = Ty('void')
DOUBLE = Ty('double')
FLOAT = Ty('float')
I = {}


def ity(n):
    if n not in I:
        I[n] = Ty('int', n)
    return I[n]


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r got %r in %r" % (v, self.peek(), ' '.join(x[1] for x in self.t[:40])))

    def done(self):
        return self.i >= len(self.t)


def parse_type(p):
    t = p.next()
    if re.fullmatch(r'i\d+', t):
        ty = ity(int(t[1:]))
    elif t == 'ptr':
        ty = PTR
    elif t == 'void':
        ty = VOID
    elif t == 'double':
        ty = DOUBLE
    elif t == 'float':
        ty = FLOAT
    elif t in ('metadata', 'label', 'opaque'):
        ty = Ty(t)
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = Ty('arr', n, e)
    elif t == '{':
        l = []
        if not p.accept('}'):
            while True:
                l.append(parse_type(p))
                if p.accept('}'):
                    break
                p.expect(',')
        ty = Ty('struct', tuple(l))
    elif t == '<':
        if p.peek() == '{':
            p.next()
            l = []
            while True:
                l.append(parse_type(p))
                if p.accept('}'):
                    break
                p.expect(',')
            p.expect('>')
            ty = Ty('packed', tuple(l))
        else:
            raise IRError('vector type')
    elif t[0] == '%':
        ty = Ty('named', unq(t))
    else:
        raise IRError('type? %r' % t)
    # function type:  ty (args)
    if p.peek() == '(' and ty.k != 'metadata':
        depth = 0
        p.next()
        depth = 1
        while depth:
            x = p.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
        ty = Ty('fn', ty)
    return ty


def unq(s):
    s = s[1:]
    if s and s[0] == '"':
        s = s[1:-1]
    return s


# ------------------------------------------------------------- operands
# operand: ('int', n) ('float', x) ('local', name) ('global', name) ('null',) ('undef',) ('zero',)
#          ('ce', op, ...) constant expr ; ('agg', [(ty,val)...]) ; ('bytes', b)
PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg',
               'inreg', 'returned', 'readnone', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'inbounds', 'nuw', 'nsw',
               'exact', 'fast', 'allocsize', 'noreturn', 'nounwind', 'allocalign', 'allocptr', 'nofree', 'willreturn'}


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next()
        elif t in ('align',):
            p.next()
            p.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval'):
            p.next()
            p.expect('(')
            d = 1
            while d:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
        else:
            return


def parse_value(p, ty):
    k = p.kind()
    t = p.next()
    if k in ('name', 'qname'):
        return ('local', unq(t)) if t[0] == '%' else ('global', unq(t))
    if k == 'num':
        if ty.k in ('double', 'float'):
            if t.startswith('0x'):
                import struct
                return ('float', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            return ('float', float(t))
        return ('int', int(t))
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if k == 'cstr':
        s = t[2:-1]
        b = bytearray()
        i = 0
        s8 = s.encode('latin1')
        while i < len(s8):
            if s8[i] == 0x5c and s8[i + 1] == 0x5c:
                b.append(0x5c)
                i += 2
            elif s8[i] == 0x5c:
                b.append(int(s8[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(s8[i])
                i += 1
        return ('bytes', bytes(b))
    if t == '[' or t == '{' or (t == '<' and p.peek() == '{'):
        close = {'[': ']', '{': '}', '<': '>'}[t]
        packed = False
        if t == '<':
            p.next()
            close = '}'
            packed = True
        l = []
        if not p.accept(close):
            while True:
                et = parse_type(p)
                l.append((et, parse_value(p, et)))
                if p.accept(close):
                    break
                p.expect(',')
        if packed:
            p.expect('>')
        return ('agg', l)
    if t == 'getelementptr':
        skip_attrs(p)
        p.expect('(')
        skip_attrs(p)
        et = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            skip_attrs(p)
            ot = parse_type(p)
            skip_attrs(p)
            ops.append((ot, parse_value(p, ot)))
            if p.accept(')'):
                break
            p.expect(',')
        return ('ce', 'gep', et, ops)
    if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.expect('(')
        ft = parse_type(p)
        v = parse_value(p, ft)
        p.expect('to')
        tt = parse_type(p)
        p.expect(')')
        return ('ce', t, ft, v, tt)
    if k == 'meta':
        # metadata operand
        while p.peek() not in (',', ')', None):
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                p.next()
        return ('meta',)
    raise IRError('value? %r (%s)' % (t, k))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'blk', 'idx')

    def __init__(self, op, res, ty, a):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = None

    def __repr__(self):
        return '<%s %s %r %r>' % (self.res, self.op, self.ty, self.a)


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.order = []
        self.internal = False
        self.line = 0
        self.module = None
        self.noreturn = False

    @property
    def entry(self):
        return self.order[0]

    def __repr__(self):
        return '<fn %s>' % self.name


class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}   # name -> dict(ty, init, const, internal, external)
        self.functions = {}
        self.declares = {}
        self.meta = {}
        self.noreturn_attrs = set()


DBG = re.compile(r',?\s*!dbg !(\d+)')


def parse_module(text, name):
    m = Module(name)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    for ln in lines:
        mm = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
        if mm and re.search(r'\bnoreturn\b', mm.group(2)):
            m.noreturn_attrs.add(mm.group(1))
    while i < n:
        ln = lines[i]
        if ln.startswith('%'):
            mm = re.match(r'%(\S+) = type (.*)', ln)
            if mm:
                nm = mm.group(1).strip('"')
                body = mm.group(2)
                m.structs[nm] = None if body.strip() == 'opaque' else parse_type(P(tokenize(body)))
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            parse_function(m, ln, lines[i + 1:j])
            i = j
        elif ln.startswith('declare'):
            mm = re.search(r'@("?[\w.$]+"?)\(', ln)
            nm = mm.group(1).strip('"')
            at = re.findall(r'#\d+', ln)
            m.declares[nm] = any(a in m.noreturn_attrs for a in at)
        elif ln.startswith('!'):
            mm = re.match(r'!(\d+) = (?:distinct )?(.*)', ln)
            if mm:
                m.meta[int(mm.group(1))] = mm.group(2)
        i += 1
    m._loc = {}
    return m


def parse_global(m, ln):
    ln = re.sub(r', !dbg !\d+', '', ln)
    mm = re.match(r'@("?[\w.$-]+"?) = (.*)$', ln)
    nm = mm.group(1).strip('"')
    p = P(tokenize(mm.group(2)))
    g = dict(internal=False, external=False, const=False, init=None, ty=None)
    while True:
        t = p.peek()
        if t in ('internal', 'private'):
            g['internal'] = True
            p.next()
        elif t == 'external':
            g['external'] = True
            p.next()
        elif t in ('dso_local', 'unnamed_addr', 'local_unnamed_addr', 'common'):
            p.next()
        elif t == 'constant':
            g['const'] = True
            p.next()
            break
        elif t == 'global':
            p.next()
            break
        else:
            raise IRError('global attr %r' % t)
    g['ty'] = parse_type(p)
    if not g['external'] and not p.done() and p.peek() != ',':
        g['init'] = parse_value(p, g['ty'])
    m.globals[nm] = g


def parse_function(m, head, body):
    mm = re.search(r'@("?[\w.$]+"?)\(', head)
    nm = mm.group(1).strip('"')
    f = Function(nm)
    f.module = m
    f.internal = ' internal ' in head
    d = re.search(r'!dbg !(\d+)', head)
    f.dbg = int(d.group(1)) if d else None
    f.noreturn = any(a in m.noreturn_attrs for a in re.findall(r'#\d+', head[mm.end():]))
    # return type
    rt = head[:mm.start()].split()
    p = P(tokenize(' '.join(rt[1:])))
    while p.peek() in ('internal', 'dso_local', 'signext', 'zeroext', 'noundef', 'noalias', 'hidden', 'local_unnamed_addr'):
        p.next()
    f.ret = parse_type(p)
    # params
    depth = 1
    j = mm.end()
    while depth:
        c = head[j]
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        j += 1
    ps = head[mm.end():j - 1]
    p = P(tokenize(ps))
    k = 0
    while not p.done():
        if p.accept('...'):
            break
        ty = parse_type(p)
        skip_attrs(p)
        if p.kind() in ('name', 'qname'):
            pn = unq(p.next())
        else:
            pn = str(k)
        f.params.append((ty, pn))
        k += 1
        p.accept(',')
    cur = None
    i = 0
    first = True
    while i < len(body):
        ln = body[i]
        i += 1
        s = ln.split(';')[0].rstrip() if not ('"' in ln) else ln
        if not s.strip():
            continue
        if not ln.startswith(' '):
            mm = re.match(r'("?[-\w.$]+"?):', ln)
            if mm:
                cur = mm.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
                continue
        if first:
            cur = '%entry0'
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        st = s.strip()
        if st.startswith('switch'):
            while ']' not in body[i - 1]:
                st += ' ' + body[i].split(';')[0].strip()
                i += 1
        if '@llvm.dbg.' in st or '@llvm.lifetime' in st:
            continue
        ins = parse_inst(m, st)
        ins.blk = cur
        ins.idx = len(f.blocks[cur])
        f.blocks[cur].append(ins)
    m.functions[nm] = f


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'}


def parse_inst(m, st):
    dbg = None
    mm = DBG.search(st)
    if mm:
        dbg = int(mm.group(1))
        st = st[:mm.start()] + st[mm.end():]
    st = re.sub(r', !\w[\w.]* !\d+', '', st)
    toks = tokenize(st)
    p = P(toks)
    res = None
    if p.kind() in ('name', 'qname') and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    while p.peek() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()
    ins = None

    def val(ty):
        skip_attrs(p)
        return parse_value(p, ty)

    def tv():
        ty = parse_type(p)
        skip_attrs(p)
        return ty, parse_value(p, ty)
    if op in BIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'contract', 'nnan', 'ninf', 'nsz', 'arcp', 'afn', 'reassoc', 'disjoint'):
            p.next()
        ty = parse_type(p)
        a = val(ty)
        p.expect(',')
        b = val(ty)
        ins = Inst(op, res, ty, (a, b))
    elif op == 'fneg':
        ty, a = tv()
        ins = Inst(op, res, ty, (a,))
    elif op == 'freeze':
        ty, a = tv()
        ins = Inst('freeze', res, ty, (a,))
    elif op in CAST:
        if p.peek() == 'nneg':
            p.next()
        ty, a = tv()
        p.expect('to')
        tt = parse_type(p)
        ins = Inst(op, res, tt, (ty, a))
    elif op in ('icmp', 'fcmp'):
        pred = p.next()
        if pred in ('fast', 'samesign'):
            pred = p.next()
        ty = parse_type(p)
        a = val(ty)
        p.expect(',')
        b = val(ty)
        ins = Inst(op, res, ty, (pred, a, b))
    elif op == 'load':
        p.accept('volatile')
        ty = parse_type(p)
        p.expect(',')
        pt, a = tv()
        ins = Inst(op, res, ty, (a,))
    elif op == 'store':
        p.accept('volatile')
        ty, v = tv()
        p.expect(',')
        pt, a = tv()
        ins = Inst(op, res, ty, (v, a))
    elif op == 'alloca':
        ty = parse_type(p)
        cnt = ('int', 1)
        if p.accept(','):
            if p.peek() != 'align':
                ct, cnt = tv()
        ins = Inst(op, res, ty, (cnt,))
    elif op == 'getelementptr':
        skip_attrs(p)
        ty = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            ops.append(tv())
            if not p.accept(','):
                break
        ins = Inst('gep', res, ty, tuple(ops))
    elif op == 'phi':
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            lb = unq(p.next())
            p.expect(']')
            inc.append((v, lb))
            if not p.accept(','):
                break
        ins = Inst(op, res, ty, tuple(inc))
    elif op == 'select':
        ct, c = tv()
        p.expect(',')
        ty, a = tv()
        p.expect(',')
        ty2, b = tv()
        ins = Inst(op, res, ty, (c, a, b))
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            ins = Inst('br', None, None, (unq(p.next()),))
        else:
            ct, c = tv()
            p.expect(',')
            p.expect('label')
            t = unq(p.next())
            p.expect(',')
            p.expect('label')
            e = unq(p.next())
            ins = Inst('condbr', None, None, (c, t, e))
    elif op == 'switch':
        ty, v = tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct, cv = tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next())))
        ins = Inst('switch', None, ty, (v, d, cases))
    elif op == 'ret':
        ty = parse_type(p)
        if ty.k == 'void':
            ins = Inst('ret', None, ty, (None,))
        else:
            ins = Inst('ret', None, ty, (parse_value(p, ty),))
    elif op == 'unreachable':
        ins = Inst('unreachable', None, None, ())
    elif op == 'call':
        skip_attrs(p)
        while p.peek() in ('fastcc', 'ccc'):
            p.next()
        skip_attrs(p)
        ty = parse_type(p)
        if ty.k == 'fn':
            ty = ty.a
        callee = parse_value(p, PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = parse_type(p)
                skip_attrs(p)
                args.append((at, parse_value(p, at)))
                if p.accept(')'):
                    break
                p.expect(',')
        rest = [x[1] for x in toks[p.i:]]
        nr = any(r in m.noreturn_attrs for r in rest)
        ins = Inst('call', res, ty, (callee, tuple(args), nr))
    else:
        raise IRError('unknown instruction %r' % st)
    ins.dbg = dbg
    return ins


# -------------------------------------------------------------- layout
class Layout:
    def __init__(self, structs):
        self.structs = structs
        self.cache = {}

    def size_align(self, ty):
        k = ty.k
        if k == 'int':
            n = max(1, (ty.a + 7) // 8)
            s = 1
            while s < n:
                s *= 2
            return s, s
        if k in ('ptr', 'double'):
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'arr':
            s, a = self.size_align(ty.b)
            return s * ty.a, a
        if k == 'named':
            if ty.a not in self.cache:
                st = self.structs.get(ty.a)
                if st is None:
                    raise IRError('opaque struct %s' % ty.a)
                self.cache[ty.a] = self.size_align(st)
            return self.cache[ty.a]
        if k in ('struct', 'packed'):
            off = 0
            al = 1
            for e in ty.a:
                s, a = self.size_align(e)
                if k == 'packed':
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError('size of %r' % ty)

    def size(self, ty):
        return self.size_align(ty)[0]

    def elem(self, ty, idx):
        """offset, type of struct element"""
        if ty.k == 'named':
            ty = self.structs[ty.a]
        off = 0
        for j, e in enumerate(ty.a):
            s, a = self.size_align(e)
            if ty.k == 'packed':
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off, e
            off += s
        raise IRError('struct index')


# ------------------------------------------------------- debug info
FIELD = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![^,()]*\{[^}]*\}|[^,()]+)')


def md(m, n):
    s = m.meta.get(n)
    if s is None:
        return None
    mm = re.match(r'!?(\w+)\((.*)\)$', s)
    if not mm:
        mm = re.match(r'!\{(.*)\}$', s)
        if mm:
            return ('list', [int(x.strip()[1:]) if x.strip().startswith('!') and x.strip()[1:].isdigit() else x.strip()
                             for x in mm.group(1).split(',')])
        return None
    d = {}
    for k, v in FIELD.findall(mm.group(2)):
        v = v.strip()
        if v.startswith('"'):
            v = v[1:-1]
        elif re.fullmatch(r'!\d+', v):
            v = ('ref', int(v[1:]))
        d[k] = v
    d['_k'] = mm.group(1)
    return d


def line_of(m, n):
    """(line, file) of a !dbg reference"""
    if n is None:
        return None
    if n in m._loc:
        return m._loc[n]
    s = m.meta.get(n, '')
    mm = re.search(r'line: (\d+)', s)
    r = int(mm.group(1)) if mm else None
    m._loc[n] = r
    return r


def struct_fields(m):
    """name of typedef/struct -> (size, {field: (offset, size, type description)})"""
    out = {}

    def comp(ref):
        d = md(m, ref)
        if not d:
            return None
        while d and d.get('tag') == 'DW_TAG_typedef':
            b = d.get('baseType')
            d = md(m, b[1]) if b else None
        return d

    def fields(d):
        el = d.get('elements')
        if not el or el == 'null':
            return None
        lst = md(m, el[1])
        fs = {}
        for e in lst[1]:
            f = md(m, e)
            if f.get('tag') == 'DW_TAG_member':
                off = int(f.get('offset', '0') or 0) // 8
                fs[f['name']] = (off, int(f.get('size', '0')) // 8)
        return fs
    for n, s in list(m.meta.items()):
        if 'DW_TAG_typedef' in s or 'DW_TAG_structure_type' in s:
            d = md(m, n)
            nm = d.get('name')
            if not nm:
                continue
            c = comp(n)
            if c and c.get('tag') == 'DW_TAG_structure_type':
                fs = fields(c)
                if fs is not None:
                    out[nm] = (int(c.get('size', '0')) // 8, fs)
    return out


def enumerators(m):
    """name -> value of every enumeration constant of the module"""
    out = {}
    for n, s in m.meta.items():
        if s.lstrip('!').startswith('DIEnumerator('):
            d = md(m, n)
            v = d.get('value')
            if d.get('name') and v is not None:
                out[d['name']] = int(v)
    return out
