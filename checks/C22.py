"""C22: exit status and error messages are reliable."""
from .common import *
from .C25 import TOOLS, load, setting

RULE = ('Of every tool all ways through main are interpreted: each ends with an error or with terminate, never otherwise; a wrong number of files is an '
        'error before anything is read; each file argument is read, in order and once, before anything is written; a first file that turns out to '
        'be generated output is an error (accuracy, editop, wordacc); the result goes to the third argument exactly when there is one. error and error_string write '
        'the name of the program and the message to standard error and exit with a non-zero status, terminate exits with 0, and exit is called '
        'from nowhere else; open_file gives an open file or ends with an error, nothing else opens files, and each reader and writer opens the '
        'file it was given.')
ASSUME = ['options are parsed as C25 says', 'what the readers accept is the matter of C01, C05, C06, C07', 'I/O errors: C23']
TECH = 'abstract interpretation of LLVM IR: event order on all paths of every main; call graph lint for exits'

READERS = {'read_text': 1, 'read_accrpt': 1, 'read_edorpt': 1, 'read_wacrpt': 1}
WRITERS = {'write_text': 1, 'write_accrpt': 1, 'write_edorpt': 1, 'write_wacrpt': 1, 'write_dist': 1}
OUTPUT = {'printf', 'putchar', 'puts', 'fputs', 'fputc', 'putc', '_IO_putc', 'fprintf', 'fwrite'}
MANY = {'accci': 2, 'accsum': 2, 'editopsum': 2, 'wordaccci': 2, 'wordaccsum': 2, 'ngram': 1, 'wordfreq': 1}
HEADER = ('accuracy', 'editop', 'wordacc')
TWO = ('accuracy', 'editop', 'groupacc', 'wordacc')


def arity(t, q, n, transpose):
    """is n a right number of files?"""
    if t in MANY:
        return q.le(C(MANY[t]), n)
    if t in ('accdist', 'wordaccdist'):
        return True
    if t in TWO:
        return q.eq(n, 2) or q.eq(n, 3)
    if t == 'nonstopacc':
        return q.eq(n, 2)
    if t == 'editopcost':
        return q.eq(n, 1) or q.eq(n, 2)
    if t == 'synctext':
        if q.nz(transpose):
            return q.eq(n, 2)
        # more than 16 texts are refused by synchronize (C14), or before
        return None if q.lt(C(16), n) else q.le(C(2), n)
    if t == 'vote':
        return q.le(C(2), n) and q.le(n, 16)
    raise Unsupported(t)


def run(ctx):
    P = ctx.program()
    ends(ctx, P)
    opening(ctx, P)
    for t in TOOLS:
        ctx.P = None
        tool(ctx, ctx.program(t), t)


# ------------------------------------------------------------------ the ends
def ends(ctx, P):
    g = callgraph(P)
    # exit and its kind
    for x, ys in g.items():
        for y in ys:
            ctx.require(not (y[0] == '' and y[1] in ('_exit', '_Exit', 'quick_exit', 'abort', 'kill', 'raise', 'atexit', 'on_exit', 'setjmp', '_setjmp', 'longjmp',
                                                     'fork', 'execl', 'execv', 'system')), 'exit', '%s does not call %s' % (x[1], y[1]), x)
    quits = {x for x, ys in g.items() if ('', 'exit') in ys}
    todo, seen = list(quits), set()
    U = P.modules['util']
    ENDS = {('util', n) for n in ('error', 'error_string', 'terminate')}
    ok = bool(quits)
    while todo:
        x = todo.pop()
        if x in seen or x in ENDS:
            continue
        seen.add(x)
        ok = ok and x[0] == 'util' and U.functions[x[1]].internal
        todo += [z for z, ys in g.items() if x in ys]
    ctx.require(ok, 'exit', 'programs end through error, error_string and terminate only (%s)' % sorted(seen), 'exit')
    # who may end with success: main and the usage, below initialize
    below = set()
    todo = [('util', 'initialize')]
    while todo:
        x = todo.pop()
        if x not in below:
            below.add(x)
            todo += [y for y in g.get(x, ()) if y not in ENDS]
    for x, ys in g.items():
        if ('util', 'terminate') in ys:
            ctx.require(x[1] == 'main' or x in below and U.functions[x[1]].internal, 'success', '%s ends the program with success' % x[1], x)
    for m in P.modules.values():
        w = written_globals(P, m.name)
        ctx.require('errstatus' not in w, 'status', 'the status of errors stays what it is', m.name)
        for z in ('cleanup_routine', 'usage_routine'):
            ctx.require(z not in w, 'status', '%s is not used' % z, m.name)
    nz = U.globals['errstatus']['init']
    ctx.require(nz is not None and nz[0] == 'int' and nz[1] & 0xff, 'status', 'the status of errors is not 0 (%r)' % (nz,), 'errstatus')
    for fn in ('error', 'error_string', 'terminate'):
        I = ctx.interp()
        for k in ('error', 'error_string', 'terminate'):
            if k == fn or fn != 'terminate':
                I.prims.pop(k, None)
        a = [arg('message', 1, ptr=True), arg('string1', 1, ptr=True)][:len(U.functions[fn].params)]
        n = 0
        for o in live(I.run(U.functions[fn], a)):
            ctx.paths += 1
            ev = o.st.events()
            ex = [e for e in ev if e[0] == 'exit']
            ok = o.kind == 'exit' and (len(ex) == 1 and ev[-1] is ex[0] or any(e[0] == 'error' for e in ev))
            if fn == 'terminate':
                ctx.require(ok and (not ex or o.st.facts.value(ex[0][1]) == 0), 'terminate', 'terminate exits with 0 or an error', fn)
                n += bool(ex)
                continue
            n += 1
            ctx.require(ok and ex and o.st.facts.decide(ex[0][1], '!=') is True, 'error', '%s exits with a status that is not 0' % fn, fn)
            said = outs_by_stream(ev)
            t = [tok for k, v in said.items() if repr(k) == 'stderr' for tok in v]
            name = V(atom(('ld', V(atom(('glob', '', 'exec_name'), '@exec_name', obj='global')), 8)))
            has = lambda x: any(tok[0] == 'str' and lin_eq(o.st.facts, tok[1], x) for tok in t)
            ctx.require(t and t[0][0] == 'str' and lin_eq(o.st.facts, t[0][1], name) and all(has(x) for x in a) and t[-1][0] == 'lit' and t[-1][1].endswith(b'\n') and
                        all(repr(k) == 'stderr' for k in said), 'error', '%s says the program and the message on standard error (%s)' % (fn, show_toks(t)), fn)
        ctx.require(n > 0, 'error', '%s ends the program' % fn, fn)


def opening(ctx, P):
    U = P.modules['util']
    for x, ys in callgraph(P).items():
        for y in ys:
            if y[0] == '' and y[1] in ('fopen', 'fopen64', 'freopen', 'fdopen', 'open', 'open64', 'creat', 'tmpfile', 'popen', 'fmemopen'):
                ctx.require(x == ('util', 'open_file') and y[1].startswith('fopen'), 'open', 'files are opened by open_file only (%s)' % x[1], x)
    name = arg('filename_0', 0, ptr='null')
    for mode in (b'r', b'w'):
        I = ctx.interp(prims=dict(fopen=fopen_prim))
        md = cstr_arg(I, mode)
        n = 0
        for o in live(I.run(U.functions['open_file'], [name, V(md)], const_string(md, mode))):
            ctx.paths += 1
            f = o.st.facts
            op = [e for e in o.st.events() if e[0] == 'fopen']
            er = [e for e in o.st.events() if e[0] == 'error']
            for f, want in table(f, lambda q: 'std' if q.eq(name, 0) else 'file'):
                if want == 'std':
                    v = f.norm(o.val).one() if o.kind == 'ret' else None
                    ctx.require(v is not None and repr(v) == ('stdin' if mode == b'r' else 'stdout') and not op, 'open', 'without a name the standard stream is used', 'open_file')
                    continue
                n += 1
                if not (len(op) == 1 and lin_eq(f, op[0][1], name) and op[0][2] == mode):
                    ctx.fail('open', 'the file of that name is opened as asked', 'open_file')
                elif f.value(op[0][3]) == 0:
                    ctx.require(o.kind == 'exit' and er and any(lin_eq(f, x, name) for x in er[0][2]), 'open', 'a file that cannot be opened is an error', 'open_file')
                else:
                    ctx.require(o.kind == 'ret' and lin_eq(f, o.val, op[0][3]), 'open', 'the open file is returned', 'open_file')
        ctx.require(n >= 2, 'open', 'files are opened for mode %s' % mode.decode(), 'open_file')
    # each reader and writer opens what it was given
    n = 0
    for m in P.modules.values():
        for fn in m.functions.values():
            if not calls_name(fn, 'open_file'):
                continue
            n += 1
            M = P.modules[m.name]
            used = {}
            for b in fn.order:
                for ins in fn.blocks[b]:
                    if ins.op == 'call' and ins.a[0] == ('global', 'open_file'):
                        a0, a1 = ins.a[1][0][1], ins.a[1][1][1]
                        g = addr_of(a1) if a1[0] in ('global', 'ce') else None
                        s = M.globals[g]['init'] if g in M.globals else None
                        mode = s[1].rstrip(b'\0') if s and s[0] == 'bytes' else None
                        par = [i for i, p in enumerate(fn.params) if a0 == ('local', p[1] if isinstance(p, tuple) else p)]
                        used[ir.line_of(m, ins.dbg)] = (par, mode)
            for ln, (par, mode) in used.items():
                want = READERS.get(fn.name, WRITERS.get(fn.name, 0))
                ctx.require(par == [want] and mode == (b'r' if fn.name in READERS else b'w'), 'name',
                            '%s opens the file it was given (%s, %s)' % (fn.name, par, mode), (m.name, ln))
    ctx.require(n >= 9, 'name', 'files are read and written', 'open_file')


def cstr_arg(I, s):
    a = atom(('mode', s), 'mode', 1)
    interp.mkptr(a)
    return a


def const_string(a, s):
    st = interp.State(Facts())
    for i, c in enumerate(s + b'\0'):
        st = st.put(('st', a, C(i), 1, C(c), None))
    return st


def fopen_prim(I, fr, ins, st, a):
    f = st.facts
    m = I.cstring(f.norm(a[1]))
    if m is None:
        r = I.load(st, a[1], 1, ir.Ty('int', 8), None)
        v = f.value(r[0][1]) if len(r) == 1 else None
        m = bytes([v]) if v else None
    x = atom(('fopen', f.norm(a[0]), m), 'file', 1)
    interp.mkptr(x)
    nm = f.norm(a[0])
    return [(st.event('fopen', nm, m, ZERO), ZERO), (st.event('fopen', nm, m, V(x)), V(x))]


# ------------------------------------------------------------------ the tools
def reader_prim(name, k):
    def p(I, fr, ins, st, a):
        f = st.facts
        n = sum(1 for e in st.events() if e[0] == 'read')
        st = st.event('read', name, f.norm(a[k]), tuple(f.norm(x) for x in a), I.line(fr, ins))
        b, o = interp.base_of(f.norm(a[0]))
        if b is not None and hasattr(I, 'hv_base'):
            st = I.hv_base(st, b)
        if name == 'read_text':
            b, o = interp.base_of(f.norm(a[2]))
            if b is None:
                raise Unsupported('text options of a reading')
            h = atom(('found_header', f.norm(a[k])) + ((st.extra['iter'],) if st.extra.get('iter') else ()), 'found_header', 0, 1)
            st = st.put(('st', b, add(o, C(I.prog.off('Textopt', 'found_header'))), 1, V(h), ('Textopt', list(I.prog.fields['Textopt'][1]).index('found_header'))))
        return [(st, None)]
    return p


def writer_prim(name, k):
    def p(I, fr, ins, st, a):
        return [(st.event('write', name, tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), None)]
    return p


def work_prim(name, out):
    inner = event_prim(name)
    typed = event_prim(name, None)

    def p(I, fr, ins, st, a):
        if out:
            st = st.event('write', name, tuple(st.facts.norm(x) for x in a), I.line(fr, ins))
        return (typed if ins.ty is not None and ins.ty.k != 'void' else inner)(I, fr, ins, st, a)
    return p


STOP = ('error', 'error_string', 'warning_string', 'initialize', 'terminate')


def below(g, x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y in seen or y[1] in STOP and y != x:
            continue
        seen.add(y)
        todo += list(g.get(y, ()))
    return seen


def tool(ctx, P, t):
    M = P.modules[t]
    g = callgraph(P)
    prims = {'initialize': initialize_prim}
    for (m, name) in list(g):
        if name == 'main' or name in STOP:
            continue
        b = below(g, (m, name))
        if name in READERS:
            prims[(m, name)] = reader_prim(name, READERS[name])
        elif name in WRITERS:
            prims[(m, name)] = writer_prim(name, WRITERS[name])
        elif name == 'init_stopwords':
            prims[(m, name)] = event_prim('aux')
        elif m == t and (any(y[1] in READERS for y in b) or any(z[1] in ('error', 'error_string') for y in b if y[0] == t for z in g[y])):
            continue
        else:
            prims[(m, name)] = work_prim(name, any(y[1] in OUTPUT or y[1] in WRITERS for y in b))
    for k in [k for k in prims if isinstance(k, tuple)]:
        prims.setdefault(k[1], prims[k])
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    n = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    argv = arg('argv', 1, ptr=True)
    T = ZERO
    if t == 'synctext':
        from .C25 import entries
        gname = next(x for x, d in M.globals.items() if d['ty'] is not None and 'Option' in repr(d['ty']))
        T = {k: setting(P, t, s or b, 1) for k, s, b in entries(P, t, gname)[0]}['T']
    outs = live(I.run(M.functions['main'], [arg('argc_main', 1, 2 ** 31 - 1), argv]))
    done = 0
    for o in outs:
        ev = o.st.events()
        er = [e for e in ev if e[0] == 'error']
        te = [e for e in ev if e[0] == 'terminate']
        if not ctx.require(o.kind == 'exit' and len(er) + len(te) == 1, 'end', '%s ends with an error or with success' % t, 'main'):
            continue
        rd = reads(ev)
        wr = writes_of(ev)
        for f, ok in table(o.st.facts, lambda q: arity(t, q, n, T)):
            if no_such_args(f, argv, n):
                continue
            ctx.paths += 1
            if ok is None:
                ctx.require(not er or not wr, 'arity', '%s refuses files only before anything is written' % t, 'main')
            elif not ok:
                ctx.require(er and not rd and not wr, 'arity', '%s does not accept this number of files (%s)' % (t, f.describe()[:100]), 'main')
            elif te:
                done += 1
                finished(ctx, I, P, t, o.st.events(), f, n, argv)
            else:
                ctx.require(legit(I, P, t, ev, f, o, argv), 'arity', '%s accepts this number of files (%s; %s)' % (t, er, f.describe()[:100]), 'main')
    ctx.require(done > 0, 'end', '%s comes to an end' % t, 'main')


def no_such_args(f, argv, n):
    """an argument that is there is not a null pointer"""
    for a in f.dom:
        if a.key[0] == 'ld' and f.value(V(a)) == 0:
            d = f.norm(sub(a.key[1], argv))
            if d.const and d.c % 8 == 0 and f.decide(sub(C(d.c // 8 + 1), n), '<=') is True:
                return True
    return False


def reads(ev):
    return [e for e in flat(ev) if e[0] == 'read']


def is_write(e):
    return e[0] == 'write' or e[0] == 'out' and repr(e[1]) != 'stderr'


def writes_of(ev):
    return [e for e in flat(ev) if is_write(e)]


def legit(I, P, t, ev, f, o, argv):
    """an error that is not about the number of files"""
    if t in HEADER and any(a.key[0] == 'found_header' and f.decide(V(a), '!=') is True and file_at(f, a.key[1], argv, ZERO) for a in f.dom):
        return not writes_of(ev)
    # an option with a bad value, or a tool function that found an error
    used = {a for a in f.dom if a.key[0] == 'ret'} | {x for l in list(f.le) + list(f.ne) for x, _ in l.t if x.key[0] == 'ret'}
    opt = [a for a in f.dom if a.key[0] == 'ld' and interp.base_of(a.key[1])[0] is not None and interp.base_of(a.key[1])[0].key[0] == 'glob' and
           f.decide(V(a), '!=') is True]
    return bool(used or opt) and bool(reads(ev) or opt)


def finished(ctx, I, P, t, ev, f, n, argv):
    ctx.require(ev[-1][0] == 'terminate', 'end', 'success is the last thing %s does' % t, 'main')
    # everything is read before anything is written
    wrote = False
    ok = True
    for e in ev:
        sub_ = [e] if e[0] != 'loop' else list(flat([e]))
        r, w = any(x[0] == 'read' for x in sub_), any(is_write(x) for x in sub_)
        ok = ok and not (r and (w or wrote))
        wrote = wrote or w
    ctx.require(ok, 'order', '%s writes after everything was read' % t, 'main')
    ctx.require(wrote, 'order', '%s writes its result' % t, 'main')
    # which files are read
    want = C(2) if t in TWO + ('nonstopacc',) else n
    ctx.require(visits_all(ev, f, argv, want, lambda e: e[2] if e[0] == 'read' else None), 'files', '%s reads each of its files, in order' % t, 'main')
    # generated output is no correct file
    if t in HEADER:
        header(ctx, I, P, t, ev, f, argv)
    # where the result goes
    w = [e for e in flat(ev) if e[0] == 'write' and (e[1] in WRITERS or t == 'groupacc')]
    for e in w:
        dest = e[2][WRITERS[e[1]]] if e[1] in WRITERS else e[2][0] if e[2] else None
        if t == 'vote':
            continue        # C25
        if dest is None:
            ctx.fail('result', 'the result of %s goes to a file' % t, 'main')
        elif t in TWO:
            for f2, third in table(f, lambda q: q.eq(n, 3)):
                ctx.require(file_at(f2, dest, argv, C(2)) if third else f2.value(dest) == 0, 'result',
                            'the result of %s goes to the third file, or to standard output (%s)' % (t, dest), 'main')
        else:
            ctx.require(f.value(dest) == 0, 'result', 'the result of %s goes to standard output' % t, 'main')
    if t in TWO:
        ctx.require(len(w) == 1, 'result', '%s writes one result' % t, 'main')


def file_at(f, x, argv, pos):
    return lin_eq(f, x, V(atom(('ld', add(argv, scale(pos, 8)), 8)))) or (x.one() is not None and x.one().key[0] == 'ld' and lin_eq(f, x.one().key[1], add(argv, scale(pos, 8))))


def header(ctx, I, P, t, ev, f, argv):
    M = P.modules[t]
    first = []
    for e in ev:
        if e[0] == 'read':
            first.append((e, f))
            break
        if e[0] == 'loop' and reads([e]):
            S = e[1]
            for x in S.trans():
                r = [y for y in x.events if y[0] == 'read']
                if r and file0(S, x, r[0][2], argv):
                    first.append((r[0], x.facts))
            break
    if not first:
        ctx.fail('header', '%s reads the correct file first' % t, 'main')
    for e, f in first:
        h = [a for a in f.dom if a.key[0] == 'found_header' and lin_eq(f, a.key[1], e[2])]
        ctx.require(any(f.value(V(a)) == 0 for a in h), 'header', '%s does not accept generated output as the correct file' % t, 'main')
        opt = e[3][2].one()
        gname = opt.key[2] if opt is not None and opt.key[0] == 'glob' else None
        fs = list(P.fields['Textopt'][1])
        v = agg(M.globals[gname]['init']) if gname in M.globals else None
        ctx.require(v is not None and v[fs.index('find_header')] not in (('int', 0), ('zero',)), 'header', '%s looks for the header of generated output' % t, 'main')


def file0(S, x, name, argv):
    """may this iteration be the one that reads the first file?"""
    a = name.one()
    if a is None or a.key[0] != 'ld':
        return True
    return x.facts.decide(sub(a.key[1], argv), '!=') is not True
