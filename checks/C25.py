"""C25: options are parsed as documented."""
import re
from .common import *

RULE = ('initialize takes the arguments one after the other from the second on. One generic argument is compared with the full decision table: an '
        'argument starting with - and at least one more character is an option (any prefix of -help shows the usage), everything else is kept, '
        'unchanged and in order; an option is looked up by its letter among all entries; its value is attached or the next argument; a missing '
        'value, a value given to a flag, a repeated option and an unknown letter end the program with an error; nothing else is stored. The option '
        'tables of all tools are compared with the documentation, and every tool hands its own table, usage, argc and argv to initialize '
        'before anything else. What an option is for is checked where it takes effect (synctext, vote here; ngram, wordacc in C18, C31).')
ASSUME = ['main gets argc >= 1 and argc non-null strings', 'strncmp behaves as in the C standard']
TECH = 'abstract interpretation of LLVM IR with an inductive loop summary compared with a decision table; constant initialiser analysis'

TOOLS = ('accci', 'accdist', 'accsum', 'accuracy', 'editop', 'editopcost', 'editopsum', 'groupacc', 'ngram', 'nonstopacc', 'synctext', 'vote',
         'wordacc', 'wordaccci', 'wordaccdist', 'wordaccsum', 'wordfreq')
DOC = {'synctext': {'H': 'flag', 'i': 'flag', 's': 'flag', 'T': 'flag'}, 'vote': {'O': 'flag', 'o': 'value', 's': 'value', 'w': 'value'},
       'ngram': {'n': 'value'}, 'wordacc': {'S': 'value'}}


def run(ctx):
    P = ctx.program()
    parsing(ctx, P)
    for t in TOOLS:
        ctx.P = None
        tool(ctx, ctx.program(t), t)


def load(I, st, addr, size, tag=None):
    ty = {8: ir.Ty('ptr'), 1: ir.Ty('int', 8), 4: ir.Ty('int', 32), 2: ir.Ty('int', 16)}[size]
    r = I.load(st, addr, size, ty, tag or ('ty', repr(ty)))
    if len(r) != 1:
        raise Unsupported('ambiguous load while reading the arguments')
    return r[0][1]


def parsing(ctx, P):
    I = ctx.interp(prims=dict(basefilename=event_prim('basefilename', 'ptr'), signal=event_prim('signal', 'ptr')))
    I.range_hook = ranges(P)
    argcp, argv, usage, option = arg('argcp', 1, ptr=True), arg('argv', 1, ptr=True), arg('usage', 1, ptr=True), arg('option', 0, ptr='null')
    n = V(atom(('argc0',), 'argc', 1, 2 ** 31 - 1))
    st = interp.State(Facts()).put(('st', argcp.one(), ZERO, 4, n, None))
    outs = live(I.run('initialize', [argcp, argv, usage, option], st))
    seen = set()
    done = 0
    for o in outs:
        ctx.paths += 1
        f = o.st.facts
        ls = [S for S in loops_of(o.st) if is_args_loop(S, argv)]
        for S in ls:
            if S.lid not in seen:
                seen.add(S.lid)
                args_loop(ctx, I, P, S, argv, n, usage, option)
        if not ls:
            ctx.require(o.kind == 'exit' and shows_usage(o, usage) and f.decide(sub(n, ONE), '==') is True, 'none',
                        'the arguments are gone through', 'initialize')
            done |= 1
            continue
        if f.decide(sub(n, ONE), '!=') is not True:
            z = [a for a in f.dom if a.key[0] == 'ld' and 'usage_when_no_args' in repr(a)]
            ctx.require(any(f.value(V(a)) == 0 for a in z), 'none', 'no arguments at all show the usage', 'initialize')
        if o.kind == 'exit':
            continue        # dealt with in the loop
        done |= 2
        j = kept(ls[0])
        ctx.require(len(ls) == 1 and j is not None and lin_eq(f, load(I, o.st, argcp, 4), V(j.sym)), 'count',
                    'the number of arguments left is the number kept', 'initialize')
    ctx.require(done == 3 and seen, 'parse', 'the arguments are parsed', 'initialize')
    for m in P.modules.values():
        w = written_globals(P, m.name)
        for g in ('usage_when_no_args',):
            ctx.require(g not in w, 'none', '%s is left on' % g, m.name)
    g = P.modules['util'].globals['usage_when_no_args']
    ctx.require(g['init'] is not None and g['init'] not in (('zero',), ('int', 0)) and g['init'][0] == 'int', 'none', 'usage_when_no_args is on', 'util')


def shows_usage(o, usage):
    ev = o.st.events()
    e = [x for x in ev if x[0] == 'out']
    ind = any(x[0] in ('icall', 'call') and 'usage_routine' in repr(x[1:]) for x in ev)
    said = any(repr(x[1]) == 'stderr' and any(t[0] == 'str' and lin_eq(o.st.facts, t[1], usage) for t in x[2]) for x in e)
    return (said or ind) and ev[-1][0] == 'terminate' and not any(x[0] == 'error' for x in ev)


def position(S):
    """the variable (and the argument it is at) that goes through the arguments"""
    c = []
    for v in S.vars:
        if v.sym is None or v.tmpl or v.kind == 'x' or not v.init.const:
            continue
        ds = [step(t, v) for t in S.trans()]
        if all(d in (1, 2) for d in ds) and v.init.c in (0, 1):
            c.append(v)
    c = [v for v in c if any(step(t, v) == 2 for t in S.trans())] or c
    return c[0] if c else None


def step(t, v):
    for k in (0, 1, 2):
        if lin_eq(t.facts, t.nxt[v], add(V(v.sym), C(k))):
            return k
    return None


def kept(S):
    c = [v for v in S.vars if v.sym is not None and not v.tmpl and v.init.const and v.init.c == 0 and v is not position(S) and
         all(step(t, v) in (0, 1) for t in S.trans())]
    return c[0] if len(c) == 1 else None


def is_args_loop(S, argv):
    return any(stored(t, argv) for t in S.trans())


def stored(t, argv):
    """[(address, value)] written to memory others can see, in one iteration"""
    out = []
    for e in mem_since(t):
        if e[0] == 'st':
            if e[1].obj != 'alloca':
                out.append((add(V(e[1]), e[2]), e[4]))
        elif e[0] == 'hv':
            d = e[2]
            b = next((x for x in d if isinstance(x, Atom)), None) if isinstance(d, tuple) else None
            if not (b is not None and b.obj == 'alloca'):
                out.append((None, d))
    return out


def args_loop(ctx, I, P, S, argv, n, usage, option):
    i, j = position(S), kept(S)
    if i is None or j is None:
        ctx.fail('parse', 'each argument is looked at in turn and kept or taken as an option', S)
        return
    i0 = V(i.sym)
    pos = add(i0, C(1 - i.init.c))         # the argument looked at in this iteration
    osize = P.sizeof('Option')

    def spec(head, t_events):
        a = load(I, head, add(argv, scale(pos, 8)), 8)
        nxt = load(I, head, add(argv, add(scale(pos, 8), C(8))), 8)
        c = [load(I, head, add(a, C(k)), 1) for k in range(3)]
        search = [e[1] for e in t_events if e[0] == 'loop']
        size = libc.toks_len(libc.norm_tokens(libc.string_tokens(I, head, a)))
        row = None
        for S2 in search:
            r = entry(S2, option, osize)
            if r is not None:
                row = (S2, r)

        def go(q):
            if q.le(n, pos):
                return ('end',)
            if not q.eq(c[0], 45) or q.eq(c[1], 0):
                return ('keep', a)
            if q.eq(libc.strcmp_atom('strncmp', a, V(atom(('cstr', b'-help'), repr(b'-help'))), (size,)), 0):
                return ('usage',)
            if not q.nz(option):
                return ('invalid', a)
            if row is None:
                return ('odd', 'the option is not looked up')
            R = row[1]
            nm = load(I, head, add(R, C(P.off('Option', 'name'))), 1, ('Option', 0))
            if q.eq(nm, 0):
                return ('invalid', a)
            if not q.eq(nm, c[1]):
                return ('odd', 'another option is taken for it')
            s = load(I, head, add(R, C(P.off('Option', 'string'))), 8, ('Option', 1))
            b = load(I, head, add(R, C(P.off('Option', 'boolean'))), 8, ('Option', 2))
            if q.nz(s):
                if q.nz(b):
                    return None        # excluded by the tables
                att = q.nz(c[2])
                if not att and (q.le(n, add(pos, ONE)) or not q.nz(nxt)):
                    return ('invalid', a)
                if q.nz(load(I, head, s, 8)):
                    return ('dup', a)
                return ('set', s, add(a, C(2)) if att else nxt, 1 if att else 2)
            if not q.nz(b):
                return None
            if q.nz(c[2]):
                return ('invalid', a)
            if q.nz(load(I, head, b, 1)):
                return ('dup', a)
            return ('set', b, ONE, 1)
        return go

    for p in S.parts.values():
        for t in p.trans:
            for f, want in table(t.facts, spec(p.head, t.events)):
                ctx.paths += 1
                if want is None:
                    continue
                si, sj = step(t, i), step(t, j)
                st = stored(t, argv)
                ok = not any(e[0] in ('out', 'error', 'terminate') for e in t.events)
                if want[0] == 'keep':
                    ok = ok and si == 1 and sj == 1 and len(st) == 1 and st[0][0] is not None and lin_eq(f, st[0][0], add(argv, scale(V(j.sym), 8))) and \
                        lin_eq(f, st[0][1], want[1])
                elif want[0] == 'set':
                    ok = ok and si == want[3] and sj == 0 and len(st) == 1 and st[0][0] is not None and lin_eq(f, st[0][0], want[1]) and \
                        lin_eq(f, st[0][1], want[2])
                else:
                    ok = False
                ctx.require(ok, 'step', 'argument: wanted %s, stored %s, %s arguments used up, %s kept' % (say(want), say(st), si, sj), S)
        for o in p.exits:
            if dead(o):
                continue
            ev = o.st.events()
            for f, want in table(o.st.facts, spec(p.head, ev)):
                ctx.paths += 1
                if want is None:
                    continue
                if want[0] == 'end':
                    ctx.require(o.kind == 'goto', 'step', 'after the last argument the work begins', S)
                    continue
                if want[0] == 'usage':
                    ctx.require(o.kind == 'exit' and shows_usage(o, usage), 'help', 'a prefix of -help shows the usage', S)
                    continue
                e = [x for x in ev if x[0] == 'error']
                ok = want[0] in ('invalid', 'dup') and o.kind == 'exit' and len(e) == 1 and any(lin_eq(f, x, want[1]) for x in e[0][2])
                ctx.require(ok, 'step', 'argument: wanted %s, the program ended with %s' % (say(want), say(e)), S)
    # search loops: entries are skipped only when they are another option
    done = set()
    for p in S.parts.values():
        for ev in [t.events for t in p.trans] + [o.st.events() for o in p.exits if not dead(o)]:
            for S2 in [e[1] for e in ev if e[0] == 'loop']:
                R = entry(S2, option, osize)
                if R is None or S2.lid in done:
                    continue
                done.add(S2.lid)
                a = load(I, p.head, add(argv, scale(pos, 8)), 8)
                c1 = load(I, p.head, add(a, ONE), 1)
                ok = bool(S2.trans())
                for t2 in S2.trans():
                    nm = load(I, t2.head, add(R, C(P.off('Option', 'name'))), 1, ('Option', 0))
                    ok = ok and t2.facts.decide(nm, '!=') is True and t2.facts.decide(sub(nm, c1), '!=') is True
                ctx.require(ok, 'search', 'only other options are skipped', S2)
    ctx.require(bool(done), 'search', 'options are looked up', S)


def say(x):
    return str(x)[:200]


def entry(S2, option, osize):
    """address of the option table entry a search loop is at"""
    for v, init, st in counters(S2):
        if st == osize and lin_eq(S2.pre.facts, init, option):
            return V(v.sym)
        if st == 1 and S2.pre.facts.value(init) == 0:
            return add(option, scale(V(v.sym), osize))
    return None


# ------------------------------------------------------------------ the tools
def tool(ctx, P, t):
    M = P.modules[t]
    prims = {}
    for f in M.functions.values():
        if f.name != 'main':
            prims[(t, f.name)] = event_prim(f.name, None)
    prims['initialize'] = stop_prim
    I = ctx.interp(prims=prims)
    got = set()
    for o in live(I.run(M.functions['main'], [arg('argc_main', 1, 2 ** 31 - 1), arg('argv', 1, ptr=True)])):
        ctx.paths += 1
        ev = o.st.events()
        ini = [e for e in ev if e[0] == 'initialize']
        ok = o.kind == 'exit' and len(ini) == 1 and ev[-1] is ini[0] and not any(e[0] in ('call', 'loop', 'out', 'error') for e in ev)
        ctx.require(ok, 'main', '%s first has its arguments parsed' % t, 'main')
        if not ok:
            continue
        argc, argv, use, opt, n = ini[0][1]
        ctx.require(lin_eq(o.st.facts, argv, arg('argv')) and n is not None and lin_eq(o.st.facts, n, arg('argc_main')), 'main',
                    '%s hands over all its arguments (%s, %s)' % (t, argv, n), 'main')
        got.add((use, opt))
    if len(got) != 1:
        ctx.fail('main', '%s has one usage and one option table' % t, 'main')
        return
    use, opt = got.pop()
    tab = {}
    if opt.one() is not None and opt.one().key[0] == 'glob':
        g = opt.one().key[2]
        tab, end = entries(P, t, g)
        ctx.require(end, 'table', 'the option table of %s has an end' % t, g)
        ctx.require(not any_store(P, t, g), 'table', 'the option table of %s is not changed' % t, g)
    elif o.st.facts.value(opt) != 0:
        ctx.fail('table', 'the options of %s are in a table' % t, 'main')
        return
    want = DOC.get(t, {})
    letters = [k for k, _, _ in tab]
    ctx.require(len(set(letters)) == len(letters) and set(want) <= set(letters) and set(letters) - set(want) <= {'D'}, 'table',
                '%s has the options %s (documented: %s)' % (t, ' '.join(letters) or 'none', ' '.join(want) or 'none'), t)
    targets = []
    for k, s, b in tab:
        ctx.require((s is None) != (b is None) and (want.get(k, 'flag') == 'value') == (s is not None), 'table',
                    'option %s of %s %s a value' % (k, t, 'takes' if want.get(k) == 'value' else 'is a flag without'), t)
        targets.append(s or b)
    ctx.require(len(set(targets)) == len(targets), 'table', 'each option of %s has a setting of its own (%s)' % (t, targets), t)
    for k, s, b in tab:
        for g, off in [x for x in (s, b) if x]:
            d = M.globals[g]
            ctx.require(zero_at(P, d, off), 'table', 'the setting %s of %s is off at the start' % (k, t), g)
            ctx.require(not any_store(P, t, g, off), 'table', 'the setting %s of %s is changed by the option only' % (k, t), g)
    text = I.cstring(use)
    if text is None:
        ctx.fail('usage', 'the usage of %s is a text' % t, t)
    else:
        said = set(re.findall(r'-([A-Za-z])', text.decode('latin-1')))
        ctx.require(said == set(want), 'usage', 'the usage of %s lists its options (%s)' % (t, text.decode('latin-1')), t)
    if t in EFFECT:
        EFFECT[t](ctx, P, {k: s or b for k, s, b in tab})


def stop_prim(I, fr, ins, st, a):
    f = st.facts
    b, o = interp.base_of(f.norm(a[0]))
    n = None
    if b is not None:
        r = I.load(st, a[0], 4, ir.Ty('int', 32), None)
        n = r[0][1] if len(r) == 1 else None
    st = st.event('initialize', tuple(f.norm(x) for x in a) + (n,))
    return [('exit', interp.Outcome('exit', st))]


def const_addr(P, mod, v):
    if v[0] in ('null', 'zero'):
        return None
    off = 0
    if v[0] == 'ce' and v[1] == 'gep' and v[2].k == 'int' and v[2].a == 8 and all(x[1][0] == 'int' for x in v[3][1:]):
        off = sum(x[1][1] for x in v[3][1:])
        v = v[3][0][1]
    g = addr_of(v)
    if g is None or g not in P.modules[mod].globals:
        raise Unsupported('option target %r' % (v,))
    return g, off


def zero_at(P, d, off):
    i = d['init']
    if i is None or i[0] in ('zero', 'null'):
        return i is not None
    if i[0] == 'int':
        return i[1] == 0
    fs = P.fields.get(repr(d['ty']).replace('%struct.', ''))
    if i[0] != 'agg' or fs is None:
        return False
    for x, fd in zip(agg(i), fs[1].values()):
        if fd[0] == off:
            return x[0] in ('zero', 'null') or x == ('int', 0)
    return False


def any_store(P, mod, g, off=None):
    """may some function store to that part of the variable?"""
    d = P.modules[mod].globals[g]
    st = repr(d['ty']).replace('%struct.', '')
    for m in P.modules.values():
        if m.name != mod and d['internal']:
            continue
        for f in m.functions.values():
            for t, ins in store_tags(P, m, f):
                if g in root_globals(f, ins.a[1]):
                    if off is None or t is None or t[0] != st or st not in P.fields:
                        return True
                    k = t[1][1] if isinstance(t[1], tuple) else t[1]
                    if list(P.fields[st][1].values())[k][0] == off:
                        return True
                elif t and t[0] == st and off is not None and st in P.fields:
                    k = t[1][1] if isinstance(t[1], tuple) else t[1]
                    if list(P.fields[st][1].values())[k][0] == off:
                        return True
    return False


def entries(P, mod, g):
    """[(letter, string target, boolean target)], a target being (global, offset)"""
    out = []
    ended = False
    for row in agg(P.modules[mod].globals[g]['init']) or []:
        r = agg(row) if row[0] == 'agg' else None
        if r is None or r[0] in (('int', 0), ('zero',)):
            ended = True
            break
        fs = list(P.fields['Option'][1])
        d = dict(zip(fs, r))
        out.append((chr(d['name'][1]), const_addr(P, mod, d['string']), const_addr(P, mod, d['boolean'])))
    if not ended:
        return out, False
    return out, True


# --------------------------------------------------- what the options are for
def setting(P, mod, target, size):
    g, off = target
    d = P.modules[mod].globals[g]
    base = V(atom(('glob', mod if d['internal'] else '', g), '@' + g, obj='global'))
    return V(atom(('ld', add(base, C(off)), size)))


def main_events(ctx, P, t, names):
    M = P.modules[t]
    prims = {(t, f.name): event_prim(f.name, None) for f in M.functions.values() if f.name != 'main'}
    prims['initialize'] = initialize_prim
    for n in names:
        prims[n] = event_prim(n)
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    outs = live(I.run(M.functions['main'], [arg('argc_main', 1, 2 ** 31 - 1), arg('argv', 1, ptr=True)]))
    return I, [o for o in outs if not any(e[0] == 'error' for e in o.st.events())]


def synctext(ctx, P, target):
    algs = ('transpose_sync', 'synchronize', 'fastukk_sync')
    I, outs = main_events(ctx, P, 'synctext', algs + ('read_text',))
    T, H = setting(P, 'synctext', target['T'], 1), setting(P, 'synctext', target['H'], 1)
    n = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    for o in outs:
        used = [e[1] for e in o.st.events() if e[0] == 'call' and e[1] in algs]
        for f, want in table(o.st.facts, lambda q: 'transpose_sync' if q.nz(T) else 'synchronize' if q.nz(H) or q.lt(2, n) else 'fastukk_sync'):
            ctx.paths += 1
            ctx.require(used == [want], 'effect', 'options T and H of synctext choose the alignment (%s, wanted %s)' % (used, want), 'main')
    ctx.require(len(outs) >= 3, 'effect', 'synctext runs', 'main')
    g, off = target['i']
    fs = P.fields['Textopt'][1]
    ctx.require(off == fs['case_insensitive'][0] and repr(P.modules['synctext'].globals[g]['ty']) == '%struct.Textopt', 'effect',
                'option i of synctext folds case (%s+%s)' % (g, off), g)


def vote(ctx, P, target):
    I, outs = main_events(ctx, P, 'vote', ('write_text', 'synchronize', 'read_text'))
    name = setting(P, 'vote', target['o'], 8)
    for o in outs:
        w = [e for e in o.st.events() if e[0] == 'call' and e[1] == 'write_text']
        ctx.require(len(w) == 1 and lin_eq(o.st.facts, w[0][2][1], name), 'effect', 'option o of vote names the output', 'main')
    ctx.require(len(outs) >= 1, 'effect', 'vote runs', 'main')


EFFECT = {'synctext': synctext, 'vote': vote}
