"""C13: listings have one documented order."""
from .common import *

RULE = ('Each listing function passes its whole table, put into an array first, to sort with a comparison whose sign table '
        '(every abstract path of the comparison) equals the documented order, and then prints the rows of that array in '
        'increasing index order; ustrcmp is a byte-wise unsigned comparison (inductive loop summary).')
ASSUME = ['sort orders by the comparison (C30)', 'keys within a table are distinct (C21)', 'strcmp compares bytes as unsigned (C11)',
          'distances are not NaN']
TECH = 'abstract interpretation of LLVM IR: sign decision tables of comparison functions, inductive loop summaries, sort/print call protocol'


def lexvar(ctx, S, elem, n, term):
    """loop variable i of a lexicographic scan: starts at 0, step 1, continues only while element i of both sides is equal"""
    for v, init, step in counters(S):
        if step != 1:
            continue
        i = sub(V(v.sym), init)
        ok = True
        for t in S.trans():
            x, y = elem(i, t)
            if t.facts.decide(sub(x, y), '==') is not True:
                ok = False
            if n is not None and t.facts.decide(add(sub(i, n), ONE), '<=') is not True:
                ok = False
            if term and t.facts.decide(x, '!=') is not True:
                ok = False
        if ok:
            return i
    return None


def ubyte(q, x):
    return x if q.le(ZERO, x) else add(x, C(256))


def check_ustrcmp(ctx):
    P = ctx.program()
    if 'ustrcmp' not in P.ext:
        return
    I = ctx.interp(zext_fork=True)
    a, b = arg('s1', ptr=True), arg('s2', ptr=True)
    outs = I.run('ustrcmp', [a, b])

    def bytes_at(i, t=None):
        return (V(atom(('ld', add(a, i), 1), None, -128, 127)), V(atom(('ld', add(b, i), 1), None, -128, 127)))

    def spec(q, o):
        ls = loops_of(o.st)
        if not ls:
            # a library comparison
            return cmp3(q, libc.strcmp_atom('strcmp', a, b), ZERO)
        i = lexvar(ctx, ls[-1], bytes_at, None, True)
        if i is None:
            return 'scan skips unequal or terminating bytes'
        x, y = bytes_at(i)
        r = cmp3(q, ubyte(q, x), ubyte(q, y))
        if r == 0 and q.nz(x):
            return 'stops before the strings differ or end'
        return r
    for o, f, got, want in sign_rows(outs, spec):
        ctx.paths += 1
        ctx.require(got == want, 'ustrcmp', 'ustrcmp gives sign %s, unsigned byte order %s, when %s' % (got, want, f.describe()), 'ustrcmp')


def field(P, base, st, fld, size=8, mod=None):
    return V(atom(('ld', add(base, C(P.off(st, fld))), size)))


def check_cmp(ctx, P, fnatom, args, spec, what, hook=None):
    _, mod, name = fnatom.key
    fn = P.modules[mod].functions[name] if mod else P.ext[name]
    I = ctx.interp(prims={'ustrcmp': p_ustrcmp})
    I.range_hook = hook
    outs = I.run(fn, args)
    for o, f, got, want in sign_rows(outs, spec):
        ctx.paths += 1
        ctx.require(got == want, 'order', '%s (%s): returns sign %s, documented order %s, when %s' % (
            what, name, got, want, f.describe()), name)


def key_cmp(P, st, x, y):
    kx, ky = field(P, x, st, 'key'), field(P, y, st, 'key')
    return lambda q, o=None: cmp3(q, libc.strcmp_atom('strcmp', kx, ky), ZERO)


def listing(ctx, P, fn, args, steps, setup=None, need=None, struct=None):
    """steps: list of (table address, struct of table, cmp checker) expected in order; every sorted table is then printed"""
    I = ctx.interp(prims=dict(CONTRACT, sort=event_prim('sort'), table_in_array=table_in_array_prim))
    I.array_struct = struct
    I.range_hook = ranges(P)
    outs = live(I.run(fn, args))
    seen = set()
    for o in outs:
        ctx.paths += 1
        ev = o.st.events()
        cur = None
        n = 0
        want = [s for s in steps if need is None or need(o, s)]
        printed = []
        for e in ev:
            if e[0] == 'call' and e[1] == 'sort':
                if n >= len(want):
                    ctx.fail('listing', 'a listing more than documented is sorted in %s' % fn, e[3])
                    break
                tab, st, chk, rowst = want[n]
                n += 1
                arr = None
                for x in ev[:ev.index(e)]:
                    if x[0] == 'in_array' and lin_eq(o.st.facts, x[1], tab):
                        arr = x[2]
                ctx.require(arr is not None and lin_eq(o.st.facts, e[2][1], arr), 'listing',
                            'the array that is sorted is the one made from the table (%r)' % (e[2][1],), e[3])
                ctx.require(lin_eq(o.st.facts, e[2][0], field(P, tab, st, 'count')), 'listing',
                            'all rows are sorted (%r)' % (e[2][0],), e[3])
                c = e[2][2].one()
                if c is None or c.key[0] != 'fn':
                    ctx.fail('listing', 'unknown comparison %r' % (e[2][2],), e[3])
                elif (c, id(chk)) not in seen:
                    seen.add((c, id(chk)))
                    chk(c)
                cur = (tab, st, arr, rowst)
                printed.append(0)
            elif e[0] == 'loop':
                S = e[1]
                for t in S.trans():
                    for x in t.events:
                        if x[0] != 'out':
                            continue
                        keys = [k for k in x[2] if k[0] == 'str']
                        if not keys or cur is None:
                            continue
                        tab, st, arr, rowst = cur
                        cnt = field(P, tab, st, 'count')
                        v = places(S, arr, 8, cnt) if arr is not None else None
                        ok = False
                        if v is not None:
                            row = V(atom(('ld', v, 8)))
                            ok = any(lin_eq(t.facts, k[1], field(P, row, rowst, 'key')) for k in keys)
                        if not ok and not any('array_of' in repr(a) or a.key[0] == 'ld' for k in keys for a in deep_atoms(k[1])):
                            continue
                        ctx.require(ok, 'print-order', 'rows are printed in increasing index order over the sorted array, all of them', S)
                        if ok:
                            printed[-1] += 1
        ctx.require(n == len(want), 'listing', 'each documented listing is sorted (%d of %d) in %s' % (n, len(want), fn), fn)
        # a printing loop may be skipped only when the table is empty
        for k, c in enumerate(printed):
            tab, st = want[k][:2]
            if c == 0:
                ctx.require(o.st.facts.decide(field(P, tab, st, 'count'), '<=') is True, 'print-order',
                            'the sorted rows are printed', fn)


def run(ctx):
    P = ctx.program()
    check_ustrcmp(ctx)
    r1, r2 = arg('row1', ptr=True), arg('row2', ptr=True)

    # accuracy reports
    def conf(c):
        def spec(q, o):
            for fl in ('errors', 'marked'):
                r = -cmp3(q, field(P, r1, 'Conf', fl), field(P, r2, 'Conf', fl))
                if r:
                    return r
            return key_cmp(P, 'Conf', r1, r2)(q)
        check_cmp(ctx, P, c, [r1, r2], spec, 'confusions')
    acc = arg('accdata', ptr=True)
    tab = add(acc, C(P.off('Accdata', 'conftable')))
    err = V(atom(('ld', add(acc, C(P.off('Accdata', 'errors'))), 8)))
    listing(ctx, P, 'write_accrpt', [acc, arg('filename', 0, ptr=True)], [(tab, 'Conftable', conf, 'Conf')],
            need=lambda o, s: o.st.facts.decide(err, '<=') is not True, struct='Conftable')

    # word accuracy reports
    def term(c):
        check_cmp(ctx, P, c, [r1, r2], lambda q, o: key_cmp(P, 'Term', r1, r2)(q), 'words of a report')
    wac = arg('wacdata', ptr=True)
    steps = []
    cond = {}
    tot = add(wac, C(P.off('Wacdata', 'total')))
    for tb, nums in (('stopword_table', 'stopword'), ('non_stopword_table', 'non_stopword')):
        t = add(wac, C(P.off('Wacdata', tb)))
        steps.append((t, 'Termtable', term, 'Term'))
        cond[t] = V(atom(('ld', add(wac, C(P.off('Wacdata', nums) + P.off('Wac', 'count'))), 8)))
    totc = V(atom(('ld', add(tot, C(P.off('Wac', 'count'))), 8)))
    listing(ctx, P, 'write_wacrpt', [wac, arg('filename', 0, ptr=True)], steps, struct='Termtable',
            need=lambda o, s: o.st.facts.decide(totc, '<=') is False and o.st.facts.decide(cond[s[0]], '<=') is False)

    # ngram
    ctx.P = None
    P = ctx.program('ngram')
    g = atom(('glob', '', 'n'), '@n', obj='global')
    n = V(atom(('ld', V(g), 2), None, -32768, 32767))
    voff = P.off('Sequence', 'value')

    def hook(tag, base, off, ty):
        if tag and tag[0] == 'Sequence' and tag[1] == list(P.fields['Sequence'][1]).index('value'):
            return (0, MAXCP)

    def elem(i, t=None):
        return tuple(V(atom(('ld', add(add(r, C(voff)), scale(i, 4)), 4), None, 0, MAXCP)) for r in (r1, r2))

    def by_value(q, o):
        ls = loops_of(o.st)
        i = lexvar(ctx, ls[-1], elem, n, False) if ls else None
        if i is None:
            return 'no scan over the code points'
        if q.lt(i, n):
            x, y = elem(i)
            r = cmp3(q, x, y)
            return r if r else 'stops before the sequences differ'
        return 0

    def value(c):
        check_cmp(ctx, P, c, [r1, r2], by_value, 'n-grams by value', hook)

    def count(c):
        def spec(q, o):
            for fl in ('count', 'suspect'):
                r = -cmp3(q, field(P, r1, 'Sequence', fl), field(P, r2, 'Sequence', fl))
                if r:
                    return r
            return by_value(q, o)
        check_cmp(ctx, P, c, [r1, r2], spec, 'n-grams by count', hook)
    tab = V(atom(('glob', '', 'seqtable'), '@seqtable', obj='global'))
    main_writer(ctx, P, 'ngram')
    listing(ctx, P, ctx.writer, [], [(tab, 'Seqtable', value, 'Sequence'), (tab, 'Seqtable', count, 'Sequence')], struct='Seqtable')

    # wordfreq
    ctx.P = None
    P = ctx.program('wordfreq')

    def key(c):
        check_cmp(ctx, P, c, [r1, r2], lambda q, o: key_cmp(P, 'Term', r1, r2)(q), 'words by key')

    def wcount(c):
        def spec(q, o):
            w = C(P.off('Term', 'wac') + P.off('Wac', 'count'))
            r = -cmp3(q, V(atom(('ld', add(r1, w), 8))), V(atom(('ld', add(r2, w), 8))))
            return r if r else key_cmp(P, 'Term', r1, r2)(q)
        check_cmp(ctx, P, c, [r1, r2], spec, 'words by count')
    tab = V(atom(('glob', '', 'termtable'), '@termtable', obj='global'))
    main_writer(ctx, P, 'wordfreq')
    listing(ctx, P, ctx.writer, [], [(tab, 'Termtable', key, 'Term'), (tab, 'Termtable', wcount, 'Term')], struct='Termtable')
    voters(ctx, r1, r2)


def main_writer(ctx, P, mod):
    """the function of the tool that sorts and prints: the outermost one on the call graph below main that reaches sort"""
    ctx.writer = reach_entry(P, mod, 'sort')


def voters(ctx, r1, r2):
    ctx.P = None
    P = ctx.program('vote')
    off = {k: v[0] for k, v in P.fields['Voter'][1].items()}

    def spec(q, o):
        d1, d2 = [V(atom(('ld', add(r, C(off['distance'])), 8), None, -INF, INF, None, True)) for r in (r1, r2)]
        r = fcmp3(q, d1, d2)
        if r:
            return r
        return cmp3(q, V(atom(('ld', add(r1, C(off['argnum'])), 2), None, -32768, 32767)),
                    V(atom(('ld', add(r2, C(off['argnum'])), 2), None, -32768, 32767)))

    def cspec(q, o):
        return cmp3(q, V(atom(('ld', r1, 8))), V(atom(('ld', r2, 8))))

    def gl(n):
        return V(atom(('glob', '', n), '@' + n, obj='global'))
    G = {n: gl(n) for n in ('voter', 'num_voters', 'actual_voters', 'input', 'optimize')}
    M = P.modules['vote']
    fn = reach_entry(P, 'vote', 'sort')
    I = ctx.interp(prims=dict(opaque(P, 'vote', ['voter', 'num_voters', 'actual_voters', 'input', 'optimize']), sort=event_prim('sort'),
                              table_in_array=event_prim('table_in_array')))
    opt = V(atom(('ld', G['optimize'], 1), None, -128, 127))
    nv = V(atom(('ld', G['num_voters'], 2), None, -32768, 32767))
    av = V(atom(('ld', G['actual_voters'], 2), None, -32768, 32767))
    st = interp.State(Facts())
    st = st.assume(sub(C(2), nv), '<=').assume(sub(nv, C(16)), '<=').assume(sub(C(2), av), '<=').assume(sub(av, nv), '<=')
    outs = live(I.run(fn, [], st))
    used = set()
    for o in outs:
        ctx.paths += 1
        ev = o.st.events()
        main = [e for e in ev if e[0] == 'call' and e[1] == 'sort']
        v = o.st.facts.decide(opt, '==')
        if v is True:
            ctx.require(not main, 'ranking', 'voters keep their argument order without optimisation', fn.name)
        else:
            ctx.require(v is False and len(main) == 1, 'ranking', 'optimised voting ranks the voters once', fn.name)
        for e in main:
            ctx.require(lin_eq(o.st.facts, e[2][0], nv) and lin_eq(o.st.facts, e[2][1], G['voter']), 'ranking',
                        'all voters are ranked (%r of %r)' % (e[2][0], e[2][1]), e[3])
            c = e[2][2].one()
            if c not in used:
                used.add(c)
                check_cmp(ctx, P, c, [r1, r2], spec, 'voters')
        # the texts take part in ranked order, after the ranking
        take = 0
        for k, e in enumerate(ev):
            if e[0] != 'loop':
                continue
            S = e[1]
            v = counted(S, ZERO, av)
            if v is None or any(x in main for x in ev[k:]):
                continue
            i = V(v.sym)
            vt = V(atom(('ld', add(G['voter'], scale(i, 8)), 8)))
            isz = P.fields['Text'][0]
            ok = bool(S.trans())
            for t in S.trans():
                want = copies(I, t.st, add(G['input'], scale(i, isz)), add(vt, C(off['text'])), isz)
                ok = ok and want
            take += ok
        ctx.require(take >= 1, 'ranking', 'the first voters of the ranking take part, in ranking order', fn.name)
    # medians sort counts upwards
    for f in M.functions.values():
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'call' and ins.a[0] == ('global', 'sort'):
                    cv = ins.a[1][2][1]
                    if cv[0] != 'global':
                        raise Unsupported('comparison passed to sort in %s is not a function' % f.name)
                    t = P.resolve(M, cv[1])
                    c = interp.fn_atom(t.module.name if t.internal else '', cv[1])
                    if c not in used:
                        used.add(c)
                        check_cmp(ctx, P, c, [r1, r2], cspec, 'median counts')
    ctx.require(len(used) >= 2, 'ranking', 'optimised voting sorts voters and counts', fn.name)
    argnums(ctx, P, off, G)


def copies(I, st, dst, src, n):
    """every word of [dst, dst+n) holds what was at [src, src+n)"""
    for k in range(0, n, 8):
        r = I.load(st, add(dst, C(k)), 8, ir.Ty('int', 64))
        if len(r) != 1 or r[0][1] is None or not lin_eq(st.facts, r[0][1], V(atom(('ld', add(src, C(k)), 8)))):
            return False
    return True


def argnums(ctx, P, off, G):
    """voter[i] is numbered i, in command line order"""
    fn = entry_below_main(P, 'vote', stores_field(P, 'Voter', 'argnum'), 'Voter.argnum')
    argc, argv = arg('argc', 0, 1 << 31), arg('argv', ptr=True)
    I = ctx.interp(prims=dict(opaque(P, 'vote', ['voter', 'num_voters', 'actual_voters', 'input', 'optimize']),
                              read_text=event_prim('read_text')))
    n = 0
    for o in live(I.run(fn, [argc, argv][:len(fn.params)])):
        if o.kind != 'ret':
            continue
        ok = False
        for S in loops_of(o.st):
            v = counted(S, ZERO, argc)
            if v is None:
                continue
            i = V(v.sym)
            good = bool(S.trans())
            for t in S.trans():
                ((s1, p),) = I.load(t.st, add(G['voter'], scale(i, 8)), 8, ir.PTR)
                ((s2, x),) = I.load(s1, add(p, C(off['argnum'])), 2, ir.Ty('int', 16))
                ((s3, y),) = I.load(s1, add(p, C(off['filename'])), 8, ir.PTR)
                good = good and lin_eq(t.facts, x, i) and lin_eq(t.facts, y, V(atom(('ld', add(argv, scale(i, 8)), 8))))
            ok = ok or good
        n += 1
        ctx.require(ok, 'argument-order', 'voter i is the one of argument i and is numbered i', fn.name)
    ctx.require(n > 0, 'argument-order', 'arguments are taken', fn.name)
