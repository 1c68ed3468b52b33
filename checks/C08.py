"""C08: the accounting of the character accuracy report is consistent."""
from .common import *
from .C11 import one_global, glob, counted_once
from .C29 import reader, startup, arg_at

RULE = ('main of accuracy is interpreted over an arbitrary alignment: the generic iteration over the segments counts, by inner loops over exactly the '
        'characters of the segment, the correct characters C other than the wild-card (each handed to add_class once, missed exactly when the segment '
        'is unmatched), the wild-cards W, the reject characters R and the other suspect characters M of the output; the difference it makes to each of '
        'the 17 totals of the report equals the specification: matched: characters C, rejects R, suspects M, false marks M; unmatched, with '
        'g = max(0, length - W) and e = max(C, g) > 0: additionally errors e, and ins max(0, C-g), subst min(C, g), del max(0, g-C), errors e in '
        'the total row and in the marked row (when R+M > 0) or the unmarked row, and one confusion of e errors, all or none of them marked. '
        'add_class changes exactly the three class counters of the character, add_conf exactly the entry of its key. The text files, the alignment and the report are the ones used.')
ASSUME = ['the segments of an alignment partition the texts and have the lengths they state (C14)', 'tables (C21), character classes (C26)',
          'counts stay below 2^63']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; per-iteration effect comparison with a decision table'

ROWS = ('marked_ops', 'unmarked_ops', 'total_ops')
FIELDS = [('characters',), ('errors',), ('reject_characters',), ('suspect_markers',), ('false_marks',)] + \
    [(r, k) for r in ROWS for k in ('ins', 'subst', 'del', 'errors')]


def path(p):
    return [(('Accdata'), p[0])] if len(p) == 1 else [('Accdata', p[0]), ('Accops', p[1])]


class T0:
    """straight-line code as one step"""

    def __init__(self, head, o):
        self.head, self.st, self.facts, self.events = head, o.st, o.st.facts, o.st.events()


def run(ctx):
    P = ctx.program('accuracy')
    classes(ctx, P)
    confs(ctx, P)
    report(ctx, P)


def classes(ctx, P):
    fn = P.modules['accrpt'].functions.get('add_class')
    if fn is None or len(fn.params) != 4:
        raise Unsupported('anchor vanished: add_class')
    I = ctx.interp(prims=dict(CONTRACT))
    I.range_hook = ranges(P)
    acc = obj('accdata', P.sizeof('Accdata'))
    val, cnt, mis = arg('value', 0, MAXCP), arg('count'), arg('missed')
    el, total = P.sizeof('Accclass'), P.off('Accdata', 'total_class')
    large, small = P.off('Accdata', 'large_class'), P.off('Accdata', 'small_class')
    n = P.fields['Accdata'][1]['large_class'][1] // el
    cls = V(atom(('charclass', val), None, 0, 255))
    for o in live(I.run(fn, [acc, val, cnt, mis])):
        ctx.paths += 1
        f = o.st.facts
        ctx.require(o.kind == 'ret', 'classes', 'add_class returns', fn.name)
        want = []
        for where, idx in ((large, cls), (total, ZERO), (small, val)):
            for k, d in (('count', cnt), ('missed', mis)):
                want.append((add(C(where + P.off('Accclass', k)), scale(idx, el)), d))
        got = {}
        s0 = interp.State(Facts())
        ok = True
        for e in reversed(list(o.st.entries())):
            if e[0] == 'st' and e[1] is interp.base_of(acc)[0]:
                hit = [k for k, (a, d) in enumerate(want) if lin_eq(f, e[2], a)]
                if len(hit) != 1 or hit[0] in got:
                    ok = False
                    continue
                was = I.load(s0, add(acc, want[hit[0]][0]), 8, ir.Ty('int', 64), ('Accclass', hit[0] % 2))
                got[hit[0]] = e
                ok = ok and len(was) == 1 and lin_eq(f, e[4], add(was[0][1], want[hit[0]][1]))
            elif e[0] in ('st', 'cp', 'hv', 'str') and e[1].obj not in ('local', 'alloca'):
                ok = False
        ctx.require(ok and len(got) == 6, 'classes', 'the class, the total and the character go up by the given numbers, and nothing else changes', fn.name)


def confs(ctx, P):
    fn = P.modules['accrpt'].functions.get('add_conf')
    if fn is None or len(fn.params) != 4:
        raise Unsupported('anchor vanished: add_conf')
    I = ctx.interp(prims=dict(table_lookup=lookup_prim, table_insert=insert_prim))
    I.range_hook = ranges(P)
    acc = obj('accdata', P.sizeof('Accdata'))
    key, err, mk = arg('key', 1, ptr=True), arg('errors'), arg('marked')
    tab = add(acc, C(P.off('Accdata', 'conftable')))
    s0 = interp.State(Facts())
    for o in live(I.run(fn, [acc, key, err, mk], s0)):
        if o.kind == 'exit':
            continue
        ctx.paths += 1
        r = counted_once(ctx, I, P, fn.name, T0(s0, o), tab, 'Conf', [(('errors',), err), (('marked',), mk)], 'confusion')
        if r is not None:
            ctx.require(same_word(o.st.facts, r[1], (('str', key, 0, '', None),)), 'count', 'a confusion counts under its key', fn.name)


def event_conf(I, fr, ins, st, a):
    return [(st.event('conf', tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), None)]


def event_class(I, fr, ins, st, a):
    return [(st.event('class', tuple(st.facts.norm(x) for x in a), I.line(fr, ins)), None)]


def align(name):
    def p(I, fr, ins, st, a):
        f = st.facts
        b, o = interp.base_of(f.norm(a[0]))
        st = st.event('read', name, tuple(f.norm(x) for x in a), I.line(fr, ins))
        return [(st.put(('hv', ('read', name), ('base', b))), None)]
    return p


def report(ctx, P):
    prims = dict(initialize=initialize_prim, char_to_string=spell_prim, add_class=event_class, add_conf=event_conf,
                 read_text=event_prim('read_text', None), fastukk_sync=align('align'), write_accrpt=event_prim('write', None))
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    argv = arg('argv', 1, ptr=True)
    argc = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))
    acc = one_global(P, 'accuracy', 'Accdata')
    tx = [g for g, d in P.modules['accuracy'].globals.items() if repr(d['ty']) == '[2 x %struct.Text]']
    if len(tx) != 1:
        raise Unsupported('anchor vanished: the two texts of accuracy')
    text = [add(glob(tx[0]), C(k * P.sizeof('Text'))) for k in (0, 1)]
    n = 0
    for o in live(I.run(P.modules['accuracy'].functions['main'], [arg('argc0', 0), argv])):
        f = o.st.facts
        if not possible(I, o, argv, argc):
            continue
        ev = unfold(o.st.events(), lambda e: e[0] == 'call' and e[1] == 'read_text')
        if o.kind == 'exit' and any(e[0] == 'error' for e in ev):
            ctx.require(not any(e[0] == 'call' and e[1] == 'write' for e in flat(ev)), 'files', 'no report is written after an error', 'main')
            continue
        n += 1
        ctx.paths += 1
        kinds = [e[1] for e in ev if e[0] in ('call', 'read') and e[1] in ('read_text', 'align', 'write')]
        ok = kinds == ['read_text', 'read_text', 'align', 'write']
        if ok:
            rd = [e for e in ev if e[0] == 'call' and e[1] == 'read_text']
            wr = [e for e in ev if e[0] == 'call' and e[1] == 'write'][0]
            al = [e for e in ev if e[0] == 'read'][0]
            three = f.decide(sub(argc, C(3)), '==')
            ok = all(lin_eq(f, rd[k][2][0], text[k]) and lin_eq(f, rd[k][2][1], arg_at(I, o.st, argv, k)) for k in (0, 1)) and \
                lin_eq(f, al[2][1], text[0]) and lin_eq(f, wr[2][0], acc) and three is not None and \
                lin_eq(f, wr[2][1], arg_at(I, o.st, argv, 2) if three else ZERO)
        ctx.require(ok, 'files', 'the two files are read, aligned, and the report is written (%s)' % kinds, 'main')
        if not ok:
            continue
        # the segments are gone through between alignment and report
        pos = {id(e): k for k, e in enumerate(ev)}
        ls = [e for e in ev if e[0] == 'loop' and any(x[0] in ('class', 'conf') for x in flat([e]))]
        if len(ls) != 1 or not pos[id(al)] < pos[id(ls[0])] < pos[id(wr)]:
            ctx.fail('segments', 'the segments are gone through once, after the alignment and before the report is written (%d loops)' % len(ls), 'main')
            continue
        ctx.require(not [e for e in ev if e[0] in ('class', 'conf')], 'segments', 'only segments are counted', 'main')
        segments(ctx, I, P, ls[0][1], al[2][0], acc, text)
        for e in ev:
            if e[0] == 'loop' and e is not ls[0]:
                for t in e[1].trans():
                    for p in FIELDS:
                        ctx.require(lin_eq(t.facts, load_at(I, t.st, acc, P, 'Accdata', *path(p)), load_at(I, t.head, acc, P, 'Accdata', *path(p))),
                                    'segments', 'only segments are counted', e[1])
        # what was counted is what is written: nothing else touches the totals
        for p in FIELDS:
            a, b = load_at(I, o.st, acc, P, 'Accdata', *path(p)), after(I, P, ls[0][1], acc, p)
            ctx.require(b is None or any(lin_eq(f, a, x) for x in b), 'segments', 'the %s are not changed apart from the segments (%r)' % ('.'.join(p), a), 'main')
    ctx.require(n >= 1, 'files', 'main of accuracy writes a report', 'main')


def after(I, P, S, acc, p):
    """the total at the exits of the loop"""
    return [load_at(I, o.st, acc, P, 'Accdata', *path(p)) for o in S.exits() if not dead(o) and not fatal(S, o)]


def segments(ctx, I, P, S, synclist, acc, text):
    nx = P.off('Sync', 'next')
    w = walk_var(S, nx)
    if w is None:
        ctx.fail('segments', 'the segments are gone through one after the other', S)
        return
    ctx.require(lin_eq(S.pre.facts, w.init, load_at(I, S.pre, synclist, P, 'Synclist', 'first')), 'segments', 'the walk starts with the first segment', S)
    for o in S.exits():
        ctx.require(dead(o) or fatal(S, o) or o.st.facts.decide(V(w.sym), '==') is True, 'segments', 'the walk ends with the last segment', S)
    for t in S.trans():
        ctx.paths += 1
        segment(ctx, I, P, S, t, V(w.sym), acc, text)


def part_of(I, P, st, sync, k, fld):
    arr = load_at(I, st, sync, P, 'Sync', 'substr')
    return load_at(I, st, add(arr, C(k * P.sizeof('Substr'))), P, 'Substr', fld)


def deltas(S, v, pred, traits):
    """the variable starts at zero and goes up by one exactly for the characters with that trait"""
    if v.sym is None or v.tmpl or S.pre.facts.value(v.init) != 0:
        return False
    for t in S.trans():
        q = traits[id(t)]
        if q is None:
            return False
        for f, want in table(t.facts, lambda o: pred(o, q)):
            if not lin_eq(f, sub(t.nxt[v], V(v.sym)), ONE if want else ZERO):
                return False
    return bool(S.trans())


def segment(ctx, I, P, S, t, sync, acc, text):
    f = t.facts
    match = load_at(I, t.head, sync, P, 'Sync', 'match')
    preds = dict(C=(0, lambda o, q: not o.eq(q[0], 126)), W=(0, lambda o, q: o.eq(q[0], 126)),
                 R=(1, lambda o, q: o.eq(q[0], 126)), M=(1, lambda o, q: not o.eq(q[0], 126) and o.nz(q[1])),
                 RM=(1, lambda o, q: o.eq(q[0], 126) or o.nz(q[1])))
    val = {}
    facts = f
    counted_cls = 0
    for e in t.events:
        if e[0] == 'class':
            ctx.fail('characters', 'only the characters of the segment are counted', S)
            return
        if e[0] != 'loop':
            continue
        L = e[1]
        cls = any(x[0] == 'class' for x in flat(L.events if hasattr(L, 'events') else [e]))
        over = []
        for k in (0, 1):
            lo, hi = part_of(I, P, t.head, sync, k, 'start'), add(part_of(I, P, t.head, sync, k, 'stop'), ONE)
            v = counted(L, lo, hi)
            if v is not None:
                over.append((k, v, sub(hi, lo)))
        for k, v, n in over:
            traits = {}
            for x in L.trans():
                c = I.load(x.head, add(load_at(I, x.head, text[k], P, 'Text', 'array'), scale(V(v.sym), 8)), 8, ir.PTR)[0][1]
                traits[id(x)] = (load_at(I, x.head, c, P, 'Char', 'value'), load_at(I, x.head, c, P, 'Char', 'suspect'))
            for name, (kk, pr) in preds.items():
                if kk != k:
                    continue
                for u in L.vars:
                    if name not in val and deltas(L, u, pr, traits):
                        val[name] = V(u.sym)
            if k == 0:
                val.setdefault('N', n)
            if cls and k == 0:
                counted_cls += 1
                for x in L.trans():
                    cl = [y for y in flat(x.events) if y[0] == 'class']
                    q = traits[id(x)]
                    for g, want in table(x.facts, lambda o: (preds['C'][1](o, q), o.nz(match))):
                        if not want[0]:
                            ctx.require(not cl, 'characters', 'a wild-card is not counted', L)
                        else:
                            ctx.require(len(cl) == 1 and lin_eq(g, cl[0][1][0], acc) and lin_eq(g, cl[0][1][1], q[0]) and lin_eq(g, cl[0][1][2], ONE) and
                                        lin_eq(g, cl[0][1][3], ZERO if want[1] else ONE), 'characters',
                                        'each correct character counts once, missed exactly when the segment is unmatched', L)
        if cls and not any(k == 0 for k, v, n in over):
            ctx.fail('characters', 'the characters of the correct text in the segment are counted, each once', L)
            return
    if counted_cls != 1:
        ctx.fail('characters', 'the characters of the correct text in the segment are counted, each once', S)
        return
    # numbers that the code does not keep follow from those it keeps
    if 'C' in val and 'W' in val and 'N' in val:
        g = facts.assume(sub(add(val['C'], val['W']), val['N']), '==')
        if g is None:
            return
        facts = g
    elif 'C' in val and 'N' in val:
        val['W'] = sub(val['N'], val['C'])
    elif 'W' in val and 'N' in val:
        val['C'] = sub(val['N'], val['W'])
    if 'RM' in val:
        if 'R' in val and 'M' not in val:
            val['M'] = sub(val['RM'], val['R'])
        elif 'M' in val and 'R' not in val:
            val['R'] = sub(val['RM'], val['M'])
    for k, what in (('C', 'correct characters'), ('W', 'wild-cards'), ('R', 'reject characters'), ('M', 'suspect characters')):
        if k not in val:
            ctx.fail('numbers', 'the %s of the segment are counted' % what, S)
            return
    length = part_of(I, P, t.head, sync, 1, 'length')
    g = facts.assume(sub(length, add(sub(part_of(I, P, t.head, sync, 1, 'stop'), part_of(I, P, t.head, sync, 1, 'start')), ONE)), '==')
    if g is None:
        return
    facts = g
    for k in ('C', 'W', 'R', 'M'):
        g = facts.assume(scale(val[k], -1), '<=')
        if g is None:
            return
        facts = g
    Cc, W, R, M = (val[k] for k in 'CWRM')

    def spec(q):
        d = {p: ZERO for p in FIELDS}
        d[('characters',)] = Cc
        d[('reject_characters',)] = R
        d[('suspect_markers',)] = M
        if q.nz(match):
            d[('false_marks',)] = M
            return d, None
        g = sub(length, W) if q.lt(W, length) else ZERO
        e = g if q.lt(Cc, g) else Cc
        if q.le(e, ZERO):
            return d, None
        marked = q.lt(ZERO, add(R, M))
        d[('errors',)] = e
        less = q.lt(Cc, g)
        ops = (ZERO if less else sub(Cc, g), Cc if less else g, sub(g, Cc) if less else ZERO, e)
        for r in ('total_ops', 'marked_ops' if marked else 'unmarked_ops'):
            for k, x in zip(('ins', 'subst', 'del', 'errors'), ops):
                d[(r, k)] = x
        return d, (e, e if marked else ZERO)
    cf = [e for e in flat(t.events) if e[0] == 'conf']
    for g, (d, conf) in table(facts, spec):
        for p in FIELDS:
            now, was = load_at(I, t.st, acc, P, 'Accdata', *path(p)), load_at(I, t.head, acc, P, 'Accdata', *path(p))
            ctx.require(now is not None and lin_eq(g, now, add(was, d[p])), 'numbers', '%s goes up by %r (%r to %r)' % ('.'.join(p), g.norm(d[p]), was, now), S)
        if conf is None:
            ctx.require(not cf, 'confusions', 'only an unmatched stretch with errors is a confusion', S)
        else:
            ctx.require(len(cf) == 1 and lin_eq(g, cf[0][1][0], acc) and lin_eq(g, cf[0][1][2], conf[0]) and lin_eq(g, cf[0][1][3], conf[1]), 'confusions',
                        'an unmatched stretch is one confusion of all its errors, marked as a whole or not at all (%s)' % [e[1] for e in cf], S)
