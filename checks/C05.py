"""C05: character accuracy reports round-trip and add up."""
from .common import *
from . import reports
from .C08 import classes, confs, FIELDS, path

RULE = ('write_accrpt is interpreted over arbitrary numbers; the lines it writes, as fixed lines and as the generic lines of its loops over character '
        'classes, confusions and characters (in every form a character is spelled), are the input of the interpretation of read_accrpt into a '
        'structure of arbitrary numbers: it must accept, consume every line, add each number written to the number of the same meaning, hand each '
        'confusion with its text and numbers to add_conf once, each character with its numbers to add_class once, and change nothing else. The loops '
        'write a row for each confusion and for exactly the characters with a positive count. add_class and add_conf add to exactly their counters. A '
        'file that lacks one of the lines up to the totals of operations, or has another kind of line there, must end in an error. accsum reads every '
        'report into one structure. Each percentage a line shows equals 100 times the part over the whole it stands with, algebraically, to two places; a dash only where the whole is not positive.')
ASSUME = ['numbers fit their columns of eight characters', 'the counts of the classes, characters and confusions are not negative (C08)',
          'a confusion is one line, and at most 60 characters (checked where accuracy builds it)',
          'fgets, sscanf, utf8proc_iterate, strcmp as documented', 'tables (C21), sorting (C30), spelling (C04: char_to_string is interpreted again here)', 'files (C22, C23)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; the grammar of the output of the writer composed with the reader'

TITLES = [b'ocreval Word Accuracy Report Version 7.0\n', b'ocreval Edit Operation Report Version 7.0\n', b'ocreval Acc\n', b'\n', b'UNLV-ISRI OCR Accuracy Report Version 5.1\n']
KEY_MAX = 60
LINES = dict(characters=2, errors=3, reject_characters=6, suspect_markers=7, false_marks=8, marked_ops=13, unmarked_ops=14, total_ops=15)


def run(ctx):
    P = ctx.program()
    classes(ctx, P)
    confs(ctx, P)
    roundtrip(ctx, P)
    ctx.P = None
    P = ctx.program('accsum')
    reports.sums(ctx, P, 'accsum', 'Accdata', 'read_accrpt', 'write_accrpt')


def key_token(t):
    return t[0] == 'str' and 'key' in repr(t[1])


def got(name):
    """a call of add_conf or add_class"""
    def p(I, fr, ins, st, a):
        f = st.facts
        v = [f.norm(x) for x in a]
        if name == 'conf':
            v[1] = tuple(libc.norm_tokens(libc.string_tokens(I, st, v[1])))
        return [(st.event('got', name, tuple(v), I.line(fr, ins)), None)]
    return p


def number_of(I, st, P, d, p):
    return load_at(I, st, d, P, *path(p)[0], *path(p)[1:])


def class_at(I, st, P, d, fld, i, k):
    off = P.off('Accdata', fld) + P.off('Accclass', k)
    return I.load(st, add(d, add(C(off), scale(i, P.sizeof('Accclass')))), 8, ir.Ty('int', 64), ('Accclass', list(P.fields['Accclass'][1]).index(k)))[0][1]


def kind_of(S, rows, I, P, data):
    """what the rows of a loop of the writer list"""
    for t, l in rows:
        if any(key_token(x) for x in l):
            return 'conf'
        if any(x[0] in ('u8', 'hex') for x in l):
            return 'class'
    return 'other'


def rows_complete(ctx, I, P, data, S, rows, kind):
    byt = {id(t): l for t, l in rows}
    if kind == 'conf':
        n = load_at(I, S.pre, data, P, 'Accdata', 'conftable', ('Table', 'count'))
        v = counted(S, ZERO, n)
    else:
        n = C(P.fields['Accdata'][1]['small_class'][1] // P.sizeof('Accclass'))
        v = counted(S, ZERO, n)
    what = dict(conf='confusions', **{'class': 'characters'})[kind]
    if v is None:
        ctx.fail('writing', 'all %s are gone through' % what, S)
        return
    i = V(v.sym)
    for t in S.trans():
        if not libc.consistent(t.facts):
            continue
        ctx.paths += 1
        f = t.facts
        l = byt.get(id(t))
        if kind == 'conf':
            arr = load_at(I, t.head, data, P, 'Accdata', 'conftable', ('Table', 'array'))
            row = I.load(t.head, add(arr, scale(i, 8)), 8, ir.Ty('ptr'), None)[0][1]
            want = [load_at(I, t.head, row, P, 'Conf', k) for k in ('errors', 'marked', 'key')]
            ok = l is not None and len(l) == 5 and l[0][0] == l[2][0] == 'int' and l[4][0] == 'str' and \
                all(same(f, a, b) for a, b in zip((l[0][3], l[2][3], l[4][1]), want))
            ctx.require(ok, 'writing', 'the row of a confusion holds its errors, those marked and its text (%s)' % show_toks(l or ()), S)
            continue
        c, m = (class_at(I, t.head, P, data, 'small_class', i, k) for k in ('count', 'missed'))
        for f, want in table(t.facts, lambda q: q.lt(ZERO, c)):
            if l is None:
                ctx.require(not want, 'writing', 'a character that occurs has its row', S)
                continue
            if not want:
                continue
            ok = len(l) > 4 and l[0][0] == l[2][0] == 'int' and same(f, l[0][3], c) and same(f, l[2][3], m)
            ctx.require(ok, 'writing', 'the row of a character holds its count and misses (%s)' % show_toks(l), S)


def same(f, a, b):
    return lin_eq(f, a, b) or norm_deep(f, a) == norm_deep(f, b)


def prims():
    return dict(add_conf=got('conf'), add_class=got('class'))


def roundtrip(ctx, P):
    W = ctx.interp(prims=dict(table_in_array=table_in_array_prim, sort=event_prim('sort', None), charclass_name=charclass_name_prim))
    W.range_hook = ranges(P)
    W.array_struct = 'Conftable'
    data, target = obj('written'), obj('sum')
    fn = 'read_accrpt'
    shapes = set()
    for o, g in reports.written(ctx, P, 'accrpt', 'write_accrpt', data, W, key_token):
        f0 = o.st.facts
        kinds = {}
        at = lambda *k: load_at(W, o.st, data, P, 'Accdata', *k)
        whole = at('characters')
        k = reports.percents(ctx, f0, g, [
            (b'Accuracy After Correction', sub(whole, at('unmarked_ops', ('Accops', 'errors'))), whole),
            (b'Accuracy', sub(whole, at('errors')), whole),
            (b'Characters Marked', add(at('reject_characters'), at('suspect_markers')), whole)], 'write_accrpt')
        ctx.require(k >= 3, 'percent', 'the accuracy, the part marked and the accuracy after correction are shown', 'write_accrpt')
        for k, i in enumerate(g.items):
            if i[0] == 'rows':
                kinds[k] = kind_of(i[1], i[2], W, P, data)
        for fld, kind in (('errors', 'conf'), ('characters', 'class')):
            n = number_of(W, o.st, P, data, (fld,))
            for f, want in table(f0, lambda q: q.lt(ZERO, n)):
                have = list(kinds.values()).count(kind)
                ctx.require(have == 1 if want else have <= 1, 'writing', 'a report of some %s lists %s' % (fld, 'the confusions' if kind == 'conf' else 'the characters'), 'write_accrpt')
        for k, kind in kinds.items():
            if kind != 'other':
                rows_complete(ctx, W, P, data, g.items[k][1], g.items[k][2], kind)
        first = not shapes
        sh = reports.shape(g)
        if sh in shapes and False:
            continue
        shapes.add(sh)
        I, name, outs = reports.reading(ctx, P, 'accrpt', fn, target, g, f0, prims())
        start = interp.State(Facts())
        ctx.require(bool(outs), 'roundtrip', 'a report is read', fn)
        for r in outs:
            ctx.paths += 1
            f = r.st.facts
            reports.room(ctx, r, fn, KEY_MAX)
            if not reports.accepted(ctx, r, name, g, fn):
                continue
            for p in FIELDS:
                want = add(number_of(I, start, P, target, p), number_of(W, start, P, data, p))
                have = number_of(I, r.st, P, target, p)
                ctx.require(lin_eq(f, have, want), 'roundtrip', '%s is added (%r)' % ('.'.join(p), have), fn)
            changes(ctx, I, W, P, r, data, target, g, kinds, fn)
        if first:
            others = {0: TITLES, 1: [b'\n', b'------\n']}
            for k, n in LINES.items():
                others[n] = [b'\n', b'Characters\n']
                if k.endswith('_ops'):
                    others[n] += [b'       1        2        3   Marked\n']
            reports.strictness(ctx, P, 'accrpt', fn, target, g, f0, prims(), None, others, 16)


def changes(ctx, I, W, P, r, data, target, g, kinds, fn):
    """besides the totals, each row of a confusion or a character is taken in once, nothing else changes"""
    b, _ = interp.base_of(target)
    ok = {P.off('Accdata', p[0]) + (P.off('Accops', p[1]) if len(p) > 1 else 0) for p in FIELDS}
    for e in r.st.entries():
        if e[0] in ('st', 'cp', 'str') and e[1] is b:
            ctx.require(e[2].const and e[2].c in ok, 'roundtrip', 'only the totals change besides the rows (%r)' % (e[2],), fn)
    ctx.require(not [e for e in r.st.events() if e[0] == 'got'], 'roundtrip', 'only rows of confusions and characters are taken in', fn)
    seen = set()
    for S in loops_of(r.st):
        for t in S.trans():
            if not libc.consistent(t.facts):
                continue
            ctx.paths += 1
            f = t.facts
            rows = [(kinds[e[1]], e[2]) for e in t.events if e[0] == 'line' and e[2] is not None and g.items[e[1]][0] == 'rows']
            rows = [x for x in rows if x[0] != 'other']
            calls = [e for e in t.events if e[0] == 'got']
            if [e for e in mem_since(t) if e[0] in ('st', 'cp', 'str') and e[1] is b]:
                ctx.fail('roundtrip', 'reading rows changes no totals', S)
            if not rows and not calls:
                continue
            if len(rows) != 1 or len(calls) != 1:
                ctx.fail('roundtrip', 'each row is taken in once (%d rows, %d times)' % (len(rows), len(calls)), S)
                continue
            kind, l = rows[0]
            _, name, a, _ = calls[0]
            seen.add(kind)
            if name != kind or not lin_eq(f, a[0], target):
                ctx.fail('roundtrip', 'a row is taken in as what it is (%s as %s)' % (kind, name), S)
                continue
            if not (l[0][0] == l[2][0] == 'int'):
                continue        # reported above
            if kind == 'conf':
                k = l[-1]
                good = same_word(f, a[1], (k,)) and same(f, a[2], l[0][3]) and same(f, a[3], l[2][3])
                ctx.require(good, 'roundtrip', 'the errors and marked errors of a confusion are added to those of the same confusion (%s)' % show_toks(a[1]), S)
            else:
                s0 = interp.State(f)
                c, m = (class_at(W, s0, P, data, 'small_class', a[1], x) for x in ('count', 'missed'))
                good = same(f, a[2], l[0][3]) and same(f, a[3], l[2][3]) and same(f, c, a[2]) and same(f, m, a[3])
                ctx.require(good, 'roundtrip', 'the count and misses of a character are added to those of the same character (%s read as %r)' % (show_toks(l[5:]), a[1]), S)
        for o in S.exits():
            hd = next(p.head for p in S.parts.values() if o in p.exits)
            if not libc.consistent(o.st.facts):
                continue
            for e in o.st.events(hd.ev):
                if e[0] == 'line' and e[2] is not None and g.items[e[1]][0] == 'rows' and kinds[e[1]] != 'other':
                    ctx.fail('roundtrip', 'every row is taken in (%s)' % o.kind, S)
            if o.kind == 'exit' and not dead(o):
                ctx.fail('roundtrip', 'a row that was written is accepted', S)
    ctx.require(seen >= {k for k in kinds.values() if k != 'other'}, 'roundtrip', 'the rows are read', fn)
