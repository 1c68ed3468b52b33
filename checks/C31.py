"""C31: stopword lists are honoured."""
import json
import os
from .common import *
from .C11 import reset_prim, closure

RULE = ('init_stopwords without a file enters each of the documented 110 words (the initialiser of the array it walks), with a file each word that '
        'find_words finds in it, read with case folded, once each under its own spelling, and nothing else; the entries outlive the word list. '
        'is_stopword says whether the table has an entry of exactly that key. wordacc hands its option to init_stopwords before it asks, reads '
        'the texts with case folded too, and enters each word of the correct text in the table is_stopword decides.')
ASSUME = ['tables behave (C21); find_words finds the words (C17); case folding of texts (C02, C03)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries; constant initialiser analysis'
DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'stopwords.json')


def run(ctx):
    P = ctx.program()
    words = sorted(json.load(open(DATA)))
    M = P.modules['stopword']
    for fn in ('init_stopwords', 'is_stopword'):
        if fn not in M.functions:
            raise Unsupported('anchor vanished: %s' % fn)
    table = entering(ctx, P, M, words)
    asking(ctx, P, M, table)
    folded(ctx, P, 'stopword')
    ctx.P = None
    wordacc(ctx)


def entering(ctx, P, M, words):
    prims = dict(table_lookup=lookup_prim, table_insert=insert_prim, read_text=reset_prim('read_text'), find_words=reset_prim('find_words'),
                 list_empty=reset_prim('list_empty'), warning_string=event_prim('warning'))
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    fn = arg('filename0', 0, ptr='null')
    tables = set()
    seen = {'file': 0, 'default': 0}
    flag = None
    for o in live(I.run('init_stopwords', [fn])):
        ctx.paths += 1
        f = o.st.facts
        ev = o.st.events()
        if o.kind == 'exit':
            ctx.require(any(e[0] == 'error' for e in ev) and not loops_of(o.st), 'init', 'init_stopwords ends the program only by an error', 'init_stopwords')
            ctx.require(reason(o), 'init', 'stopwords that were not initialised yet are accepted', 'init_stopwords')
            continue
        null = f.decide(fn, '==')
        if null is None:
            ctx.fail('init', 'the default list is used exactly when there is no file', 'init_stopwords')
            continue
        ls = loops_of(o.st)
        if len(ls) != 1:
            ctx.fail('init', 'the stopwords are entered one by one (%d loops)' % len(ls), 'init_stopwords')
            continue
        S = ls[0]
        lists = [e for e in ev if e[0] == 'lists']
        ctx.require(o.kind == 'ret' and all(x.kind == 'ret' or not reason(x) for x in live(I.run('is_stopword', [arg('string0', 1, ptr=True)], o.st))),
                    'init', 'stopwords can be asked for after they were initialised', 'init_stopwords')
        if null:
            seen['default'] += 1
            ctx.require(not lists, 'init', 'the default list needs no file', 'init_stopwords')
            key = default_words(ctx, I, P, M, S, words)
        else:
            seen['file'] += 1
            key = file_words(ctx, I, P, S, lists, ev, fn, f)
        ctx.require(not any(e[0] in ('lookup', 'insert') for e in ev), 'init', 'nothing else is entered', 'init_stopwords')
        if key is None:
            continue
        freed = [e for e in lists if e[1] == 'list_empty' and ev.index(e) > [i for i, e2 in enumerate(ev) if e2[0] == 'loop'][0]]
        for t in S.trans():
            entered(ctx, I, P, S, t, key(t), tables, not null and any(touches(e, 'Wordlist', P) for e in freed))
    ctx.require(seen['file'] > 0 and seen['default'] > 0, 'init', 'both kinds of stopword lists are handled', 'init_stopwords')
    ctx.require(len(tables) == 1, 'init', 'there is one table of stopwords (%s)' % tables, 'init_stopwords')
    return next(iter(tables)) if len(tables) == 1 else None


def touches(e, struct, P):
    a = e[2].one()
    if a is None or a.key[0] != 'glob':
        return True
    m = P.modules.get(a.key[1]) if a.key[1] else None
    d = (m or P.modules['stopword']).globals.get(a.key[2])
    return d is None or struct in repr(d['ty'])


def reason(o):
    """the error is because of a variable of the module that says so (the initialised flag is set)"""
    for a, d in o.st.facts.dom.items():
        if a.key[0] == 'ld' and interp.base_of(a.key[1])[0] is not None and interp.base_of(a.key[1])[0].key[0] == 'glob' and not is_contains(d, 0):
            return True
    return False


def default_words(ctx, I, P, M, S, words):
    """the loop goes over an array of strings: exactly the documented ones"""
    arrs = {}
    for g, d in M.globals.items():
        w = strings_of(M, d)
        if w is not None and len(w) > 5:
            arrs[g] = w
    hits = []
    for t in S.trans():
        for e in t.events:
            if e[0] == 'lookup':
                hits.append((t, e[2]))
    if not hits:
        ctx.fail('default', 'each default stopword is entered', S)
        return None
    res = {}
    w = written_globals(P, 'stopword')
    for t, k in hits:
        p = k[0][1] if len(k) == 1 and k[0][0] == 'str' else None
        a = p.one() if p is not None else None
        base = None
        if a is not None and a.key[0] == 'ld':
            r = steps(S, t.facts, a.key[1])
            if r is not None and r[1] == 8:
                ib, io = interp.base_of(r[0])
                base = ib.key[2] if ib is not None and ib.key[0] == 'glob' and S.pre.facts.value(io) == 0 else None
        if base is None or base not in arrs:
            ctx.fail('default', 'the default stopwords are taken from a list of words, each once (%s)' % show_toks(k), S)
            return None
        got = sorted(arrs[base])
        ctx.require(base not in w, 'default', 'the list of default stopwords is not changed', base)
        n = len(got)
        missing, extra = sorted(set(words) - set(got)), sorted(set(got) - set(words))
        ctx.require(not missing and not extra and n == len(words), 'default',
                    'the default stopwords are the documented 110 (missing %s, added %s, %d entries)' % (missing[:5], extra[:5], n), base)
        ctx.require(times(S, C(n)), 'default', 'each of the %d default stopwords is entered' % n, S)
        res[id(t)] = k
    return lambda t: res.get(id(t))


def strings_of(M, d):
    """the strings of an array of constant strings"""
    if d['ty'] is None or d['ty'].k != 'arr' or d['init'] is None or d['init'][0] != 'agg':
        return None
    out = []
    for v in agg(d['init']):
        g = addr_of(v) if v[0] in ('global', 'ce') else None
        s = M.globals[g]['init'] if g in M.globals else None
        if s is None or s[0] != 'bytes' or not M.globals[g]['const']:
            return None
        out.append(s[1].rstrip(b'\0').decode('latin-1'))
    return out


def file_words(ctx, I, P, S, lists, ev, fn, f):
    fill = [e for e in lists if e[1] in ('read_text', 'find_words')]
    names = [e[1] for e in lists]
    ok = names[:2] == ['read_text', 'find_words'] == [e[1] for e in fill] and lin_eq(f, fill[0][3][1], fn) and lin_eq(f, fill[1][3][1], fill[0][3][0])
    before = [e for e in ev if e[0] in ('loop', 'lists')]
    ok = ok and before.index(fill[1]) < next(i for i, e in enumerate(before) if e[0] == 'loop')
    at = {id(e): i for i, e in enumerate(ev)}
    loop = next(i for i, e in enumerate(ev) if e[0] == 'loop')
    ok = ok and not any(e[1] == 'list_empty' and at[id(e)] < loop and lin_eq(f, e[2], fill[1][3][0]) and at[id(e)] > at[id(fill[1])] for e in lists)
    ctx.require(ok, 'file', 'the named file is read and its words are found', 'init_stopwords')
    if not ok:
        return None
    wl = fill[1][3][0]
    w = walk_var(S, P.off('Word', 'next'))
    if w is None:
        ctx.fail('file', 'the words of the file are walked one after the other', S)
        return None
    ctx.require(lin_eq(S.pre.facts, w.init, load_at(I, S.pre, wl, P, 'Wordlist', 'first')), 'file', 'the walk starts with the first word', S)
    for x in S.exits():
        ctx.require(dead(x) or fatal(S, x) or x.st.facts.decide(V(w.sym), '==') is True, 'file', 'the walk ends with the last word', S)
    s = V(atom(('ld', add(V(w.sym), C(P.off('Word', 'string'))), 8)))
    return lambda t: (('str', s, 0, '', None),)


def entered(ctx, I, P, S, t, key, tables, freed):
    f = t.facts
    lk = [e for e in t.events if e[0] == 'lookup']
    ins = [e for e in t.events if e[0] == 'insert']
    known = [e for e in lk if f.value(e[3]) != 0]
    for e in lk + ins:
        tables.add(e[1])
    if known:
        ctx.require(not ins and same_word(f, known[0][2], key), 'enter', 'a stopword that is there already is not entered again', S)
        return
    ok = len(ins) == 1
    if ok:
        e = ins[0][2]
        b, o = interp.base_of(f.norm(e))
        k = load_at(I, t.st, e, P, 'Stopword', 'key')
        toks = libc.string_tokens(I, t.st, k) if k is not None else None
        ok = b is not None and b.obj == 'heap' and toks is not None and same_word(f, toks, key)
        if ok and freed:
            kb, _ = interp.base_of(f.norm(k))
            ctx.require(kb is not None and kb.obj == 'heap', 'enter', 'stopwords outlive the word list', S)
    ctx.require(ok, 'enter', 'each stopword is entered once under its own spelling', S)


def asking(ctx, P, M, table):
    prims = dict(table_lookup=lookup_prim, table_insert=insert_prim)
    I = ctx.interp(prims=prims)
    s = arg('string', 1, ptr=True)
    n = 0
    for o in live(I.run('is_stopword', [s])):
        ctx.paths += 1
        f = o.st.facts
        ev = o.st.events()
        if o.kind == 'exit':
            ctx.require(any(e[0] == 'error' for e in ev), 'ask', 'is_stopword ends the program only by an error', 'is_stopword')
            continue
        n += 1
        lk = [e for e in ev if e[0] == 'lookup']
        ok = len(lk) == 1 and (table is None or lin_eq(f, lk[0][1], table)) and same_word(f, lk[0][2], (('str', s, 0, '', None),)) and \
            not any(e[0] == 'insert' for e in ev)
        ctx.require(ok, 'ask', 'the word itself is looked up among the stopwords', 'is_stopword')
        if ok:
            want = f.value(lk[0][3]) != 0
            got = f.decide(o.val, '!=')
            ctx.require(got is want, 'ask', 'is_stopword is %s when the word is %sfound' % (o.val, '' if want else 'not '), 'is_stopword')
    ctx.require(n >= 2, 'ask', 'is_stopword answers', 'is_stopword')


def textopts(P, mod):
    """Textopt variables of the module: name -> dict(field -> int)"""
    out = {}
    fs = list(P.fields['Textopt'][1])
    for g, d in P.modules[mod].globals.items():
        if d['ty'] is not None and repr(d['ty']) == '%struct.Textopt' and not d['external']:
            out[g] = d
    return out, fs


def folded(ctx, P, mod):
    out, fs = textopts(P, mod)
    if not out:
        raise Unsupported('anchor vanished: the text options of %s' % mod)
    for g, d in out.items():
        init = d['init']
        k = fs.index('case_insensitive')
        v = const_field(init, k)
        ctx.require(v not in (None, 0), 'fold', 'texts are read with case folded in %s (%r)' % (mod, v), g)
    full = P.modules[mod]
    for f in full.functions.values():
        for t, ins in store_tags(P, full, f):
            if t and t[0] == 'Textopt':
                i = t[1][1] if isinstance(t[1], tuple) else t[1]
                ctx.require(i != fs.index('case_insensitive'), 'fold', 'case folding is not switched', f.name)


def const_field(init, k):
    r = agg(init)
    return 0 if r is None else 0 if r[k][0] == 'zero' else r[k][1] if r[k][0] == 'int' else None


def wordacc(ctx):
    P = ctx.program('wordacc')
    folded(ctx, P, 'wordacc')
    M = P.modules['wordacc']
    g = callgraph(P)
    # main: the option reaches init_stopwords, before any word is asked for
    prims = dict(initialize=initialize_prim, init_stopwords=event_prim('init_stopwords'))
    for y in g[('wordacc', 'main')]:
        if y[0] == 'wordacc':
            prims[y] = event_prim(y[1], None)
    prims['write_wacrpt'] = event_prim('write_wacrpt')
    I = ctx.interp(prims=prims)
    asks = {y for y in g[('wordacc', 'main')] if any(x[1] == 'is_stopword' for x in closure(g, y))}
    opt = option_target(P, 'wordacc', 'S')
    if opt is None:
        ctx.fail('option', 'option S names the stopword file', 'wordacc')
        return
    val = V(atom(('ld', V(atom(('glob', '', opt), '@' + opt, obj='global')), 8)))
    n = 0
    for o in live(I.run(M.functions['main'], [arg('argc0', 0), arg('argv', 1, ptr=True)])):
        ev = [e for e in o.st.events() if e[0] == 'call']
        names = [e[1] for e in ev]
        if any(e[0] == 'error' for e in o.st.events()):
            continue
        n += 1
        ini = [e for e in ev if e[1] == 'init_stopwords']
        ok = len(ini) == 1 and lin_eq(o.st.facts, ini[0][2][0], val)
        ctx.require(ok, 'option', 'init_stopwords gets the file of option S (%s)' % (ini[0][2] if ini else None,), 'main')
        pos = [names.index(y[1]) for y in asks if y[1] in names]
        ctx.require(ok and pos and all(p > names.index('init_stopwords') for p in pos), 'option', 'stopwords are initialised before words are asked for', 'main')
    ctx.require(n >= 1, 'option', 'wordacc runs', 'main')
    # classification
    entry = reach_entry(P, 'wordacc', 'is_stopword')

    def ask(I, fr, ins, st, a):
        k = tuple(libc.norm_tokens(libc.string_tokens(I, st, a[0])))
        return [(st.event('ask', k, 0), ZERO), (st.event('ask', k, 1), ONE)]
    prims = dict(table_lookup=lookup_prim, table_insert=insert_prim, is_stopword=ask, table_in_array=table_in_array_prim)
    I = ctx.interp(prims=prims)
    I.array_struct = 'Termtable'
    I.range_hook = ranges(P)
    outs = live(I.run(entry, [arg('a%d' % i) for i in range(len(entry.params))]))
    seen = set()
    so, no = P.off('Wacdata', 'stopword_table'), P.off('Wacdata', 'non_stopword_table')
    k = 0
    for o in outs:
        for S in loops_of(o.st):
            if S.lid in seen:
                continue
            seen.add(S.lid)
            for t in S.trans():
                ev = [e for e in t.events if e[0] in ('ask', 'lookup')]
                if not ev:
                    continue
                k += 1
                ok = [e[0] for e in ev] == ['ask', 'lookup'] and same_word(t.facts, ev[0][1], ev[1][2])
                if ok:
                    b, off = interp.base_of(t.facts.norm(ev[1][1]))
                    ok = t.facts.value(off) == (so if ev[0][2] else no)
                ctx.require(ok, 'classify', 'a word is entered in the table is_stopword decides (%s)' % (ev,), S)
    ctx.require(k >= 2, 'classify', 'words are classified', entry.name)
