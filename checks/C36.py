"""C36: every tool takes its texts in the way they are meant."""
from .common import *
from .C12 import glob_base
from .C25 import entries

RULE = ('main of every tool that reads texts (and init_stopwords) is interpreted from its real initial settings down to each call of read_text, which is recorded '
        'with the settings in force at that moment; functions that read no text are opaque. Texts that are compared, voted on or counted are read with '
        'the header skipped, markers interpreted and spacing normalised; the character list of groupacc without a header, the word lists of '
        'nonstopacc and of stopwords without header and markers; case is folded for words and, in synctext, exactly when its option says so. '
        'The marker is the standard one. accuracy, editop and wordacc end with an error when the first text had a header, before they read the second, '
        'and accept it otherwise.')
ASSUME = ['read_text does what its settings say (C01, C02, C03)', 'options set their settings (C25)']
TECH = 'abstract interpretation of LLVM IR (constant propagation of the settings to every call of read_text, path-wise)'

F3 = ('find_header', 'find_markers', 'normalize', 'case_insensitive')
WANT = {
    'accuracy': (1, 1, 1, 0), 'editop': (1, 1, 1, 0), 'vote': (1, 1, 1, 0), 'ngram': (1, 1, 1, 0), 'synctext': (1, 1, 1, 'i'),
    'wordacc': (1, 1, 1, 1), 'wordfreq': (1, 1, 1, 1), 'groupacc': (0, 1, 1, 0), 'nonstopacc': (0, 0, 1, 1), 'stopword': (0, 0, 1, 1)}
WORDS = {'find_header': 'a header is %sskipped', 'find_markers': 'markers are %sinterpreted', 'normalize': 'spacing is %snormalised',
         'case_insensitive': 'case is %sfolded'}
REFUSE = ('accuracy', 'editop', 'wordacc')


def run(ctx):
    for mod in sorted(WANT):
        ctx.P = None
        P = ctx.program() if mod == 'stopword' else ctx.program(mod)
        try:
            tool(ctx, P, mod)
        except Unsupported as e:
            raise Unsupported('%s: %s' % (mod, e))


def tool(ctx, P, mod):
    M = P.modules[mod]
    main = 'init_stopwords' if mod == 'stopword' else 'main'
    if main not in M.functions:
        raise Unsupported('anchor vanished: %s' % main)
    g = callgraph(P)

    def reads(x, seen):
        if x in seen:
            return False
        seen.add(x)
        return x[1] == 'read_text' or (x[0] == mod and any(reads(y, seen) for y in g.get(x, ())))
    fs = P.fields['Textopt'][1]
    found = P.off('Textopt', 'found_header')
    size = {k: fs[k][1] for k in fs}

    def read(I, fr, ins, st, a):
        f = st.facts
        o = f.norm(a[2])
        vals = []
        for k in F3 + ('suspect_marker',):
            r = I.load(st, add(o, C(P.off('Textopt', k))), size[k], ir.Ty('int', 8 * size[k]), ('Textopt', list(fs).index(k)))
            vals.append(tuple(x[0].facts.norm(x[1]) for x in r))
        b, off = interp.base_of(o)
        if b is None:
            raise Unsupported('the settings of read_text')
        st = st.event('read', f.norm(a[0]), f.norm(a[1]), o, tuple(vals), I.line(fr, ins))
        out = []
        asks = not (len(vals[0]) == 1 and f.value(vals[0][0]) == 0)
        for v in ((0, 1) if asks else (None,)):
            s = st
            if v is not None:
                s = st.put(('st', b, add(off, C(found)), size['found_header'], C(v), ('Textopt', list(fs).index('found_header')))).event('header', v)
            out.append((s, None))
        return out
    prims = {'read_text': read, 'initialize': initialize_prim}
    for x in g:
        if x[1] in ('read_text', 'initialize') or x == (mod, main):
            continue
        if x[0] == mod and reads(x, set()):
            continue
        f = P.modules[x[0]].functions[x[1]]
        if x[0] == mod:
            prims[x] = event_prim(x[1], None)
        elif x[1] not in ('error', 'error_string', 'terminate'):
            prims.setdefault(x[1], event_prim(x[1], None))
    # the settings as the program starts with them
    st = interp.State(terms.Facts())
    own = {}
    for gl, d in M.globals.items():
        if d['ty'] is None or repr(d['ty']) != '%struct.Textopt' or d['external']:
            continue
        e = agg(d['init'])
        base = glob_base(P, mod, gl)
        for i, k in enumerate(fs):
            c = 0 if e is None or e[i][0] == 'zero' else e[i][1] if e[i][0] == 'int' else None
            if c is None:
                raise Unsupported('initial value of %s' % gl)
            own[(gl, P.off('Textopt', k))] = (base, k)
            st = st.put(('st', interp.base_of(base)[0], C(P.off('Textopt', k)), size[k], C(c), ('Textopt', i)))
    flags = {}
    for gl, d in M.globals.items():
        if d['ty'] is not None and 'Option' in repr(d['ty']) and not d['external']:
            for letter, s, b in entries(P, mod, gl)[0]:
                for x in (s, b):
                    if x and x in own:
                        flags[own[x]] = letter
    for (base, k), letter in flags.items():
        r = [x[1] for x in ctx.interp().load(st, add(base, C(P.off('Textopt', k))), size[k], ir.Ty('int', 8 * size[k]), None)]
        ctx.require(len(r) == 1 and st.facts.value(r[0]) == 0, 'settings', 'the setting of option %s of %s is off without the option' % (letter, mod), main)
        st = st.put(('st', interp.base_of(base)[0], C(P.off('Textopt', k)), size[k], V(atom(('option', letter), '-' + letter, 0, 1)),
                     ('Textopt', list(fs).index(k))))
    I = ctx.interp(prims=prims)
    I.opts['short_loops'] = True
    I.range_hook = ranges(P)
    args = [arg('filename0', 0, ptr='null')] if mod == 'stopword' else [arg('argc_main', 1, 2 ** 31 - 1), arg('argv', 1, ptr=True)]
    n = 0
    accepted = refused = 0
    for o in live(I.run(main, args, st)):
        ctx.paths += 1
        ev = o.st.events()
        for e in flat(ev):
            if e[0] != 'read':
                continue
            n += 1
            judge(ctx, mod, o.st.facts, e)
        if mod not in REFUSE:
            continue
        top = [e for e in ev if e[0] in ('read', 'header', 'error', 'loop')]
        hs = [e[1] for e in top if e[0] == 'header']
        err = o.kind == 'exit' and any(e[0] == 'error' for e in ev)
        nr = sum(1 for e in top if e[0] == 'read')
        if any(e[0] == 'loop' and any(y[0] == 'read' for y in flat([e])) for e in top):
            raise Unsupported('the texts are read in a loop that is not unrolled')
        if not hs:
            continue
        if hs[0] == 1:
            refused += 1
            ctx.require(err and nr == 1, 'correct', '%s refuses a correct text with a header of OCR output, before it reads the other text' % mod, main)
        else:
            accepted += 1
            ctx.require(nr == 2 or (err and nr == 2), 'correct', '%s reads the second text after a first one without a header' % mod, main)
            ctx.require(not (err and nr == 2 and [e for e in top if e[0] in ('read', 'error')][-1][0] == 'error' and top.index([e for e in top if e[0] == 'error'][0]) ==
                             len(top) - 1 and len(hs) == 2 and top[-2][0] == 'header'), 'correct', '%s accepts a second text with or without a header' % mod, main)
    ctx.require(n >= 1, 'settings', '%s reads texts' % mod, main)
    if mod in REFUSE:
        ctx.require(accepted and refused, 'correct', '%s looks whether the first text has a header' % mod, main)


def judge(ctx, mod, f, e):
    vals = e[4]
    for k, w, v in zip(F3, WANT[mod], vals):
        got = f.value(v[0]) if len(v) == 1 else None
        if w == 'i':
            ok = len(v) == 1 and lin_eq(f, v[0], V(atom(('option', 'i'), '-i', 0, 1)))
            ctx.require(ok, 'settings', 'in %s, case is folded exactly when option i is given (%r)' % (mod, v), e[5])
            continue
        if got is None:
            raise Unsupported('the setting %s of a text is not known (%r)' % (k, v))
        ctx.require(bool(got) == bool(w), 'settings', 'in %s, %s' % (mod, WORDS[k] % ('' if w else 'not ')), e[5])
    v = vals[4]
    got = f.value(v[0]) if len(v) == 1 else None
    if got is None:
        raise Unsupported('the suspect marker of a text is not known')
    ctx.require(got in (0, ord('^')), 'settings', 'the suspect marker of %s is the standard one' % mod, e[5])
