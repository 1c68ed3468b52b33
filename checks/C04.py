"""C04: characters are rendered faithfully."""
from .common import *

RULE = ('Every abstract path of char_to_string (suspect, value, fake_newline unconstrained) yields the token string of the '
        'documented rendering; write_text walks the whole list from text->first and emits exactly the rendering of each node '
        'to the file it opened, which it closes.')
ASSUME = ['utf8proc_encode_char/category behave as documented', 'code points are in 0..0x10FFFF (C01)',
          'general category of U+0020 is Zs']


def run(ctx):
    P = ctx.program('text', 'list', 'util', 'charclass')
    # ---- char_to_string
    I = ctx.interp()
    buf = obj('string')
    sus, val, fake = arg('suspect', 0, 1), arg('value', 0, MAXCP), arg('fake_newline', 0, 1)
    outs = I.run('char_to_string', [sus, val, buf, fake])
    n = 0
    for o in outs:
        n += 1
        for f, want in table(o.st.facts, lambda q: spec_char(q, sus, val, fake)):
            w = 'char_to_string: %s' % f.describe()
            if o.kind != 'ret':
                # an encoding failure cannot happen for a valid code point
                ctx.fail('render', 'char_to_string does not return for %s: %s' % (f.describe(), o.st.events()[-2:]))
                continue
            got = libc.gather(I, o.st.with_facts(f), interp.base_of(buf)[0], ZERO)
            ok = got is not None and ('unterminated',) not in got
            ctx.require(ok, 'terminated', 'the representation is a terminated string when ' + f.describe(), 'char_to_string')
            if ok:
                ctx.require(toks_eq(f, got, want), 'render', 'writes %s, documented %s, when %s' % (
                    show_toks(got), show_toks(want), f.describe()), 'char_to_string')
    ctx.paths += n
    # ---- write_text
    I = ctx.interp(prims={'*indirect': interp.generic_event('header', 'none')})
    I.prims['*indirect'] = lambda I, fr, ins, st, v, vals: [(st.event('indirect', v, tuple(vals)), None)]
    I.range_hook = ranges(P)
    text, fn, wh = obj('text'), arg('filename', 0, ptr=True), arg('write_header', 0)
    interp.mkptr(wh.one())
    outs = I.run('write_text', [text, fn, wh])
    first = None
    off_first, off_next = P.off('Text', 'first'), P.off('Char', 'next')
    ov, os_ = P.off('Char', 'value'), P.off('Char', 'suspect')
    for o in outs:
        ctx.paths += 1
        ctx.require(o.kind == 'ret', 'write_text', 'write_text returns (%s)' % (o.st.events()[-1:],), 'write_text')
        if o.kind != 'ret':
            continue
        ev = o.st.events()
        opens = [e for e in ev if e[0] == 'open']
        ctx.require(len(opens) == 1 and opens[0][2][:1] == b'w' and lin_eq(o.st.facts, opens[0][1], fn), 'write_text',
                    'one file, the named one, is opened for writing: %s' % (opens,), 'write_text')
        if not opens:
            continue
        f = opens[0][3]
        loops = [e[1] for e in ev if e[0] == 'loop']
        start = V(atom(('ld', add(text, C(off_first)), 8)))
        done = False
        for S in loops:
            w = walker(S, off_next)
            emits = any(e[0] == 'out' for t in S.trans() for e in t.events)
            if not emits:
                continue
            if w is None:
                raise Unsupported('output loop of write_text is not a list walk')
            v, early = w
            ctx.require(not early, 'write_text', 'the walk over the text stops only at its end', S)
            ctx.require(lin_eq(S.pre.facts, v.init, start), 'write_text', 'the walk starts at the first character', S)
            ctx.require(not done, 'write_text', 'the text is written once', S)
            done = True
            for t in S.trans():
                c = V(v.sym)
                tv = V(atom(('ld', add(c, C(ov)), 4)))
                ts = V(atom(('ld', add(c, C(os_)), 1)))
                for fa, want in table(t.facts, lambda q: spec_char(q, ts, tv, C(0))):
                    got = []
                    bad = [e for e in t.events if e[0] == 'out' and not lin_eq(fa, e[1], f)]
                    for e in t.events:
                        if e[0] == 'out':
                            got += e[2]
                    ctx.require(not bad and toks_eq(fa, got, want), 'write_text',
                                'emits %s for a character, documented %s, when %s' % (show_toks(got), show_toks(want), fa.describe()),
                                S)
        if not done:
            # an empty text: the loop body was never entered on this path
            ctx.require(o.st.facts.value(start) == 0, 'write_text', 'the characters of the text are written', 'write_text')
        closes = [e for e in ev if e[0] == 'close' and lin_eq(o.st.facts, e[1], f)]
        ctx.require(bool(closes), 'write_text', 'the output is closed', 'write_text')
        extra = [e for e in ev if e[0] == 'out']
        if o.st.facts.value(wh) == 0:
            ctx.require(not extra, 'write_text', 'nothing but the characters is written without a header: %s' % (extra,), 'write_text')
