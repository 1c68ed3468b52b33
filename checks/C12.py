"""C12: voting follows the documented tally."""
import math
from .common import *

RULE = ('vote walks the whole list of segments; for each it repeats a step: each of the actual voters in turn votes, for the character of the segment '
        'it is at (moving on by one) or, when its part of the segment is used up, for nothing. A reject character adds nothing. Any other vote adds the '
        'suspect weight for a suspect character, else the unmarked weight, to the one candidate of the same value (or the nothing candidate), or to a '
        'new one with no votes when there is none; every step starts without candidates. The first candidate with the most votes wins: nothing ends the segment, a '
        'character is output, marked exactly when its votes are at most the threshold; without candidates a reject character is output. The weights are the '
        'digits of the valid fraction of -w, else 1 and 1, the threshold the whole part of voters times unmarked weight times the fraction of -s, else 0, '
        'other fractions are refused. The voters are the texts in the order given (without -O), between 2 and 16; they are aligned and the output written.')
ASSUME = ['the alignment partitions the texts (C14)', 'the array member of a text lists its characters (C20)', 'append_char appends (C04), write_text writes (C04)',
          'weights are at most 9 and voters at most 16 (checked here), so that votes fit their type']
REJECT = ord('~')


def run(ctx):
    P = ctx.program('vote')
    g = callgraph(P)
    M = P.modules['vote']
    F = entry_below_main(P, 'vote', lambda f: calls_name(f, 'append_char'), 'append_char')
    w = own_writes(P, M)
    inner = closure_of(g, F)
    # numbers that only the voting sets: they start as they are initialised
    zero = {n for n, d in M.globals.items() if d['ty'].k == 'int' and d['init'] is not None and any(n in w.get(x, ()) for x in inner) and
            not any(n in s for x, s in w.items() if x not in inner)}
    names = voting(ctx, P, F, zero)
    others = {x for x in g if x[0] == 'vote' and x[1] not in closure_of(g, F)}
    for x in others:
        for n in names['private']:
            ctx.require(n not in w.get(x[1], ()), 'fresh', '%s is left alone outside the voting' % n, x)
    setup(ctx, P, F, names)


def closure_of(g, F):
    seen, todo = set(), [('vote', F.name)]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += g.get(x, ())
    return {x[1] for x in seen}


def own_writes(P, M):
    out = {}
    for f in M.functions.values():
        s = set()
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'store':
                    s |= root_globals(f, ins.a[1])
                    s |= root_globals(f, ins.a[0]) if ins.a[0][0] in ('global', 'ce', 'local') and repr(ins.ty) == 'ptr' else set()
                if ins.op == 'call':
                    for x in ins.a[1]:
                        s |= root_globals(f, x[1])
        out[f.name] = s
    return out


def fld(P, s, f):
    off = P.off(s, f)
    return off, P.fields[s][1][f][1], (s, list(P.fields[s][1]).index(f))


def ld(I, st, addr, size, tag):
    ty = ir.Ty('ptr') if tag == ('ty', 'ptr') or size == 8 and tag and tag[0] in ('Char',) else ir.Ty('int', size * 8)
    r = I.load(st, addr, size, ty, tag)
    if len(r) != 1:
        raise Unsupported('a value of the voting may be changed under another name')
    return r[0][1]


def strip(l):
    """without the narrowing to the type of the counter, whose range suffices"""
    a = l.one()
    while a is not None and a.key[0] in ('trunc',) or a is not None and a.key[0] == 'app' and a.key[1] == 'trunc':
        l = a.key[-1] if isinstance(a.key[-1], Lin) else None
        if l is None:
            return None
        a = l.one()
    return l


def with_facts(st, f):
    """the state at the head of the loop, with what is known later"""
    s = interp.State(f)
    s.mem, s.ev, s.extra = st.mem, st.ev, st.extra
    return s


def calls_of(ev, name):
    return [e for e in ev if e[0] == 'call' and e[1] == name]


# --------------------------------------------------------------- the steps
def voting(ctx, P, F, zero):
    prims = dict(append_char=event_prim('append'))
    I = ctx.interp(prims=prims, init_globals=zero)
    I.range_hook = ranges(P)
    a = arg('synclist', 1, ptr=True)
    names = {'private': set()}
    first = V(atom(('ld', a, 8)))
    n = 0
    for o in live(I.run(F, [a])):
        ctx.paths += 1
        if o.kind != 'ret':
            ctx.fail('segments', 'the voting goes through all segments', F.name)
            continue
        f = o.st.facts
        ls = [S for S in loops_of(o.st) if any(True for e in flat([('loop', S)]))]
        if not ls and not o.st.events():
            ctx.require(f.value(load_at(I, o.st, a, P, 'Synclist', 'first')) == 0, 'segments', 'every segment is voted on', F.name)
            continue
        ctx.require(len(ls) == 1 and not any(e[0] != 'loop' for e in o.st.events()), 'segments', 'the segments are voted on one after the other', F.name)
        if len(ls) != 1:
            continue
        S = ls[0]
        v = walk_var(S, P.off('Sync', 'next'))
        if v is None:
            # the voting changes memory: follow the field itself
            w = walker(S, P.off('Sync', 'next'))
            v = w[0] if w else None
        if v is None:
            for u in S.vars:
                if u.sym is not None and S.trans() and all(nextof(P, t.nxt[u], u) for t in S.trans()):
                    v = u
        ctx.require(v is not None and lin_eq(S.pre.facts, v.init, load_at(I, S.pre, a, P, 'Synclist', 'first')) and
                    all(dead(x) or x.st.facts.value(V(v.sym)) == 0 for x in S.exits()), 'segments', 'the segments are visited from the first to the last', S)
        if v is None:
            continue
        for t in S.trans():
            ctx.paths += 1
            n += 1
            segment(ctx, P, I, S, t, V(v.sym), names)
    ctx.require(n > 0, 'segments', 'there are segments', F.name)
    return names


def nextof(P, l, u):
    a = l.one()
    if a is None or a.key[0] != 'ld':
        return False
    return a.key[1] == add(V(u.sym), C(P.off('Sync', 'next')))


def segment(ctx, P, I, S, t, sync, names):
    """one segment: steps up to the one that nothing wins"""
    ev = t.events
    at = [k for k, e in enumerate(ev) if e[0] == 'loop']
    D = None
    for k in at:
        L = ev[k][1]
        if any(voters(x) for x in inner(L)):
            D, kd = L, k
            break
    if D is None:
        raise Unsupported('the steps of a segment are not found')
    ctx.require(not any(e[0] == 'call' for e in ev[:kd]), 'segments', 'nothing is output before the voting', D)
    for u in D.trans():
        cont = not stops(D, u)
        step(ctx, P, I, S, D, u.events, u.head, u.facts, u.st, sync, names, cont)
    rest = ev[kd + 1:]
    if any(e[0] == 'loop' and voters(e[1]) for e in rest):
        # the last step ends the segment in the middle of an iteration
        x = [o for o in D.exits() if not dead(o)]
        step(ctx, P, I, S, D, rest, D_head(D), t.facts, t.st, sync, names, False)
    else:
        ctx.require(not any(e[0] == 'call' for e in rest), 'segments', 'nothing is output after the voting', D)


def D_head(D):
    ts = D.trans()
    if not ts:
        raise Unsupported('no voting step is followed by another')
    return ts[0].head


def inner(L):
    for t in L.trans():
        for e in t.events:
            if e[0] == 'loop':
                yield e[1]


def stops(D, u):
    """does the iteration lead out of the loop (a flag says so)?"""
    fl = [v for v in D.vars if v.flag]
    if not fl:
        return False
    key = []
    for v in D.vars:
        if v.flag:
            x = u.facts.value(u.nxt[v])
            key.append(x)
    for k, p in D.parts.items():
        if all(a is None or b is None or a == b for a, b in zip(k if isinstance(k, tuple) else (k,), key)) and p.trans:
            return False
    return True


def voters(L):
    """the loop over the voters stores into something"""
    return any(e[0] in ('st', 'cp') for t in L.trans() for e in mem_since(t))


def zero_here(S, l, f, assumed=()):
    """is the expression zero whenever its loop comes round? by induction over the loops nested in S (globals not set yet are zero)"""
    if f.value(l) == 0:
        return True
    a = l.one()
    if a is None:
        return False
    if a in assumed:
        return True
    for L in [S] + list(nested(S)):
        v = L.var(l)
        if v is not None:
            return zero_here(S, v.init, L.pre.facts, assumed) and all(zero_here(S, t.nxt[v], t.facts, assumed + (a,)) for t in L.trans())
    b = interp.base_of(a.key[1])[0] if a.key[0] == 'ld' else None
    return b is not None and b.key[0] == 'glob' and len(a.key) == 3


def nested(S):
    for L in inner(S):
        yield L
        yield from nested(L)


class Vote:
    pass


def step(ctx, P, I, S, D, ev, head, f, end, sync, names, cont):
    ls = [(k, e[1]) for k, e in enumerate(ev) if e[0] == 'loop' and voters(e[1])]
    if len(ls) != 1:
        ctx.fail('step', 'the voters vote once in every step', D)
        return
    k, L = ls[0]
    av = glob_load(I, head, 'vote', 'actual_voters', 2)
    i = counted(L, ZERO, av)
    ctx.require(i is not None, 'voters', 'each of the actual voters votes once, in order', L)
    if i is None:
        return
    nv = [v for v in L.vars if v.sym is not None and v is not i and not v.tmpl and
          {d.c if d.const else None for d in [t.facts.norm(sub(whole(t, v), V(v.sym))) for t in L.trans()]} == {0, 1}]
    if len(nv) != 1:
        ctx.fail('candidates', 'a vote either goes to a candidate or makes it one more', L)
        return
    n = nv[0]
    ctx.require(zero_here(S, n.init, L.pre.facts), 'candidates', 'every step starts without candidates', L)
    V_ = layout(ctx, L, n, P)
    if V_ is None:
        return
    names['private'] |= {V_.c[0].key[2], V_.v[0].key[2]} | ({n.key[0].key[2]} if n.kind == 'cell' and getattr(n.key[0], 'key', ('',))[0] == 'glob' else set())
    for t in L.trans():
        ctx.paths += 1
        one_vote(ctx, P, I, L, t, V(i.sym), n, V_, sync, names)
    # ------------------------------------------------------ who wins
    ctx.paths += 1
    after = ev[k + 1:]
    apps = calls_of(after, 'append')
    nn = V(n.sym)
    ncell = n.kind == 'cell'
    if f.value(nn) == 0 or f.decide(nn, '<=') is True:
        ctx.require(cont and len(apps) == 1 and is_out(apps[0], names) and f.value(apps[0][2][1]) == 0 and f.value(apps[0][2][2]) == REJECT, 'winner',
                    'without candidates an unmarked reject character is output and the segment goes on', D)
        return
    if f.decide(nn, '!=') is not True and f.decide(add(scale(nn, -1), ONE), '<=') is not True:
        ctx.fail('winner', 'steps without candidates are told from others', D)
        return
    ks = [e[1] for e in after if e[0] == 'loop']
    if len(ks) != 1:
        raise Unsupported('the winner is not found by one loop')
    lead = argmax(ctx, I, ks[0], nn, V_, P)
    if lead is None:
        return
    st = with_facts(end, f)
    c = ld(I, st, cand(V_.c, lead), 8, V_.ctag)
    votes = ld(I, st, cand(V_.v, lead), V_.vsize, V_.vtag)
    null = f.decide(c, '==')
    if null is None:
        ctx.fail('winner', 'whether nothing wins decides about the end of the segment', D)
        return
    if null:
        ctx.require(not cont and not apps, 'winner', 'when nothing wins the segment ends without output', D)
        return
    ctx.require(cont and len(apps) == 1 and is_out(apps[0], names), 'winner', 'a winning character is output once, and the segment goes on', D)
    if len(apps) == 1:
        cv = ld(I, st, add(c, C(P.off('Char', 'value'))), 4, fld(P, 'Char', 'value')[2])
        ctx.require(lin_eq(f, apps[0][2][2], cv), 'winner', 'the character output is the winner', D)
        th = glob_load(I, st, 'vote', 'suspect_threshold', 2)
        for g, want in table(f, lambda q: q.le(votes, th)):
            ctx.require(g.value(apps[0][2][1]) == int(want), 'mark', 'the output is marked exactly when the votes of the winner do not exceed the threshold', D)


def whole(t, n):
    """the next number of candidates: it starts at none and grows by at most one with each voter, so nothing of it is cut off"""
    v = t.facts.norm(t.nxt[n])
    a = v.one()
    if a is not None and a.key[0] == 'trunc' and a.key[1] >= 16 and lin_eq(t.facts, a.key[2], add(V(n.sym), ONE)):
        return a.key[2]
    return v


def is_out(e, names):
    a = e[2][0].one()
    if a is None or a.key[0] != 'glob':
        return False
    names.setdefault('output', a.key[2])
    return names['output'] == a.key[2]


def glob_load(I, st, mod, g, size):
    d = I.P.modules[mod].globals.get(g) if hasattr(I, 'P') else None
    P = I.prog if hasattr(I, 'prog') else I.P
    d = P.modules[mod].globals.get(g)
    if d is None:
        raise Unsupported('anchor vanished: %s' % g)
    base = V(atom(('glob', mod if d['internal'] else '', g), '@' + g, obj='global'))
    return ld(I, st, base, size, ('ty', 'i%d' % (size * 8)))


def layout(ctx, L, n, P):
    """where the candidates are kept: from the votes that make a new one"""
    out = None
    for t in L.trans():
        if not lin_eq(t.facts, whole(t, n), add(V(n.sym), ONE)):
            continue
        new = [e for e in last_stores(t) if e[0] == 'st' and e[1].obj == 'global' and not (n.kind == 'cell' and e[1] is n.key[0])]
        c = [e for e in new if e[3] == 8]
        v = [e for e in new if e[3] in (2, 4, 8) and e not in c] or [e for e in new if e[3] == 8][1:]
        if len(c) != 1 or len(v) != 1 or len(new) != 2:
            ctx.fail('candidates', 'a new candidate gets its character and its votes', L)
            return None
        r = Vote()
        r.c, r.v = shape(c[0]), shape(v[0])
        r.ctag, r.vtag, r.vsize = c[0][5], v[0][5], v[0][3]
        if r.c is None or r.v is None:
            raise Unsupported('the candidates are not kept in arrays')
        if out is not None and (out.c[1:], out.v[1:]) != (r.c[1:], r.v[1:]):
            ctx.fail('candidates', 'the candidates are kept in one place', L)
            return None
        out = r
    if out is None:
        ctx.fail('candidates', 'there are votes that make a new candidate', L)
    return out


def shape(e):
    """(array, stride, offset, index atom)"""
    off = e[2]
    if len(off.t) != 1:
        return None
    return e[1], off.t[0][1], off.c


def cand(s, j):
    return add(V(s[0]), add(scale(j, s[1]), C(s[2])))


def same(q, I, st, P, V_, c, j):
    """is candidate j the one a vote for c goes to?"""
    cj = ld(I, st, cand(V_.c, j), 8, V_.ctag)
    if c is None:
        return q.eq(cj, 0)
    if q.eq(cj, 0):
        return False
    o, z, tag = fld(P, 'Char', 'value')
    return q.eq(ld(I, st, add(cj, C(o)), z, tag), ld(I, st, add(c, C(o)), z, tag))


def one_vote(ctx, P, I, L, t, i, n, V_, sync, names):
    f = t.facts
    h = t.head
    so, sz, stag = fld(P, 'Substr', 'start')
    po, pz, ptag = fld(P, 'Substr', 'stop')
    size = P.sizeof('Substr')
    sub_ = ld(I, h, add(sync, C(P.off('Sync', 'substr'))), 8, fld(P, 'Sync', 'substr')[2])
    el = add(sub_, scale(i, size))
    start, stop = ld(I, h, add(el, C(so)), sz, stag), ld(I, h, add(el, C(po)), pz, ptag)
    inp = V(atom(('glob', '', 'input'), '@input', obj='global'))
    arr = ld(I, h, add(add(inp, scale(i, P.sizeof('Text'))), C(P.off('Text', 'array'))), 8, fld(P, 'Text', 'array')[2])
    elem = ld(I, h, add(arr, scale(start, 8)), 8, ('ty', 'ptr'))
    vo, vz, vtag = fld(P, 'Char', 'value')
    uo, uz, utag = fld(P, 'Char', 'suspect')
    uw, sw = glob_load(I, h, 'vote', 'unmarked_weight', 2), glob_load(I, h, 'vote', 'suspect_weight', 2)

    def spec(q):
        if not q.le(start, stop):
            return None, uw, start
        if q.eq(elem, 0):
            return 'dead', None, None
        if q.eq(ld(I, h, add(elem, C(vo)), vz, vtag), REJECT):
            return 'none', None, add(start, ONE)
        if q.nz(ld(I, h, add(elem, C(uo)), uz, utag)):
            return elem, sw, add(start, ONE)
        return elem, uw, add(start, ONE)
    ms = [e for e in last_stores(t) if e[0] != 'hv' and getattr(e[1], 'obj', None) != 'alloca']
    cs, vs, other = [], [], []
    for e in ms:
        if e[0] == 'st' and e[1] is V_.c[0] and shape(e) and shape(e)[1:] == V_.c[1:]:
            cs.append(e)
        elif e[0] == 'st' and e[1] is V_.v[0] and shape(e) and shape(e)[1:] == V_.v[1:]:
            vs.append(e)
        elif n.kind == 'cell' and e[0] == 'st' and e[1] is n.key[0]:
            pass
        elif e[0] == 'st' and lin_eq(f, add(V(e[1]), e[2]), add(el, C(so))):
            pass
        else:
            other.append(e)
    ctx.require(not other, 'vote', 'a vote changes nothing else (%s)' % (other[:2],), L)
    js = [e[1] for e in t.events if e[0] == 'loop']
    ctx.require(not any(e[0] == 'call' for e in t.events), 'vote', 'nothing is output while the votes are cast', L)
    for g, (c, w, ns) in table(f, spec):
        if c == 'dead':
            continue
        ctx.paths += 1
        end = with_facts(t.st, g)
        ctx.require(lin_eq(g, ld(I, end, add(el, C(so)), sz, stag), ns), 'vote', 'a voter moves on by one exactly when it had a character left', L)
        if c == 'none':
            ctx.require(not cs and not vs and lin_eq(g, whole(t, n), V(n.sym)), 'vote', 'a reject character casts no vote', L)
            continue
        if len(vs) != 1:
            ctx.fail('vote', 'every voter that is not at a reject character votes once', L)
            continue
        index = index_of(vs[0], V_.v)
        if not js:
            ctx.fail('search', 'the candidates are searched for the one voted for', L)
            continue
        if len(js) != 1:
            raise Unsupported('the candidate voted for is not searched by one loop')
        J = js[0]
        j = counted(J, ZERO, V(n.sym), early=True)
        if j is None:
            ctx.fail('search', 'the candidates are searched from the first to the last', J)
            continue
        jj = V(j.sym)
        ctx.require(searched(I, P, J, jj, V(n.sym), c, V_, g), 'search', 'the search stops at the candidate of the same value (or at nothing), and only there', J)
        found = g.decide(add(sub(jj, V(n.sym)), ONE), '<=')
        if found is None:
            ctx.fail('vote', 'votes for candidates are told from votes for new ones', L)
            continue
        val = strip(vs[0][4])
        if found:
            old = ld(I, h, cand(V_.v, jj), V_.vsize, V_.vtag)
            ctx.require(not cs and lin_eq(g, index, jj) and val is not None and lin_eq(g, val, add(old, w)) and lin_eq(g, whole(t, n), V(n.sym)), 'vote',
                        'a vote for a candidate adds its weight to those it has', L)
        else:
            ctx.require(len(cs) == 1 and (lin_eq(g, index, jj) or lin_eq(g, index, V(n.sym))) and
                        (lin_eq(g, index_of(cs[0], V_.c), jj) or lin_eq(g, index_of(cs[0], V_.c), V(n.sym))) and
                        val is not None and lin_eq(g, val, w) and lin_eq(g, cs[0][4], ZERO if c is None else c) and lin_eq(g, whole(t, n), add(V(n.sym), ONE)), 'vote',
                        'a vote for no candidate yet makes a new one, with its weight', L)


def index_of(e, s):
    a, k = e[2].t[0]
    return V(a)


def searched(I, P, J, j, n, c, V_, g):
    for t in J.trans():
        for r, m in table(t.facts, lambda q: same(q, I, t.head, P, V_, c, j)):
            if m:
                return False
    for o in J.exits():
        if dead(o):
            continue
        f = o.st.facts
        if f.decide(sub(n, j), '<=') is True:
            continue
        if f.decide(add(sub(j, n), ONE), '<=') is not True:
            return False
        if not all(m for r, m in table(f, lambda q: same(q, I, o.st, P, V_, c, j))):
            return False
    return True


def argmax(ctx, I, K, n, V_, P):
    k = counted(K, ZERO, n) or counted(K, ONE, n)
    if k is None:
        ctx.fail('winner', 'all candidates are compared', K)
        return None
    kk = V(k.sym)
    lead = [v for v in K.vars if v.sym is not None and v is not k and not v.tmpl and
            all(lin_eq(t.facts, t.nxt[v], V(v.sym)) or lin_eq(t.facts, t.nxt[v], kk) for t in K.trans()) and
            any(lin_eq(t.facts, t.nxt[v], kk) for t in K.trans())]
    if len(lead) != 1:
        ctx.fail('winner', 'the winner is one of the candidates', K)
        return None
    l = lead[0]
    ctx.require(K.pre.facts.value(l.init) == 0, 'winner', 'the comparison starts with the first candidate', K)
    # a copy of the votes of the leader
    cp = []
    for v in K.vars:
        if v in (l, k) or v.sym is None or v.tmpl:
            continue
        if lin_eq(K.pre.facts, v.init, ld(I, K.pre, cand(V_.v, l.init), V_.vsize, V_.vtag)) and \
                all(lin_eq(t.facts, t.nxt[v], V(v.sym)) if lin_eq(t.facts, t.nxt[l], V(l.sym)) else
                    lin_eq(t.facts, t.nxt[v], ld(I, t.head, cand(V_.v, kk), V_.vsize, V_.vtag)) for t in K.trans()):
            cp.append(v)
    for t in K.trans():
        a, b = ld(I, t.head, cand(V_.v, kk), V_.vsize, V_.vtag), ld(I, t.head, cand(V_.v, V(l.sym)), V_.vsize, V_.vtag)
        f = t.facts
        for v in cp:
            f = f.assume(sub(V(v.sym), b), '==')
            if f is None:
                break
        if f is None:
            continue
        for g, more in table(f, lambda q: q.lt(b, a)):
            ctx.require(lin_eq(g, t.nxt[l], kk if more else V(l.sym)), 'winner', 'a candidate takes the lead exactly when it has more votes', K)
    return V(l.sym)


# ----------------------------------------------------------------- the setup
SHORTS = ('actual_voters', 'suspect_weight', 'unmarked_weight', 'suspect_threshold')


def glob_base(P, mod, g):
    d = P.modules[mod].globals.get(g)
    if d is None:
        raise Unsupported('anchor vanished: %s' % g)
    return V(atom(('glob', mod if d['internal'] else '', g), '@' + g, obj='global'))


def setup(ctx, P, F, names):
    M = P.modules['vote']
    own = {'voter', 'input', 'num_voters', names.get('output', 'output')} | set(SHORTS)
    prims = {k: v for k, v in opaque(P, 'vote', own).items() if M.functions[k[1]].ret.k == 'void'}
    for n in ('read_text', 'write_text', 'sort'):
        prims[n] = event_prim(n)

    def noting(name):
        def p(I, fr, ins, st, a):
            f = st.facts
            vals = tuple(glob_load(I, st, 'vote', g, 2) for g in SHORTS)
            return [(st.event('call', name, tuple(f.norm(x) for x in a), vals), None)]
        return p
    prims['initialize'] = initialize_prim
    prims['synchronize'] = noting('synchronize')
    prims['table_in_array'] = event_prim('table_in_array')
    prims[('vote', F.name)] = noting('voting')
    st = interp.State(terms.Facts())
    for g in SHORTS:
        d = M.globals[g]
        v = d['init'][1] if d['init'] is not None and d['init'][0] == 'int' else 0
        ctx.require(v == {'actual_voters': 3, 'suspect_threshold': 0}.get(g, 1), 'options', 'without options %s is as documented' % g, g)
        st = st.put(('st', glob_base(P, 'vote', g).one(), ZERO, 2, C(v), ('ty', 'i16')))
    wf = V(atom(('ld', glob_base(P, 'vote', target(P, 'w')), 8)))
    sf = V(atom(('ld', glob_base(P, 'vote', target(P, 's')), 8)))
    opt = glob_base(P, 'vote', target(P, 'O'))
    outf = V(atom(('ld', glob_base(P, 'vote', target(P, 'o')), 8)))
    I = ctx.interp(prims=prims)
    I.range_hook = ranges(P)
    argv = arg('argv', 1, ptr=True)
    N = None
    seen = set()
    for o in live(I.run(M.functions['main'], [arg('argc_main', 1, 2 ** 31 - 1), argv], st)):
        ctx.paths += 1
        f = o.st.facts
        ev = o.st.events()
        N = V(atom(('argc',), 'argc', 0, 2 ** 31 - 1))

        def byte(x, k):
            return ld(I, st, add(x, C(k)), 1, ('ty', 'i8'))

        def valid(q, x):
            return q.le(ord('1'), byte(x, 0)) and q.eq(byte(x, 1), ord('/')) and q.le(byte(x, 2), ord('9')) and q.le(byte(x, 0), byte(x, 2)) and q.eq(byte(x, 3), 0)

        def spec(q):
            if q.lt(N, 2) or q.lt(16, N):
                return 'few', None, None, None
            av = N if not q.nz(ld(I, st, opt, 1, ('ty', 'i8'))) or q.lt(N, 3) else C(3)
            w = ('1', '1')
            if not q.eq(wf, 0):
                if not valid(q, wf):
                    return 'weight', None, None, None
                w = byte(wf, 0), byte(wf, 2)
            t = None
            if not q.eq(sf, 0):
                if not valid(q, sf):
                    return 'threshold', None, None, None
                t = byte(sf, 0), byte(sf, 2)
            return 'ok', av, w, t
        err = [e for e in ev if e[0] == 'error']
        for g, (kind, av, w, t) in table(f, spec):
            ctx.paths += 1
            if kind == 'ok' and not q_consistent(g):
                continue
            seen.add(kind)
            if kind != 'ok':
                ctx.require(bool(err) and not calls_of(ev, 'voting'), 'options', 'a wrong number of texts and invalid fractions are refused (%s)' % kind, 'main')
                continue
            if err:
                ctx.fail('options', 'valid options are accepted', 'main')
                continue
            sy, vo, wr = calls_of(ev, 'synchronize'), calls_of(ev, 'voting'), calls_of(ev, 'write_text')
            if len(sy) != 1 or len(vo) != 1 or len(wr) != 1 or not ev.index(sy[0]) < ev.index(vo[0]) < ev.index(wr[0]):
                ctx.fail('order', 'the texts are aligned, voted on and written once', 'main')
                continue
            ctx.require(lin_eq(g, vo[0][2][0], sy[0][2][0]) and lin_eq(g, sy[0][2][2], glob_base(P, 'vote', 'input')) and
                        lin_eq(g, wr[0][2][0], glob_base(P, 'vote', names.get('output', 'output'))) and lin_eq(g, wr[0][2][1], outf), 'order',
                        'the voting follows the alignment of the texts, and its output is written', 'main')
            vals = dict(zip(SHORTS, vo[0][3]))
            ctx.require(lin_eq(g, strip(vals['actual_voters']), av) and lin_eq(g, strip(sy[0][2][1]), av), 'voters', 'the number of voters is the number of texts, with -O at most 3', 'main')
            want = [C(1) if isinstance(x, str) else sub(x, C(48)) for x in w]
            ctx.require(eq16(g, vals['suspect_weight'], want[0]) and eq16(g, vals['unmarked_weight'], want[1]), 'options', 'the weights are the digits of the fraction', 'main')
            if t is None:
                ctx.require(g.value(vals['suspect_threshold']) == 0, 'options', 'without -s no output is marked', 'main')
            else:
                ctx.require(threshold(g, vals['suspect_threshold'], [av, want[1], sub(t[0], C(48))], sub(t[1], C(48))), 'options',
                            'the threshold is the fraction of the votes possible (%s)' % vals['suspect_threshold'], 'main')
            chosen(ctx, P, I, g, ev, argv, N, av, ev.index(sy[0]), g.decide(ld(I, st, opt, 1, ('ty', 'i8')), '!=') is True)
    ctx.require({'few', 'weight', 'threshold', 'ok'} <= seen, 'options', 'all kinds of arguments are met (%s)' % seen, 'main')


def target(P, letter):
    x = option_target(P, 'vote', letter)
    if x is None:
        raise Unsupported('option %s vanished' % letter)
    return x


def q_consistent(g):
    return libc.consistent(g)


def eq16(g, x, y):
    x = strip(x)
    return x is not None and lin_eq(g, x, y)


def factors(g, l):
    """(constant, factors without a common divisor) of a product"""
    l = strip(l)
    if l is None:
        return None
    v = g.value(l)
    if v is not None:
        return v, []
    k = math.gcd(*[c for _, c in l.t], l.c)
    if l.t[0][1] < 0:
        k = -k
    l = terms.Lin(tuple((a, c // k) for a, c in l.t), l.c // k)
    a = l.one()
    if a is not None and a.key[0] in ('mul', 'app'):
        kk = a.key if a.key[0] == 'mul' else a.key[1:]
        if kk[0] == 'mul':
            out = []
            for x in kk[1:]:
                y = factors(g, x) if isinstance(x, Lin) else None
                if y is None:
                    return None
                k *= y[0]
                out += y[1]
            return k, out
    return k, [norm_deep(g, l)]


def threshold(g, x, fs, n):
    x = strip(x)
    a = x.one() if x is not None else None
    if a is None:
        return False
    k = a.key if a.key[0] != 'app' else a.key[1:]
    if k[0] not in ('sdiv', 'udiv'):
        return False
    num, den = k[1], k[2]
    got = factors(g, num)
    if got is None or not lin_eq(g, strip(den), n):
        return False
    c, want = 1, []
    for y in fs:
        r = factors(g, y)
        c *= r[0]
        want += r[1]
    return got[0] == c and sorted(map(repr, got[1])) == sorted(map(repr, want))


def chosen(ctx, P, I, g, ev, argv, N, av, upto, optimize):
    """the voters are the texts given; the inputs of the alignment are theirs"""
    texts = P.off('Voter', 'text')
    voter, inp = glob_base(P, 'vote', 'voter').one(), glob_base(P, 'vote', 'input').one()
    loops = [e[1] for e in ev[:upto] if e[0] == 'loop']
    rd = [S for S in loops if any(e[0] == 'call' and e[1] == 'read_text' for e in flat([('loop', S)]))]
    ctx.require(len(rd) == 1 and not calls_of(ev, 'read_text'), 'voters', 'the texts are read one after the other', 'main')
    for S in rd[:1]:
        i = counted(S, ZERO, N)
        ctx.require(i is not None, 'voters', 'each text is read', S)
        for t in S.trans():
            if i is None:
                break
            r = calls_of(t.events, 'read_text')
            sts = [e for e in mem_since(t) if e[0] == 'st' and e[1] is voter]
            ctx.require(len(r) == 1 and len(sts) == 1 and lin_eq(t.facts, sts[0][2], scale(V(i.sym), 8)) and
                        lin_eq(t.facts, r[0][2][0], add(sts[0][4], C(texts))) and
                        lin_eq(t.facts, r[0][2][1], V(atom(('ld', add(argv, scale(V(i.sym), 8)), 8)))), 'voters', 'the text of each voter is read from its file', S)
    kinds = calls_of(ev[:upto], 'sort')
    ctx.require(bool(kinds) == optimize, 'voters', 'the voters are sorted exactly with -O', 'main')
    for e in kinds:
        ctx.require(lin_eq(g, e[2][0], N) and lin_eq(g, e[2][1], V(voter)), 'voters', 'all voters are sorted', 'main')
    later = [S for S in loops if S not in rd[:1]]
    wr = [S for S in later if any(e[0] in ('st', 'cp') and e[1] is inp for t in S.trans() for e in mem_since(t))]
    ctx.require(len(wr) == 1 and not any(e[0] in ('st', 'cp') and e[1] is voter for S in later for t in S.trans() for e in mem_since(t)), 'voters',
                'the texts of the voters are the input', 'main')
    for S in wr[:1]:
        i = counted(S, ZERO, av)
        ctx.require(i is not None, 'voters', 'every actual voter has its input', S)
        for t in S.trans():
            if i is None:
                break
            for e in mem_since(t):
                if e[1] is not inp:
                    continue
                a = V(e[4]).one() if e[0] == 'cp' else None
                ok = e[0] == 'cp' and lin_eq(t.facts, e[2], scale(V(i.sym), P.sizeof('Text'))) and t.facts.value(e[3]) == P.sizeof('Text') if e[0] == 'cp' and isinstance(e[3], Lin) else \
                    e[0] == 'cp' and lin_eq(t.facts, e[2], scale(V(i.sym), P.sizeof('Text'))) and e[3] == P.sizeof('Text')
                ok = ok and a.key[0] == 'ld' and lin_eq(t.facts, a.key[1], add(V(voter), scale(V(i.sym), 8))) and t.facts.value(e[5]) == texts
                ctx.require(ok, 'voters', 'each input is the text of the voter of its number', S)
