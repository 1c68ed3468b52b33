"""C23: read and write failures are reported."""
from .common import *

RULE = ('terminate, the only way to end with status 0, does so only when flushing standard output succeeded and its error indicator is clear, and writes '
        'nothing afterwards. close_file returns only when the error indicator of the stream is clear and, for a file, closing it succeeded. On every '
        'path through every function that opens a file the stream is closed by close_file exactly once before the function is left and not used '
        'afterwards (or handed to the caller, who is bound to do it). The error indicator of a stream is never cleared, no stream is closed behind '
        'the back of close_file, and no output by-passes the streams.')
ASSUME = ['the C library sets the error indicator of a stream when a read or write fails, and it stays set', 'the ends of programs are those of C22']
TECH = 'typestate dataflow over LLVM IR (open, closed); abstract interpretation of the closing functions'

FORBIDDEN = ('clearerr', 'clearerr_unlocked', 'rewind', 'freopen', 'freopen64', 'fdopen', 'fileno', 'write', 'pwrite', 'read', 'dup', 'dup2', 'close', 'sendfile',
             'mmap', 'fcloseall', 'tmpfile', 'popen', 'setbuffer')


def run(ctx):
    P = ctx.program()
    g = callgraph(P)
    ends(ctx, P)
    closing(ctx, P)
    for x, ys in g.items():
        for y in ys:
            if y[0] == '':
                ctx.require(y[1] not in FORBIDDEN, 'lint', '%s does not call %s' % (x[1], y[1]), x)
    # fclose is the business of close_file
    inner = {x for x, ys in g.items() if ('', 'fclose') in ys}
    todo, seen = list(inner), set()
    while todo:
        x = todo.pop()
        if x == ('util', 'close_file') or x in seen:
            continue
        seen.add(x)
        callers = [z for z, ys in g.items() if x in ys]
        ctx.require(x[0] == 'util' and P.modules['util'].functions[x[1]].internal and callers, 'lint', '%s closes a stream on its own' % x[1], x)
        todo += callers
    typestate(ctx, P, g)


def results(f, name, arg0=None):
    """call atoms of that primitive known to the path, with their values"""
    return [a for a in f.dom if a.key[0] == 'ret' and a.key[1] == name and (arg0 is None or lin_eq(f, a.key[2][0], arg0))]


def zero(o, name, stream):
    """the call happened on this path and returned 0"""
    f = o.st.facts
    calls = [e for e in o.st.events() if e[0] == 'call' and e[1] == name and lin_eq(f, e[2][0], stream)]
    return bool(calls) and any(f.value(V(a)) == 0 for a in results(f, name, stream)) and \
        all(f.value(V(a)) == 0 for a in results(f, name, stream))


def std(I, name):
    return libc.std(I, name)


def ends(ctx, P):
    I = ctx.interp()
    I.prims.pop('terminate')
    n = 0
    for o in live(I.run('terminate', [])):
        ctx.paths += 1
        ev = o.st.events()
        ex = [e for e in ev if e[0] == 'exit' and o.st.facts.value(e[1]) == 0]
        if not ex:
            continue
        n += 1
        so = std(I, 'stdout')
        ctx.require(zero(o, 'fflush', so), 'end', 'the program ends with success only when all output could be written', 'terminate')
        ctx.require(zero(o, 'ferror', so), 'end', 'the program ends with success only when no output failed before', 'terminate')
        at = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'fflush']
        ctx.require(not any(e[0] == 'out' and repr(e[1]) != 'stderr' for e in flat(ev[at[0]:] if at else ev)), 'end', 'nothing is written after the last check', 'terminate')
    ctx.require(n > 0, 'end', 'programs can end with success', 'terminate')


def closing(ctx, P):
    I = ctx.interp()
    f0 = arg('stream', 1, ptr=True)
    n = 0
    for o in live(I.run('close_file', [f0])):
        if o.kind != 'ret':
            ctx.require(any(e[0] == 'error' for e in o.st.events()), 'close', 'close_file ends the program only by an error', 'close_file')
            continue
        calls = [e[1] for e in o.st.events() if e[0] == 'call']
        si, so = std(I, 'stdin'), std(I, 'stdout')
        for f, kind in table(o.st.facts, lambda q: 'in' if q.eq(f0, si) else 'out' if q.eq(f0, so) else 'file'):
            ctx.paths += 1
            n += 1
            if kind == 'out':
                continue        # terminate checks it
            ctx.require(zero(o, 'ferror', f0), 'close', 'close_file returns only when no read or write failed (%s)' % kind, 'close_file')
            if kind == 'file':
                ctx.require(zero(o, 'fclose', f0) and calls.count('fclose') == 1, 'close', 'close_file returns only when closing the file succeeded', 'close_file')
                ctx.require('fclose' in calls and 'ferror' in calls and calls.index('ferror') < calls.index('fclose') and calls[-1] == 'fclose', 'close',
                            'the stream is not used after it was closed', 'close_file')
    ctx.require(n >= 2, 'close', 'close_file returns', 'close_file')


# -------------------------------------------------------------------- typestate
def typestate(ctx, P, g):
    openers = {('util', 'open_file')}
    closers = {('util', 'close_file'): 0}
    n = 0
    # functions that close a stream given to them
    while True:
        new = {}
        for m in P.modules.values():
            for f in m.functions.values():
                k = (m.name, f.name)
                if k in closers or k[0] == 'util' and f.internal:
                    continue
                for i, p in enumerate(f.params):
                    nm = p[1] if isinstance(p, tuple) else p
                    if passes(P, m, f, nm, closers):
                        r = flow(P, m, f, {nm}, None, openers, closers)
                        if r['end'] == {'closed'} and not r['bad']:
                            new[k] = i
        if not new:
            break
        closers.update(new)
    while True:
        grown = False
        for m in P.modules.values():
            for f in m.functions.values():
                k = (m.name, f.name)
                if k == ('util', 'open_file') or k in openers:
                    continue
                for b, ins in sites(P, m, f, openers):
                    r = flow(P, m, f, {ins.res}, ins, openers, closers)
                    if r['given']:
                        openers.add(k)
                        grown = True
        if not grown:
            break
    for m in P.modules.values():
        for f in m.functions.values():
            k = (m.name, f.name)
            if k == ('util', 'open_file'):
                continue
            for b, ins in sites(P, m, f, openers):
                n += 1
                ctx.analysed.add(k)
                where = (m.name, f.name, ir.line_of(m, ins.dbg))
                if ins.res is None:
                    ctx.fail('typestate', 'the opened file is closed', where)
                    continue
                r = flow(P, m, f, {ins.res}, ins, openers, closers)
                for kind, line in r['bad']:
                    ctx.fail('typestate', '%s (line %s)' % (kind, line), where)
                ctx.require(r['end'] <= {'closed', 'given'}, 'typestate', 'the file opened is closed by close_file on every way out (%s)' % sorted(r['end']), where)
    ctx.require(n >= 9, 'typestate', 'files are opened', 'open_file')


def sites(P, m, f, openers):
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op == 'call' and ins.a[0][0] == 'global':
                t = P.resolve(m, ins.a[0][1])
                if t is not None and (t.module.name, t.name) in openers:
                    yield b, ins


def aliases(f, names):
    s = set(names)
    while True:
        more = {ins.res for b in f.order for ins in f.blocks[b] if ins.op in ('phi', 'select', 'bitcast') and ins.res not in s and
                any(x[0] == 'local' and x[1] in s for x in operands(ins))}
        if not more:
            return s
        s |= more


def operands(ins):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'local':
                out.append(x)
            else:
                for y in x:
                    go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(ins.a)
    return out


def passes(P, m, f, nm, closers):
    al = aliases(f, {nm})
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op == 'call' and ins.a[0][0] == 'global':
                t = P.resolve(m, ins.a[0][1])
                k = (t.module.name, t.name) if t is not None else None
                if k in closers:
                    v = ins.a[1][closers[k]][1]
                    if v[0] == 'local' and v[1] in al:
                        return True
    return False


def flow(P, m, f, names, site, openers, closers):
    """forward dataflow of the state of one stream: none (not opened yet), open, closed"""
    interp.analyse_cfg(f)
    al = aliases(f, names)
    start = {f.entry: {'open'} if site is None else {'none'}}
    inn = {b: set() for b in f.order}
    inn[f.entry] = set(start[f.entry])
    res = {'bad': set(), 'end': set(), 'given': False}
    todo = [f.entry]
    done = {}
    while todo:
        b = todo.pop()
        cur = set(inn[b])
        if done.get(b) == cur:
            continue
        done[b] = set(cur)
        for ins in f.blocks[b]:
            uses = [x for x in operands(ins) if x[1] in al]
            line = ir.line_of(m, ins.dbg)
            if ins is site:
                if 'open' in cur:
                    res['bad'].add(('a file is opened again before it was closed', line))
                cur = {'open'}
                continue
            if ins.op == 'call':
                t = P.resolve(m, ins.a[0][1]) if ins.a[0][0] == 'global' else None
                k = (t.module.name, t.name) if t is not None else None
                a = [v[1] for _, v in [(x[0], x[1]) for x in ins.a[1]] if isinstance(v, tuple) and v[0] == 'local' and v[1] in al]
                if not a:
                    continue
                if 'closed' in cur:
                    res['bad'].add(('the stream is used after it was closed', line))
                if k in closers and ins.a[1][closers[k]][1][0] == 'local' and ins.a[1][closers[k]][1][1] in al:
                    cur = {'closed'}
                continue
            if ins.op == 'store' and uses and ins.a[0][0] == 'local' and ins.a[0][1] in al:
                res['bad'].add(('the stream is put away in memory', line))
            if ins.op == 'ret':
                if uses and site is not None:
                    res['given'] = True
                    res['end'].add('given')
                else:
                    res['end'] |= cur - {'none'}
        for s in interp.succs(f, b):
            if not cur <= inn.get(s, set()) or s not in done:
                inn[s] = inn.get(s, set()) | cur
                todo.append(s)
    return res
