"""Check framework: obligations, decision-table comparison, evidence, verdicts."""
import json
import os
import sys
import time
import traceback
from . import build, interp, ir, libc, terms
from .terms import *
from .interp import Unsupported, Interp, State, Facts, Outcome

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Choose:
    """branching oracle: a specification asks conditions, undecided ones split the path facts"""

    def __init__(self, facts, script):
        self.facts = facts
        self.script = script
        self.i = 0
        self.pending = []
        self.dead = False

    def is_(self, l, op):
        if isinstance(l, int):
            l = C(l)
        r = self.facts.decide(l, op)
        if r is not None:
            return r
        if self.i < len(self.script):
            c = self.script[self.i]
            self.i += 1
            self._take(l, op, c)
            return c
        f = self.facts
        a = _assume(f, l, op)
        b = _deny(f, l, op)
        if a is None and b is None:
            self.dead = True
            raise Dead()
        if a is None:
            self.facts = b
            return False
        if b is None:
            self.facts = a
            return True
        self.pending.append(self.script[:self.i] + [False])
        self.script = self.script[:self.i] + [True]
        self.i += 1
        self.facts = a
        return True

    def _take(self, l, op, c):
        f = _assume(self.facts, l, op) if c else _deny(self.facts, l, op)
        if f is None:
            self.dead = True
            raise Dead()
        self.facts = f

    def eq(self, x, y):
        return self.is_(sub(x, lin(y)), '==')

    def le(self, x, y):
        return self.is_(sub(lin(x), lin(y)), '<=')

    def lt(self, x, y):
        return self.is_(add(sub(lin(x), lin(y)), ONE), '<=')

    def nz(self, x):
        return self.is_(x, '!=')

    def in_(self, a, dom):
        """membership of an atom/Lin in an interval set"""
        l = lin(a)
        l = self.facts.norm(l)
        v = self.facts.value(l)
        if v is not None:
            return is_contains(dom, v)
        if len(l.t) != 1 or abs(l.t[0][1]) != 1:
            for lo, hi in dom:
                if self.le(C(lo), l) and self.le(l, C(hi)):
                    return True
            return False
        at, k = l.t[0]
        d = tuple(sorted(tuple(sorted(((lo - l.c) * k, (hi - l.c) * k))) for lo, hi in dom))
        f1 = self.facts.assume_dom(at, d)
        f2 = self.facts.assume_dom(at, is_compl(d))
        if f1 is None and f2 is None:
            self.dead = True
            raise Dead()
        if f1 is None:
            self.facts = f2
            return False
        if f2 is None:
            self.facts = f1
            return True
        if self.i < len(self.script):
            c = self.script[self.i]
            self.i += 1
        else:
            self.pending.append(self.script[:self.i] + [False])
            self.script = self.script[:self.i] + [True]
            self.i += 1
            c = True
        self.facts = f1 if c else f2
        return c


class Dead(Exception):
    pass


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, terms.Atom):
        return V(x)
    return C(x)


def _assume(f, l, op):
    if op == '<':
        l = add(l, ONE)
        op = '<='
    return f.assume(l, op)


def _deny(f, l, op):
    if op == '==':
        return f.assume(l, '!=')
    if op == '!=':
        return f.assume(l, '==')
    if op == '<':
        return f.assume(scale(l, -1), '<=')
    return f.assume(add(scale(l, -1), ONE), '<=')


def table(facts, fn, limit=4000):
    """all (facts, result) rows of specification fn(oracle) under facts"""
    out = []
    todo = [[]]
    while todo:
        s = todo.pop()
        o = Choose(facts, s)
        try:
            r = fn(o)
            if libc.consistent(o.facts):
                out.append((o.facts, r))
        except Dead:
            pass
        todo += o.pending
        if len(out) > limit:
            raise Unsupported('specification table too large')
    return out


def norm_deep(f, x):
    """normalise a nested tuple/Lin under facts"""
    if isinstance(x, Lin):
        v = f.value(x)
        if v is not None:
            return C(v)
        x = f.norm(x)
        m = {a: C(d[0][0]) for a, d in f.dom.items() if len(d) == 1 and d[0][0] == d[0][1]}
        if f.sub:
            for a, l in f.sub.items():
                m.setdefault(a, l)
        return deep_subst(x, m) if m else x
    if isinstance(x, tuple):
        return tuple(norm_deep(f, y) for y in x)
    return x


def toks_eq(f, a, b):
    return libc.norm_tokens(norm_deep(f, tuple(a))) == libc.norm_tokens(norm_deep(f, tuple(b)))


def lin_eq(f, a, b):
    if a is None or b is None:
        return a is b
    if f.decide(sub(a, b), '==') is True:
        return True
    return norm_deep(f, a) == norm_deep(f, b)


def show_toks(toks):
    out = []
    for t in toks:
        if t[0] == 'lit':
            out.append(repr(t[1])[1:])
        else:
            out.append('%s' % (t,))
    return ' '.join(out)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.discharged = 0
        self.obligations = []
        self.samples = []
        self.analysed = set()
        self.callsites = 0
        self.loops = 0
        self.paths = 0
        self.counts = {}
        self.known = load_known(pid)
        self.suppressed = []
        self.P = None

    def program(self, *names):
        if self.P is None:
            self.P = build.load(names or None)
        return self.P

    def interp(self, prims=None, **opts):
        I = Interp(self.P, prims, opts)
        self._I = getattr(self, '_I', [])
        self._I.append(I)
        return I

    def collect(self):
        for I in getattr(self, '_I', []):
            self.analysed |= I.analysed
            self.callsites += I.callsites
            self.loops += len(I.loops_done)
            for S in I.loops_done:
                if S.trans() and not S.exits():
                    self.fail('ends', 'once entered, this loop is never left', S)

    def require(self, cond, rule, msg, where=None, key=None):
        """an obligation: cond must be True"""
        self.obligations.append(rule)
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if cond:
            self.discharged += 1
            if len(self.samples) < 12 and rule not in [s.split(':')[0] for s in self.samples]:
                self.samples.append('%s: %s' % (rule, msg[:300]))
            return True
        k = key or rule
        for kn in self.known:
            if kn['key'] == k:
                self.suppressed.append((kn, rule, msg))
                return False
        self.violations.append((rule, msg, where))
        return False

    def fail(self, rule, msg, where=None, key=None):
        return self.require(False, rule, msg, where, key)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln.startswith('KNOWN '):
                continue
            # KNOWN property=Cxx key=<key> <what fails>
            parts = ln.split(' ', 3)
            d = {'property': parts[1].split('=', 1)[1], 'key': parts[2].split('=', 1)[1], 'what': parts[3]}
            if d['property'] == pid:
                out.append(d)
    return out


def main(pid, fn, rule_text, assumptions, level='other'):
    t0 = time.time()
    terms.reset()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid)
    ctx.tier = tier
    err = None
    try:
        fn(ctx)
    except (Unsupported, build.BuildError, ir.IRError) as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except RecursionError as e:
        err = 'recursion: %s' % e
    except Exception as e:     # engine bug: analysis broken, never a verdict
        err = 'internal: %r' % e
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        else:
            traceback.print_exc(limit=-3)
    ctx.collect()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': rule_text,
            'obligations': len(ctx.obligations), 'discharged': ctx.discharged,
            'functions_analysed': sorted('%s:%s' % x for x in ctx.analysed),
            'call_sites_interpreted': ctx.callsites, 'loops_summarised': ctx.loops, 'paths': ctx.paths,
            'rule_instances': ctx.counts,
            'samples': ctx.samples[:12],
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(ctx.violations),
    }
    if err:
        ev['coverage']['analysis_error'] = err
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for kn, rule, msg in ctx.suppressed:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn['what']))
    if ctx.violations:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for rule, msg, where in ctx.violations:
                f.write('rule %s%s\n  %s\n\n' % (rule, ' at %s' % (where,) if where else '', msg))
        for rule, msg, where in ctx.violations[:10]:
            print('%s: rule %s broken%s: %s' % (pid, rule, ' at %s' % (where,) if where else '', msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        if err:
            print('note: the analysis also stopped early: %s' % err)
        return 1
    if err:
        print('%s: analysis broken: %s' % (pid, err))
        return 2
    if not ctx.obligations:
        print('%s: analysis broken: no obligations generated' % pid)
        return 2
    print('%s: held; %d obligations over %d functions, %d loops, %d call sites (%.1f s)' % (
        pid, len(ctx.obligations), len(ctx.analysed), ctx.loops, ctx.callsites, time.time() - t0))
    return 0
