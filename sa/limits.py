"""Fixed limits: work that stops at a number of entries or rounds the source spells out.

A property that speaks of every entry of its input does not hold when a function it rests on stops after a fixed number of
them.  The rule reads the summaries the check has made; none of the functions concerned mentions a number above SMALL today,
so nothing of the present code is excepted."""
from .terms import *
from .poly import canon, padd, subterms, to_poly
from .models import t_len
from .rules import Bad

SMALL = 8
CMP = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')


def lit(x):
    """value of a number written in the source, None"""
    if isinstance(x, T) and x.op == 'int' and isinstance(x.args[0], int) and abs(x.args[0]) >= SMALL:
        return x.args[0]
    return None


def terms_of(p):
    for t, v in p.facts():
        yield t
    if isinstance(p.raw_ret, T):
        yield p.ret
    for e in p.events:
        if e[0] == 'back':
            for v in e[2].values():
                if isinstance(v, T):
                    yield canon(p.norm(v))
        elif e[0] == 'loop':
            for ph in e[2].values():
                if isinstance(ph, T) and ph.op == 'phi' and isinstance(ph.args[3], T):
                    yield canon(p.norm(ph.args[3]))
        else:
            for x in e[1:]:
                if isinstance(x, T):
                    yield canon(p.norm(x))


def bound(t):
    """a fixed limit on what t counts"""
    for x in subterms(t):
        if x.op == 'min':
            n = [lit(y) for y in x.args if lit(y) is not None and lit(y) > 0]
            if n and any(isinstance(y, T) and y.op != 'int' for y in x.args):
                return 'at most %d of %s count' % (min(n), show([y for y in x.args if lit(y) is None][0])[:120])
        elif x.op == 'ix' and lit(canon(x.args[1])) is not None:
            return 'a loop makes %d rounds whatever the input is' % lit(canon(x.args[1]))
        elif x.op == 'comp' and x.args[0] in ('map', 'filter'):
            for conds, val in x.args[3]:
                for c in conds:
                    c = c[0] if isinstance(c, tuple) else c
                    for y in subterms(c):
                        if y.op in CMP and any(lit(z) is not None for z in y.args) and any(z is x.args[2] for z in y.args):
                            return 'entries are left out by their number: %s' % show(y)[:120]
    return None


def limited(t):
    """the count that the condition t compares with a fixed number"""
    while t.op == 'not':
        t = t.args[0]
    if t.op not in CMP or len(t.args) != 2 or not all(isinstance(x, T) for x in t.args):
        return None
    try:
        d = padd(to_poly(t.args[0]), to_poly(t.args[1]), -1)
    except Exception:
        return None
    k = d.pop((), 0)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1 or abs(k / c) < SMALL:
        return None
    return m[0][0]


def idle(p):
    """p returns nothing and changes nothing, although other paths of the function do"""
    acts = ('push', 'write', 'loop', 'panic')
    return isinstance(p.raw_ret, T) and p.raw_ret.op == 'agg' and p.raw_ret.args == ('tuple', None) and not p.evs(*acts) \
        and any(q.kind == 'return' and q.evs('push', 'write') for q in p.s.paths)


def taken(new, old):
    """the same, but for an entry taken off a queue"""
    return new is old or isinstance(new, T) and new.op in ('rest', 'init') and new.args[0] is old


def stops(p):
    """a loop that p leaves, or goes around without doing anything, because a count has reached a fixed number"""
    for e in p.events:
        if e[0] == 'exhausted' and len(e) > 2 and isinstance(e[2], T):
            try:
                n = canon(p.norm(t_len(e[2])))
            except Exception:
                continue
            if lit(n) is not None and e[2].op in ('range', 'rangei'):
                return 'a loop makes at most %d rounds whatever the input is' % lit(n)
            if n.op == 'min' and bound(n):
                return bound(n)
    for t, v in p.facts():
        core = limited(t)
        if core is None:
            continue
        if core.op == 'len' and p.kind == 'return' and idle(p):
            return 'nothing is done when %s' % show(t if v in (1, True) else mk('not', t))[:160]
        n = core
        if n.op == 'len':
            n = n.args[0]
        if not isinstance(n, T) or n.op not in ('phi', 'ix'):
            continue
        k = n.args[0]
        if k not in [e[1] for e in p.events if e[0] == 'loop']:
            continue
        says = show(t if v in (1, True) else mk('not', t))[:160]
        if not (p.kind == 'back' and p.raw_ret == k):
            if k not in p.exhausted and [e for e in p.events if e[0] == 'exit' and e[1] == k]:
                return 'a loop is left when %s' % says
        else:
            e = [e for e in p.events if e[0] == 'back' and e[1] == k][-1]
            le = [x for x in p.events if x[0] == 'loop' and x[1] == k][-1]
            if all(cp in p.s.inv or ph in p.s.inv or not isinstance(ph, T) or taken(canon(p.norm(e[2].get(cp, ph))), canon(p.norm(ph))) for cp, ph in le[2].items()):
                return 'nothing is done any more when %s' % says
    return None


def check(ctx):
    n = 0
    seen = set()
    for where, s in ctx.sums:
        if id(s) in seen:
            continue
        seen.add(id(s))
        memo = set()
        for p in s.paths:
            for t in terms_of(p):
                if t in memo:
                    continue
                memo.add(t)
                m = bound(t)
                if m:
                    raise Bad(m, where)
            m = stops(p)
            if m:
                raise Bad(m, where)
            n += 1
    return '%d summaries, %d paths: no fixed limit on entries or rounds' % (len(seen), n)


LIMITED = set('C03 C11 C12 C13 C14 C16 C18 C19 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37 C38'.split())


def run(mod, ctx):
    mod.run(ctx)
    if ctx.prop in LIMITED:
        ctx.ob('no fixed limit on entries or rounds', check, ctx)
