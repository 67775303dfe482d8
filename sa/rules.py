"""Shared rule helpers."""
from .terms import *
from .harness import Bad, Und
from . import engine as E
from .poly import canon
from .models import t_len, resimp

OPAQUE = {'upd', 'apply', 'deref', 'uninit', 'setd', 'cast', 'proj', 'storep', 'havoc', 'fold', 'elem'}


def opaque_in(t, calls=(), phis=()):
    """why t is not fully interpreted (None when it is)"""
    for x in subterms(t):
        if x.op == 'call' and not evaluated(x.args[0]) and not any(x.args[0] == c or x.args[0].endswith('::' + c) for c in calls):
            return 'call ' + x.args[0]
        if x.op == 'phi' and x not in phis:
            return 'loop value'
        if x.op in OPAQUE:
            return x.op
    return None


def evaluated(name):
    from . import evalt
    return name.split('::')[0] + '::' + name.split('::')[-1] in evalt.CALLS


def calls_in(t):
    return {x.args[0] for x in subterms(t) if x.op == 'call'}


def expect(got, want, what, where=None, calls=(), phis=(), facts=(), bind=None):
    """got is want; a difference is a violation only when both forms are fully interpreted and some instance of their
    unknowns (satisfying the path facts) tells them apart; anything else is undecided"""
    if got is want:
        return
    g, w = canon(got), canon(want)
    if g is w:
        return
    wc = calls_in(w)
    wp = [x for x in subterms(w) if x.op == 'phi']
    why = opaque_in(g, tuple(calls) + tuple(wc), tuple(phis) + tuple(wp))
    if why:
        raise Und('%s: not in closed form (%s): %s' % (what, why, show(g)))
    from . import evalt
    try:
        d = evalt.differ(g, w, facts, bind)
    except evalt.NoEval as e:
        if facts and str(e) == 'no instance':
            raise Und('%s: no instance satisfies the path conditions; %s' % (what, show(g)))
        if simple_form(g) and simple_form(w):
            raise Bad('%s is %s, must be %s' % (what, show(g), show(w)), where)
        raise Und('%s: %s instead of %s (%s)' % (what, show(g), show(w), e))
    if d is None:
        raise Und('%s: %s agrees with %s on all instances tried' % (what, show(g), show(w)))
    raise Bad('%s is %s, must be %s (e.g. %s instead of %s)' % ((what, show(g), show(w)) + tuple(str(x)[:80].replace('Fraction', '') for x in d)), where)


SIMPLE = {'int', 'rat', 'poly', 'npoly', 'arg', 'fld', 'idx', 'agg', 'call', 'mget', 'push', 'store', 'minsert', 'sinsert', 'len', 'phi', 'ix', 'str', 'collect',
          'emptymap', 'emptyset', 'contains', 'cell0', 'with'}


def simple_form(t):
    """only constructors and algebraic normal forms: syntactic difference is a difference"""
    return all(x.op in SIMPLE for x in subterms(t))


def fact(path, pred):
    return [(t, v) for t, v in path.facts() if pred(t, v)]


def has(path, t, v):
    """the path knows canonical t == v"""
    t = canon(t)
    for c, w in path.facts():
        if c is t and w == v:
            return True
    return False


def first(xs, default=None):
    for x in xs:
        return x
    return default


# ------------------------------------------------------------------ decision tables over finite abstract cases
from .poly import to_poly, from_poly, padd
from .engine import canon_bool
NEG, ZERO, POS = (None, -1), (0, 0), (1, None)
SIGNS = {-1: NEG, 0: ZERO, 1: POS}


def cells(*summaries):
    """a partition of the integers that is finer than every constant the facts compare with"""
    ks = {0}
    for s in summaries:
        for p in s.paths:
            for t, v in p.facts():
                for x in subterms(t):
                    if x.op == 'int' and abs(x.args[0]) <= 4:
                        ks.add(x.args[0])
                    elif x.op == 'poly':
                        ks |= {int(-c) for m, c in x.args if not m and abs(c) <= 4} | {int(c) for m, c in x.args if not m and abs(c) <= 4}
    ks = sorted(ks | {-k for k in ks})
    out = []
    for a, b in zip(ks, ks[1:] + [None]):
        out.append((a, a))
        if b is None or b > a + 1:
            out.append((a + 1, None if b is None else b - 1))
    return [(None, ks[0] - 1)] + out


def cell_sign(c):
    return 0 if c == (0, 0) else 1 if c[0] is not None and c[0] > 0 else -1


class Cases:
    """an abstract case: integer intervals for linear forms, truth values for boolean atoms, orders for compared terms"""

    def __init__(self, ivl=(), bools=(), order=()):
        self.ivl = {canon(k): v for k, v in dict(ivl).items()}
        self.bools = {canon(k): v for k, v in dict(bools).items()}
        self.order = {}
        for (a, b), v in dict(order).items():
            a, b = canon(a), canon(b)
            self.order[(a, b)] = v
            self.order[(b, a)] = -v

    def interval(self, t):
        t = canon(t)
        if t.op == 'int':
            return (t.args[0], t.args[0])
        p = to_poly(t)
        c = p.get((), 0)
        q = {m: v for m, v in p.items() if m}
        for base, (lo, hi) in self.ivl.items():
            b = to_poly(base)
            m0 = next(iter(b))
            if m0 not in q:
                continue
            k = q[m0] / b[m0]
            if padd(q, {m: v * k for m, v in b.items()}, -1):
                continue
            e = [None if x is None else k * x + c for x in (lo, hi)]
            return tuple(e) if k > 0 else (e[1], e[0])
        for (x, y), o in self.order.items():
            d = padd(to_poly(x), to_poly(y), -1)
            if d and not padd(q, d, -1):
                lo, hi = SIGNS[o]
                return (None if lo is None else lo + c, None if hi is None else hi + c)
        return None

    def cmp(self, a, b):
        if a is b:
            return 0
        if (a, b) in self.order:
            return self.order[(a, b)]
        if a.op == 'int' and b.op == 'int':
            return (a.args[0] > b.args[0]) - (a.args[0] < b.args[0])
        i = self.interval(canon(mk('sub', 'i', a, b)))
        if i:
            if i == (0, 0):
                return 0
            if i[0] is not None and i[0] > 0:
                return 1
            if i[1] is not None and i[1] < 0:
                return -1
        return None

    def value(self, t):
        """integer/boolean value of a term in this case, or None"""
        t = canon(t)
        if t.op == 'int':
            return t.args[0]
        if t in self.bools:
            return self.bools[t]
        if t.op == 'not':
            v = self.value(t.args[0])
            return None if v is None else 1 - v
        if t.op in ('and', 'or', 'bitand', 'bitor'):
            a, b = (self.value(x) for x in t.args[-2:])
            if t.op.endswith('and'):
                return 0 if 0 in (a, b) else (None if None in (a, b) else 1)
            return 1 if 1 in (a, b) else (None if None in (a, b) else 0)
        if t.op == 'lt':
            a, b = t.args
            if a.op == 'int' and b.op != 'int' and not ((a, b) in self.order):
                i = self.interval(canon(mk('sub', 'i', b, a)))
                if i:
                    if i[0] is not None and i[0] > 0:
                        return 1
                    if i[1] is not None and i[1] <= 0:
                        return 0
                return None
            c = self.cmp(a, b)
            return None if c is None else int(c < 0)
        if t.op == 'eq':
            a, b = t.args
            c = self.cmp(a, b)
            if c is not None:
                return int(c == 0)
            if a.op == 'cmp' or b.op == 'cmp':
                pass
            return None
        if t.op == 'discr':
            x = t.args[0]
            if x.op == 'cmp':
                c = self.cmp(*x.args)
                return c
            if x.op == 'agg':
                return x.args[1]
        if t.op == 'cmp':
            return self.cmp(*t.args)
        if t.op == 'ite':
            c = self.value(t.args[0])
            if c is None:
                return None
            return self.value(t.args[1] if c else t.args[2])
        i = self.interval(t)
        if i and i[0] is not None and i[0] == i[1]:
            return i[0]
        return None

    def holds(self, t, v):
        """1 / 0 / None"""
        x = self.value(t)
        if x is None:
            if t.op not in ('discr', 'lt', 'eq', 'not'):
                i = self.interval(t)
                if i and isinstance(v, int) and (i[0] is not None and v < i[0] or i[1] is not None and v > i[1]):
                    return 0
                if i and not isinstance(v, int) and all(i[0] is not None and y < i[0] or i[1] is not None and y > i[1] for y in v[1]):
                    return 1
            return None
        if t.op == 'discr' and t.args[0].op == 'cmp':
            f = lambda y: y - 256 if y > 127 else y
        else:
            f = lambda y: y
        if isinstance(v, int):
            return int(f(v) == x)
        return int(x not in [f(y) for y in v[1]])

    def paths(self, s):
        """(path, certain) feasible in this case"""
        out = []
        for p in s.paths:
            sure = True
            ok = True
            for t, v in p.facts():
                h = self.holds(t, v)
                if h == 0:
                    ok = False
                    break
                if h is None:
                    sure = t
            if ok:
                out.append((p, sure))
        return out

    def outcome(self, s):
        """the return term in this case (one), raising Und when not determined"""
        fs = self.paths(s)
        if not fs:
            raise Und('no feasible path in a case')
        r = None
        for p, sure in fs:
            x = p.ret if p.kind == 'return' else p.kind
            if r is None:
                r = x
            elif r is not x:
                un = next((u for _, u in fs if u is not True), None)
                raise Und('condition not decided by the case: %s' % (show(un) if un is not None else '?'))
        return r


def pyfn(ctx, selfre, trait, name, public=True, refself=None, full=None):
    """method `name` of `impl trait for selfre`; full: substring of the unstripped path"""
    import re
    out = []
    for f in ctx.lib.fns:
        if f.kind == 'Closure' or f.name != name:
            continue
        m = re.match(r'^<(&?)(.*?)(?:<.*>)? as ([\w:]+)(<.*>)?>::\w+$', f.path)
        if not m:
            continue
        if not m.group(2).endswith(selfre) or not m.group(3).endswith(trait):
            continue
        if refself is not None and bool(m.group(1)) != refself:
            continue
        if full is not None and full not in f.path:
            continue
        out.append(f)
    if len(out) == 1:
        return out[0]
    if not out and public:
        raise Bad('no implementation of %s::%s for %s' % (trait, name, selfre))
    raise Und('%d implementations of %s::%s for %s' % (len(out), trait, name, selfre))


def the_return(s):
    r = s.returns()
    if len(r) != 1:
        raise Und('%d return paths' % len(r))
    return r[0]


def A(i, *fields):
    t = mk('arg', i)
    for f in fields:
        t = E.getfield(t, f, None) if not isinstance(f, tuple) else E.getfield(t, *f)
    return t


def neg(t, k='i'):
    return mk('neg', k, t)


def add(a, b, k='i'):
    return mk('add', k, a, b)


def sub_(a, b, k='i'):
    return mk('sub', k, a, b)


def infile(name):
    return dict(inline_if=lambda g: g.file.endswith(name) and g.kind != 'Closure')
