"""Canonical forms: commutative polynomials over atoms, noncommutative words for matrix-like values.

canon(t) rebuilds a term so that algebraically equal arithmetic becomes the identical term.
"""
from fractions import Fraction
from .terms import *

_memo = {}


def canon(t):
    if isinstance(t, tuple):
        return tuple(canon(x) for x in t)
    if not isinstance(t, T):
        return t
    r = _memo.get(t.id)
    if r is None:
        r = _canon(t)
        _memo[t.id] = r
        _memo[r.id] = r
    return r


NUM = ('i', 'q', 'f', 'p')


def _canon(t):
    o = t.op
    if o in ('add', 'sub', 'mul', 'div', 'neg', 'rem'):
        kd = t.args[0]
        a = [canon(x) for x in t.args[1:]]
        if kd == 'm':
            return _nc(o, a)
        return _cm(o, kd, a)
    if o == 'int':
        return t
    if o == 'poly':
        out = {}
        for m, c in t.args:
            q = {(): c}
            for a, e in m:
                g = to_poly(canon(a))
                if a.op == 'inv':
                    b = canon(a.args[0])
                    g = pinv(to_poly(b), 'q') if b.op != 'int' or b.args[0] else g
                for _ in range(e):
                    q = pmul(q, g)
            out = padd(out, q)
        return from_poly(out)
    if o == 'npoly':
        r = {}
        for m, c in t.args:
            w = {(): c}
            for a in m:
                g = to_np(canon(a))
                w2 = {}
                for m1, c1 in w.items():
                    for m2, c2 in g.items():
                        w2[m1 + m2] = w2.get(m1 + m2, 0) + c1 * c2
                w = w2
            for k, v in w.items():
                r[k] = r.get(k, 0) + v
        return from_np(r)
    args = tuple(canon(x) for x in t.args)
    if o == 'eq':
        return canon_eq(args[0], args[1])
    if o == 'lt':
        return canon_lt(args[0], args[1])
    if o == 'not':
        from .engine import t_not
        return t_not(args[0])
    if o == 'abs':
        a = args[0]
        if a.op == 'int':
            return INT(abs(a.args[0]))
        p = to_poly(a)
        if p and lead(p) < 0:
            a = from_poly({m: -c for m, c in p.items()})
        return mk('abs', a)
    if o == 'floor' and args[0].op == 'int':
        return args[0]
    if o == 'sum':
        return canon_sum(args[0])
    if o == 'islice' and args[2] is not None:
        pass
    if o in ('len', 'idx', 'fld', 'mget', 'contains', 'ite'):
        from .models import resimp
        t2 = t if args == t.args else mk(o, *args, ty=t.ty)
        t3 = resimp_top(t2)
        return t3 if t3 is t2 else canon(t3)
    return t if args == t.args else mk(o, *args, ty=t.ty)


def resimp_top(x):
    from . import engine as e
    from .models import t_len, t_ite
    a = x.args
    o = x.op
    if o == 'idx':
        return e.getidx(*a)
    if o == 'mget':
        return e.getkey(*a)
    if o == 'fld':
        return e.getfield(a[2], a[0], a[1])
    if o == 'len':
        return t_len(*a)
    if o == 'contains':
        return e.has_key(*a)
    if o == 'ite':
        return t_ite(*a)
    return x


# ------------------------------------------------------------ commutative polynomials: {monomial: coef}
# monomial = sorted tuple of (atom, exponent)

def to_poly(t):
    if t.op == 'int':
        return {(): Fraction(t.args[0])} if t.args[0] else {}
    if t.op == 'rat':
        return {(): Fraction(t.args[0], t.args[1])}
    if t.op == 'poly':
        return {m: c for m, c in t.args}
    if t.op == 'float':
        try:
            f = Fraction(float(t.args[0]))
            return {(): f} if f else {}
        except Exception:
            pass
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return INT(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if c.denominator == 1:
                return INT(c.numerator)
            return mk('rat', c.numerator, c.denominator)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', *sorted(p.items(), key=mkey))


def mkey(mc):
    return tuple((a.id, e) for a, e in mc[0])


def lead(p):
    return sorted(p.items(), key=mkey)[-1][1]


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def mono_mul(m, n):
    d = {}
    for a, e in m + n:
        if a.op == 'inv':
            a, e = a.args[0], -e
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e > 0:
            out.append((a, e))
        elif e < 0:
            out.append((mk('inv', a), -e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out)


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono_mul(m, n)
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def pinv(b, kd):
    """1/b as a polynomial with inverse atoms"""
    if len(b) == 1:
        (m, c), = b.items()
        return {mono_mul((), tuple((mk('inv', a) if a.op != 'inv' else a.args[0], e) for a, e in m)): 1 / c}
    return {((mk('inv', from_poly(b)), 1),): Fraction(1)}


def _cm(o, kd, a):
    if o == 'neg':
        return from_poly({m: -c for m, c in to_poly(a[0]).items()})
    x, y = to_poly(a[0]), to_poly(a[1])
    if o == 'add':
        return from_poly(padd(x, y))
    if o == 'sub':
        return from_poly(padd(x, y, -1))
    if o == 'mul':
        if len(x) * len(y) > 400:
            return mk('mul', kd, *a)
        return from_poly(pmul(x, y))
    if o == 'div' and kd in ('q', 'f') and y:
        return from_poly(pmul(x, pinv(y, kd)))
    if o == 'rem' and kd == 'q' and a[1].op == 'int' and abs(a[1].args[0]) == 1:
        return mk('rem1', a[0])
    return mk(o, kd, *a)


# ------------------------------------------------------------ noncommutative

def to_np(t):
    if t.op == 'int':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'npoly':
        return dict(t.args)
    return {(t,): 1}


def from_np(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return INT(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return INT(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk('npoly', *sorted(p.items(), key=lambda mc: tuple(a.id for a in mc[0])))


def _nc(o, a):
    if o == 'neg':
        return from_np({m: -c for m, c in to_np(a[0]).items()})
    x, y = to_np(a[0]), to_np(a[1])
    if o in ('add', 'sub'):
        s = 1 if o == 'add' else -1
        r = dict(x)
        for m, c in y.items():
            r[m] = r.get(m, 0) + s * c
        return from_np(r)
    if o == 'mul':
        r = {}
        for m, c in x.items():
            for n, d in y.items():
                r[m + n] = r.get(m + n, 0) + c * d
        return from_np(r)
    return mk(o, 'm', *a)


# ------------------------------------------------------------ relations

def canon_eq(a, b):
    from .engine import t_eq
    r = t_eq(a, b)
    if r.op != 'eq':
        return r
    if numeric(a) or numeric(b):
        p = padd(to_poly(a), to_poly(b), -1)
        if not p:
            return TRUE
        if len(p) == 1 and () in p:
            return FALSE
        if lead(p) < 0:
            p = {m: -c for m, c in p.items()}
        c = content(p)
        p = {m: v / c for m, v in p.items()}
        return mk('eq', INT(0), from_poly(p))
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('eq', x, y)


def content(p):
    from math import gcd
    n, d = 0, 1
    for v in p.values():
        n = gcd(n, v.numerator)
        d = d * v.denominator // gcd(d, v.denominator)
    return Fraction(n, d)


def numeric(t):
    return t.op in ('int', 'rat', 'poly', 'ix', 'bv', 'abs', 'len', 'floor', 'remeu', 'rem', 'div', 'mod')


def canon_lt(a, b):
    from .engine import t_lt
    r = t_lt(a, b)
    if r.op != 'lt':
        return r
    if a.op in ('int', 'poly', 'rat') or b.op in ('int', 'poly', 'rat'):
        p = padd(to_poly(b), to_poly(a), -1)     # 0 < p
        if not p:
            return FALSE
        if len(p) == 1 and () in p:
            return TRUE if p[()] > 0 else FALSE
        c = content(p)
        p = {m: v / c for m, v in p.items()}
        return mk('lt', INT(0), from_poly(p))
    return mk('lt', a, b)


def canon_sum(c):
    """sum over a comprehension: linear in the summand"""
    if c.op == 'comp' and c.args[0] == 'map' and len(c.args[3]) == 1 and not c.args[3][0][0]:
        kind, n, I, ((fs, v),) = c.args
        p = to_poly(v)
        out = {}
        for m, k in p.items():
            inside = tuple((a, e) for a, e in m if contains(a, lambda t: t is I))
            outside = tuple((a, e) for a, e in m if (a, e) not in inside)
            if not inside:
                q = {mono_mul(outside, ((n, 1),)): k} if n.op != 'int' else {outside: k * n.args[0]}
            else:
                s = mk('sum', mk('comp', 'map', n, I, (((), from_poly({inside: Fraction(1)})),)))
                q = {mono_mul(outside, ((s, 1),)): k}
            out = padd(out, q)
        return from_poly(out)
    return mk('sum', c)
