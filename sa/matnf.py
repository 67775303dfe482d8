"""Normal form of matrix-valued terms: columns and row-major data."""
from .terms import *
from . import engine as E
from .models import t_len, resimp
from .poly import canon
from .summary import alpha, stores, resimp1
from .harness import Bad

_n = [0]


def fresh():
    _n[0] += 1
    return mk('bv', 'm%d' % _n[0])


def M(c, d):
    return agg('M', None, c, d)


def ncols(m):
    if m.op == 'agg' and m.args[0] == 'M':
        return m.args[2]
    return E.getfield(m, 1, None)


def data(m):
    if m.op == 'agg' and m.args[0] == 'M':
        return m.args[3]
    return E.getfield(m, 2, None)


def nrows(m):
    if m.op == 'agg' and m.args[0] == 'M':
        return mk('rows', m)
    return E.getfield(m, 0, None)


def lin(m, i, j):
    return canon(mk('add', 'i', mk('mul', 'i', i, ncols(m)), j))


def vmap(n, f):
    b = fresh()
    return mk('comp', 'map', canon(n), b, (((), f(b)),))


def name(t):
    return t.args[0].split('::')[-2] + '::' + t.args[0].split('::')[-1] if '::' in t.args[0] else t.args[0]


def go1(x):
    a = x.args
    if x.op == 'call':
        n = name(x)
        b = a[1:]
        if n == 'Matrix::shape':
            return tup(nrows(b[0]), ncols(b[0]))
        if n == 'Matrix::new':
            return M(b[0], b[1])
        if n == 'Matrix::reshape':
            return M(b[1], data(b[0]))
        if n == 'Matrix::row':
            return M(canon(t_len(b[0])), b[0])
        if n == 'Matrix::col':
            return M(INT(1), b[0])
        if n == 'Matrix::zero':
            return M(b[1], mk('from_elem', INT(0), canon(mk('mul', 'i', b[0], b[1]))))
        if n == 'Matrix::get_row':
            return vmap(ncols(b[0]), lambda v: E.getidx(data(b[0]), lin(b[0], b[1], v)))
        if n == 'Matrix::get_rows':
            return vmap(nrows(b[0]), lambda w: vmap(ncols(b[0]), lambda v: E.getidx(data(b[0]), lin(b[0], w, v))))
        if n == 'Matrix::get_col':
            return vmap(nrows(b[0]), lambda v: E.getidx(data(b[0]), lin(b[0], v, b[1])))
        return x
    if x.op == 'agg' and a[0] == 'arithmetic::matrices::Matrix' or x.op == 'agg' and str(a[0]).endswith('matrices::Matrix'):
        return M(a[3], a[4])
    if x.op == 'idx' and a[1].op == 'agg' and a[1].args[0] == 'tuple' and len(a[1].args) == 4:
        i, j = a[1].args[2:]
        return E.getidx(data(a[0]), lin(a[0], i, j))
    if x.op == 'islice' and a[0].op in ('fld', 'arg', 'idx'):
        lo, hi = a[1], a[2]
        if hi is None:
            hi = t_len(a[0])
        return vmap(mk('sub', 'i', hi, lo), lambda v: E.getidx(a[0], canon(mk('add', 'i', lo, v))))
    if x.op == 'store' and a[1].op == 'agg' and a[1].args[0] == 'tuple' and len(a[1].args) == 4:
        i, j = a[1].args[2:]
        return M(ncols(a[0]), mk('store', data(a[0]), lin(a[0], i, j), a[2]))
    if x.op == 'stores':
        m, c = a
        # tuple index -> linear index
        def leaf(y):
            if y.op == 'comp':
                r = [(fs, leaf(z)) for fs, z in y.args[3]]
                if any(z is None for _, z in r):
                    return None
                return mk('comp', y.args[0], y.args[1], y.args[2], tuple(r))
            ind, v = y.args[2:4]
            if ind.op == 'agg' and ind.args[0] == 'tuple' and len(ind.args) == 4:
                return tup(lin(m, *ind.args[2:]), v)
            return None
        c2 = leaf(c)
        if c2 is None:
            return x
        d = data(m)
        # a full row-major overwrite
        if c2.args[0] == 'flat' and len(c2.args[3]) == 1 and not c2.args[3][0][0]:
            n, i = c2.args[1], c2.args[2]
            inn = c2.args[3][0][1]
            if inn.op == 'comp' and inn.args[0] == 'map' and len(inn.args[3]) == 1 and not inn.args[3][0][0]:
                k, j = inn.args[1], inn.args[2]
                ind, v = inn.args[3][0][1].args[2:4]
                if ind is canon(mk('add', 'i', mk('mul', 'i', i, k), j)) and k is ncols(m) and canon(t_len(d)) is canon(mk('mul', 'i', n, k)):
                    return M(k, mk('comp', 'flat', n, i, (((), mk('comp', 'map', k, j, (((), v),))),)))
        return M(ncols(m), mk('stores', d, c2))
    return x


def mnorm(t):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ('poly', 'npoly'):
            # rebuild sums of products
            from .poly import from_poly, to_poly, pmul, padd, from_np
            if x.op == 'poly':
                s = {}
                for m, c in x.args:
                    q = {(): c}
                    for at, e in m:
                        g = to_poly(go(at))
                        for _ in range(e):
                            q = pmul(q, g)
                    s = padd(s, q)
                r = from_poly(s)
            else:
                r = mk('npoly', *[(tuple(go(y) for y in m), c) for m, c in x.args])
        else:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else resimp1(mk(x.op, *na, ty=x.ty))
            for _ in range(6):
                r2 = go1(r)
                if r2 is r:
                    break
                r = r2
                if r.op in ('fld', 'idx', 'len'):
                    r = resimp1(r)
            if r is not x and r.op == 'len':
                r = t_len(r.args[0])
        memo[x.id] = r
        return r
    return canon(alpha(canon(go(t))))


def matval(seed, tag, r=None, c=None):
    from fractions import Fraction
    import hashlib
    h = lambda s: int(hashlib.sha1(('%s|%s|%s' % (seed, tag, s)).encode()).hexdigest()[:8], 16)
    # mostly small shapes, now and then long ones
    r = (h('r') % 5 if h('R') % 12 else 5 + h('r') % 9) if r is None else r
    c = (h('c') % 5 if h('C') % 12 else 5 + h('c') % 9) if c is None else c
    return ('@Matrix', None, Fraction(r), Fraction(c), [Fraction(h('e%d' % i) % 23 - 11) for i in range(r * c)])


def matbind(*args, same=False, sq=False, inner=False):
    """instances in which the given terms are matrices"""
    def bind(seed):
        b = {}
        prev = None
        for k, a in enumerate(args):
            r = c = None
            if prev is not None and same:
                r, c = int(prev[2]), int(prev[3])
            if prev is not None and inner:
                r = int(prev[3])
            v = matval(seed, k, r, c)
            if sq:
                v = matval(seed, k, int(v[2]), int(v[2]))
            b[canon(a)] = v
            prev = v
        return b
    return bind


# ------------------------------------------------------------------ single entries of updated vectors

def linsign(t, pos, neg=()):
    """sign of t when it is a constant, or constant plus nonnegative symbols `pos` (all coefficients of one sign); None if unknown"""
    from .poly import to_poly
    c = 0
    lo = hi = True
    for m, k in to_poly(canon(t)).items():
        if not m:
            c = k
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in pos:
            if k > 0:
                hi = False
            else:
                lo = False
        else:
            return None
    if lo and hi:
        return (c > 0) - (c < 0)
    if lo and c > 0:
        return 1
    if hi and c < 0:
        return -1
    if lo and c == 0:
        return '>=0'
    if hi and c == 0:
        return '<=0'
    return None


def entry(F, e, pos, hi=None):
    """entry number e of the vector F; `pos`: symbols known to be >= 0; hi: canonical length of all vectors involved"""
    e = canon(e)
    o = F.op
    a = F.args
    if o == 'store':
        s = linsign(mk('sub', 'i', a[1], e), pos)
        if s == 0:
            return a[2]
        if s in (1, -1):
            return entry(a[0], e, pos, hi)
        return None
    if o == 'stores':
        c = a[1]
        if c.op != 'comp' or c.args[0] != 'map' or len(c.args[3]) != 1 or c.args[3][0][0]:
            return None
        n, I = c.args[1], c.args[2]
        ind, x = c.args[3][0][1].args[2:4]
        base = canon(mk('sub', 'i', ind, I))
        if contains(base, lambda y: y is I):
            return None
        b = canon(mk('sub', 'i', e, base))
        s = linsign(b, pos)
        if s == -1:
            return entry(a[0], e, pos, hi)
        if s in (0, 1, '>=0'):
            if hi is not None and canon(mk('add', 'i', n, base)) is not canon(hi):
                # the range stops elsewhere
                for lim in [x for x in subterms(n) if x.op == 'min']:
                    oth = [x for x in lim.args if isinstance(x, T) and not contains(x, lambda y: y.op in ('len', 'call', 'phi'))]
                    # the bound may have been moved into the minimum
                    full = canon(resimp(subst(canon(mk('add', 'i', n, base)), {lim: oth[0]}))) if oth else None
                    rest = [x for x in lim.args if isinstance(x, T) and x not in oth]
                    if len(oth) == 1 and len(rest) == 1 and canon(resimp(subst(canon(mk('add', 'i', n, base)), {lim: rest[0]}))) is canon(hi):
                        raise Bad('only the entries before number %s are changed' % show(full))
                d = linsign(mk('sub', 'i', mk('sub', 'i', n, b), INT(1)), pos)
                if d not in (0, 1, '>=0'):
                    return None
            return deep(canon(resimp(subst(x, {I: b}))), pos, hi)
        return None
    if o == 'comp' and a[0] == 'map' and len(a[3]) == 1 and not a[3][0][0]:
        return deep(canon(resimp(subst(a[3][0][1], {a[2]: e}))), pos, hi)
    if o == 'ite':
        d = truth(a[0], pos)
        if d is None:
            return None
        return entry(a[1] if d else a[2], e, pos, hi)
    return E.getidx(F, e)


def truth(t, pos):
    if t.op == 'not':
        v = truth(t.args[0], pos)
        return None if v is None else 1 - v
    if t.op in ('lt', 'eq'):
        s = linsign(mk('sub', 'i', t.args[0], t.args[1]), pos)
        if t.op == 'lt':
            return 1 if s == -1 else 0 if s in (0, 1, '>=0') else None
        return 1 if s == 0 else 0 if s in (1, -1) else None
    return None


def deep(t, pos, hi):
    """resolve the reads of updated vectors inside t"""
    m = {}
    for y in subterms(t):
        if y.op == 'idx' and y.args[0].op in ('store', 'stores', 'comp'):
            x = entry(y.args[0], y.args[1], pos, hi)
            if x is not None:
                m[y] = x
        elif y.op == 'ite':
            d = truth(y.args[0], pos)
            if d is not None:
                m[y] = y.args[1] if d else y.args[2]
    return canon(resimp(subst(t, m))) if m else t
