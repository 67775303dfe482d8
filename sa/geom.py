"""Exact instances of vectors, points, scalar products, affine and coordinate maps, for evaluating summaries.

Nothing of the program is run: summaries (terms) are evaluated on small rational values, and compared with the textbook
definition of the operation.  Matrix operations inside summaries have their mathematical meaning (C01 and C03 decide
that the matrix code computes it)."""
import random
import re
from fractions import Fraction

from . import evalt
from .evalt import NoEval
from .mir import strip_generics
from .rules import *
from .terms import *


class Panic(Exception):
    pass


class Malformed(NoEval):
    """a matrix is put together whose entries do not fit its shape"""


class Mat(tuple):
    """tuple of rows"""
    @property
    def r(self):
        return len(self)

    @property
    def c(self):
        return len(self[0]) if self else 0


class Geo:
    """values of a geometric type: kind V, P, S, A, C and parts"""
    __slots__ = ('k', 'p')

    def __init__(self, k, *p):
        self.k = k
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Geo) and (self.k, self.p) == (o.k, o.p)

    def __hash__(self):
        return hash((self.k, self.p))

    def __repr__(self):
        return '%s%r' % (self.k, self.p)

    def dim(self):
        x = self.p[0]
        return x.dim() if isinstance(x, Geo) else x.r


NAMES = {'Vector': 'V', 'Point': 'P', 'ScalarProduct': 'S', 'AffineMap': 'A', 'CoordinateMap': 'C'}


# ------------------------------------------------------------------ mathematics

def mat(rows):
    return Mat(tuple(Fraction(x) for x in r) for r in rows)


def col(xs):
    return Mat((Fraction(x),) for x in xs)


def ident(n):
    return mat([[int(i == j) for j in range(n)] for i in range(n)])


def mmul(a, b):
    if a.c != b.r:
        raise Panic('shapes')
    return Mat(tuple(sum((a[i][k] * b[k][j] for k in range(a.c)), Fraction(0)) for j in range(b.c)) for i in range(a.r))


def mmap(f, *ms):
    if len({(m.r, m.c) for m in ms}) > 1:
        raise Panic('shapes')
    return Mat(tuple(f(*xs) for xs in zip(*rs)) for rs in zip(*ms))


def transp(a):
    return Mat(zip(*a))


def det(a):
    if a.r != a.c:
        raise Panic('not square')
    a = [list(r) for r in a]
    n = len(a)
    d = Fraction(1)
    for i in range(n):
        k = next((k for k in range(i, n) if a[k][i]), None)
        if k is None:
            return Fraction(0)
        if k != i:
            a[k], a[i] = a[i], a[k]
            d = -d
        d *= a[i][i]
        for r in range(i + 1, n):
            f = a[r][i] / a[i][i]
            for c in range(i, n):
                a[r][c] -= f * a[i][c]
    return d


def minv(a):
    if a.r != a.c:
        raise Panic('not square')
    if det(a) == 0:
        return None
    n = a.r
    m = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        k = next(k for k in range(i, n) if m[k][i])
        m[k], m[i] = m[i], m[k]
        p = m[i][i]
        m[i] = [x / p for x in m[i]]
        for r in range(n):
            if r != i:
                f = m[r][i]
                m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return Mat(tuple(r[n:]) for r in m)


def vec(m):
    return Geo('V', m)


def affine(m, t):
    """t a vector"""
    if (m.r, m.c) != (t.dim(), t.dim()):
        raise Panic('dimension')
    return Geo('A', m, t)


def ainv(a):
    i = minv(a.p[0])
    if i is None:
        return None
    return Geo('A', i, vec(mmap(lambda x: -x, mmul(i, a.p[1].p[0]))))


def scalar_product(m):
    if m.r != m.c or transp(m) != m:
        raise Panic('not symmetric')
    for i in range(1, m.r + 1):
        if det(Mat(r[:i] for r in m[:i])) <= 0:
            raise Panic('not positive definite')
    return Geo('S', m)


def cmap(a):
    b = ainv(a)
    if b is None:
        raise Panic('singular')
    return Geo('C', a, b)


def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def pairk(x):
    return x.k if isinstance(x, Geo) else 'M' if isinstance(x, Mat) else 'n' if isnum(x) else '?'


def mul(x, y):
    k = pairk(x) + pairk(y)
    if k == 'nn':
        return Fraction(x) * y
    if k == 'MM':
        return mmul(x, y)
    if k in ('Mn', 'nM'):
        m, s = (x, y) if k == 'Mn' else (y, x)
        return mmap(lambda q: q * s, m)
    if k in ('Vn', 'nV'):
        v, s = (x, y) if k == 'Vn' else (y, x)
        return vec(mmap(lambda q: q * s, v.p[0]))
    if k in ('AA', 'AP', 'AV', 'CC', 'CP', 'CV', 'CS', 'CA') and x.dim() != y.dim():
        raise Panic('dimension')
    if k == 'AA':
        return affine(mmul(x.p[0], y.p[0]), vec(mmap(lambda a, b: a + b, mmul(x.p[0], y.p[1].p[0]), x.p[1].p[0])))
    if k == 'AP':
        return Geo('P', mmap(lambda a, b: a + b, mmul(x.p[0], y.p[0]), x.p[1].p[0]))
    if k == 'AV':
        return vec(mmul(x.p[0], y.p[0]))
    if k == 'CC':
        return Geo('C', mul(x.p[0], y.p[0]), mul(y.p[1], x.p[1]))
    if k in ('CP', 'CV'):
        return mul(x.p[0], y)
    if k == 'CS':
        b = x.p[1].p[0]
        return scalar_product(mmul(mmul(transp(b), y.p[0]), b))
    if k == 'CA':
        return mul(mul(x.p[0], y), x.p[1])
    raise NoEval('product %s' % k)


def div(x, y):
    k = pairk(x) + pairk(y)
    if k[1] == 'n' and y == 0:
        raise NoEval('division by zero')
    if k == 'nn':
        return Fraction(x) / y
    if k == 'Mn':
        return mmap(lambda q: q / y, x)
    if k == 'Vn':
        return vec(mmap(lambda q: q / y, x.p[0]))
    raise NoEval('quotient %s' % k)


def lincomb(xs):
    """sum of k * x; points may occur with total weight 0 or 1"""
    ks = {pairk(x) for x, _ in xs}
    if ks == {'n'}:
        return sum((Fraction(k) * x for x, k in xs), Fraction(0))
    if ks == {'M'}:
        return mmap(lambda *a: sum((k * q for q, (_, k) in zip(a, xs)), Fraction(0)), *[x for x, _ in xs])
    if ks <= {'V', 'P'}:
        m = mmap(lambda *a: sum((k * q for q, (_, k) in zip(a, xs)), Fraction(0)), *[x.p[0] for x, _ in xs])
        w = sum(k for x, k in xs if x.k == 'P')
        if w == 0:
            return vec(m)
        if w == 1:
            return Geo('P', m)
    if len(xs) == 1 and xs[0][1] == 1:
        return xs[0][0]
    raise NoEval('sum of %s' % sorted(ks))


# ------------------------------------------------------------------ the shape of the types in the code

class Shapes:
    def __init__(self, ctx):
        self.mf = [0, 1, 2]                # rows, columns, entries -> field number
        self.parts = {}                    # kind -> list over declared fields: part index or None for phantoms
        for path, a in ctx.lib.adts.items():
            n = path.split('::')[-1]
            if path == 'rust_systre::arithmetic::matrices::Matrix':
                fs = [f['name'] for f in a['variants'][0]['fields']]
                tys = [ctx.lib.tstr(f['ty']) for f in a['variants'][0]['fields']]
                if len(fs) != 3 or sum('Vec' in t for t in tys) != 1:
                    raise Und('fields of Matrix')
                d = [i for i, t in enumerate(tys) if 'Vec' in t][0]
                o = [i for i in range(3) if i != d]
                if 'col' in fs[o[0]]:
                    o.reverse()
                self.mf = o + [d]
            if n not in NAMES or not path.startswith('rust_systre::arithmetic::geometry'):
                continue
            out = []
            gen = None
            fs = a['variants'][0]['fields']
            tys = [ctx.lib.tstr(f['ty']) for f in fs]
            for f, t in zip(fs, tys):
                b = strip_generics(t).split('::')[-1]
                if b == 'PhantomData':
                    out.append(None)
                elif b == 'Matrix':
                    out.append(0)
                elif b == 'Vector' and n == 'AffineMap':
                    out.append(1)
                elif b == 'AffineMap' and n == 'CoordinateMap':
                    out.append(0 if f['name'] == 'forward' else 1 if f['name'] == 'backward' else (0 if 'In' in t else 1))
                else:
                    raise Und('field %s of %s' % (f['name'], n))
            if sorted(x for x in out if x is not None) != list(range(2 if n in ('AffineMap', 'CoordinateMap') else 1)):
                raise Und('fields of %s' % n)
            self.parts[NAMES[n]] = out

    def hook(self, t, env, bvs):
        o, a = t.op, t.args
        go = lambda x: evalt.ev(x, env, bvs)
        if o == 'agg':
            n = str(a[0]).split('::')[-1]
            if n in NAMES:
                k = NAMES[n]
                parts = [None] * (max(x for x in self.parts[k] if x is not None) + 1)
                for i, x in enumerate(a[2:]):
                    j = self.parts[k][i]
                    if j is not None:
                        parts[j] = go(x)
                return Geo(k, *parts)
            if n == 'PhantomData':
                return ('@PhantomData', 0)
            if n == 'Option':
                return ('@Option', a[1]) + tuple(go(x) for x in a[2:])
            if n == 'Range':
                return ('@Range', None) + tuple(go(x) for x in a[2:])
            if n == 'Matrix':
                l = [go(x) for x in a[2:5]]
                r, c, d = (l[i] for i in self.mf)
                if len(d) != r * c:
                    raise Malformed('%s x %s matrix of %d entries' % (r, c, len(d)))
                return fromdata(int(r), int(c), d)
            return NotImplemented
        if o == 'fld':
            v = go(a[2])
            if isinstance(v, Geo):
                j = self.parts[v.k][a[0]]
                return ('@PhantomData', 0) if j is None else v.p[j]
            if isinstance(v, Mat):
                return [Fraction(v.r), Fraction(v.c), [x for r in v for x in r]][self.mf.index(a[0])]
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('@'):
                if v[0] == '@Option' and v[1] == 0:
                    raise NoEval('payload of None')
                return v[2 + a[0]]
            if isinstance(v, tuple):
                return v[a[0]]
            raise NoEval('field of %r' % (v,))
        if o == 'with':
            v = go(a[0])
            if isinstance(v, Geo):
                j = self.parts[v.k][a[1]]
                x = go(a[2])
                if j is None:
                    return v
                return Geo(v.k, *(v.p[:j] + (x,) + v.p[j + 1:]))
            if isinstance(v, Mat):
                l = [v.r, v.c, [x for r in v for x in r]]
                l[self.mf.index(a[1])] = go(a[2])
                return fromdata(int(l[0]), int(l[1]), l[2])
            return NotImplemented
        if o == 'npoly':
            out = []
            for fs, k in a:
                x = None
                for f in fs:
                    y = go(f)
                    x = y if x is None else mul(x, y)
                if x is None:
                    x = Fraction(1)
                out.append((x, k))
            return lincomb(out)
        if o == 'poly':
            # products of numbers only
            return NotImplemented
        if o in ('add', 'sub', 'mul', 'div', 'neg') and a[0] == 'm':
            x = go(a[1])
            if o == 'neg':
                return lincomb([(x, -1)])
            y = go(a[2])
            return mul(x, y) if o == 'mul' else div(x, y) if o == 'div' else lincomb([(x, 1), (y, 1 if o == 'add' else -1)])
        if o == 'div' and a[0] not in ('i', 'p'):
            x, y = go(a[1]), go(a[2])
            return div(x, y)
        if o in ('add', 'sub', 'mul', 'neg'):
            x = go(a[1])
            if pairk(x) not in 'n?':
                if o == 'neg':
                    return lincomb([(x, -1)])
                y = go(a[2])
                return mul(x, y) if o == 'mul' else lincomb([(x, 1), (y, 1 if o == 'add' else -1)])
            return NotImplemented
        if o == 'discr':
            v = go(a[0])
            if isinstance(v, tuple) and v and v[0] == '@Option':
                return Fraction(v[1])
            return NotImplemented
        if o == 'idx':
            v = go(a[0])
            if isinstance(v, Mat):
                i = go(a[1])
                if isinstance(i, tuple) and len(i) == 2:
                    i, j = (evalt.nat(x) for x in i)
                    if i >= v.r or j >= v.c:
                        raise Panic('index')
                    return v[i][j]
                i = evalt.nat(i)
                if i >= v.r:
                    raise Panic('index')
                return list(v[i])
            if isinstance(v, Geo):
                if v.k in 'VP':
                    i = evalt.nat(go(a[1]))
                    if i >= v.p[0].r:
                        raise Panic('index')
                    return v.p[0][i][0]
                if v.k == 'S':
                    i, j = (evalt.nat(x) for x in go(a[1]))
                    if i >= v.p[0].r or j >= v.p[0].c:
                        raise Panic('index')
                    return v.p[0][i][j]
            if isinstance(v, list):
                i = evalt.nat(go(a[1]))
                if i >= len(v):
                    raise Panic('index')
                return v[i]
            return NotImplemented
        if o == 'store':
            v = go(a[0])
            if isinstance(v, (Mat, Geo)):
                m = v if isinstance(v, Mat) else v.p[0]
                i = go(a[1])
                i, j = (evalt.nat(x) for x in i) if isinstance(i, tuple) else (evalt.nat(i), 0)
                x = go(a[2])
                if i >= m.r or j >= m.c:
                    raise Panic('index')
                m = Mat(tuple(x if (r, c) == (i, j) else m[r][c] for c in range(m.c)) for r in range(m.r))
                return m if isinstance(v, Mat) else Geo(v.k, m)
            return NotImplemented
        if o == 'stores':
            v = go(a[0])
            if isinstance(v, (Mat, Geo)):
                m = [list(r) for r in (v if isinstance(v, Mat) else v.p[0])]
                for e in evalt.lst(go(a[1]), env):
                    i, x = e
                    i, j = (evalt.nat(q) for q in i) if isinstance(i, tuple) else (evalt.nat(i), 0)
                    if i >= len(m) or j >= len(m[i]):
                        raise Panic('index')
                    m[i][j] = x
                m = Mat(tuple(r) for r in m)
                return m if isinstance(v, Mat) else Geo(v.k, m)
            return NotImplemented
        if o == 'len':
            v = go(a[0])
            if isinstance(v, Mat):
                return Fraction(v.r)
            return NotImplemented
        if o == 'comp' and a[0] == 'map':
            # every element of a mapped sequence is produced: one that meets no case failed
            out = []
            for k in range(evalt.cnt(go(a[1]))):
                b = bvs + ((a[2], Fraction(k)),)
                for fs, x in a[3]:
                    if all(evalt.fact_val(f, v, env, b) for f, v in fs):
                        out.append(evalt.ev(x, env, b))
                        break
                else:
                    raise Panic('element')
            return out
        if o == 'collect':
            k = NAMES.get(str(a[0]).split('::')[-1])
            if k in ('V', 'P'):
                return Geo(k, col(evalt.lst(go(a[1]), env)))
            return NotImplemented
        if o == 'call':
            return self.call(a[0], a[1:], go, env)
        return NotImplemented

    def call(self, n, a, go, env):
        n = re.sub(r'^.*::(\w+::\w+)$', r'\1', n)
        if n == 'Matrix::shape':
            m = go(a[0])
            return (Fraction(m.r), Fraction(m.c))
        if n == 'Matrix::col':
            return col(evalt.lst(go(a[0]), env))
        if n == 'Matrix::row':
            return Mat([tuple(evalt.lst(go(a[0]), env))])
        if n == 'Matrix::new':
            c, d = evalt.nat(go(a[0])), evalt.lst(go(a[1]), env)
            if c == 0 or len(d) % c:
                raise Panic('shape')
            return fromdata(len(d) // c, c, d)
        if n == 'Matrix::zero':
            r, c = evalt.nat(go(a[0])), evalt.nat(go(a[1]))
            return mat([[0] * c for _ in range(r)])
        if n == 'Matrix::transpose':
            return transp(go(a[0]))
        if n == 'Matrix::identity':
            return ident(evalt.nat(go(a[0])))
        if n == 'Matrix::is_identity':
            m = go(a[0])
            return int(m.r == m.c and m == ident(m.r))
        if n in ('Matrix::iter', 'Matrix::into_iter'):
            m = go(a[0])
            return [x for r in m for x in r]
        if n == 'Matrix::hstack':
            ms = evalt.lst(go(a[0]), env)
            if len({m.r for m in ms}) != 1:
                raise Panic('shapes')
            return Mat(sum((m[i] for m in ms), ()) for i in range(ms[0].r))
        if n == 'Matrix::vstack':
            ms = evalt.lst(go(a[0]), env)
            if len({m.c for m in ms}) != 1:
                raise Panic('shapes')
            return Mat(sum((tuple(m) for m in ms), ()))
        if n == 'Matrix::submatrix':
            m, rr, cc = (go(x) for x in a)
            f = lambda x: [int(q) for q in (evalt.lst(x, env) if not (isinstance(x, tuple) and x[0] == '@Range') else range(int(x[2]), int(x[3])))]
            rr, cc = f(rr), f(cc)
            if any(i >= m.r for i in rr) or any(j >= m.c for j in cc):
                raise Panic('index')
            return Mat(tuple(m[i][j] for j in cc) for i in rr)
        if n == 'Matrix::get_row':
            m, i = go(a[0]), evalt.nat(go(a[1]))
            return Mat([m[i]])
        if n == 'Matrix::get_col':
            m, i = go(a[0]), evalt.nat(go(a[1]))
            return Mat((r[i],) for r in m)
        if n == 'LinearAlgebra::inverse':
            m = minv(go(a[0]))
            return ('@Option', 0) if m is None else ('@Option', 1, m)
        if n == 'LinearAlgebra::determinant':
            return det(go(a[0]))
        if n in ('Zero::is_zero', 'One::is_one'):
            return int(go(a[0]) == (n == 'One::is_one'))
        return NotImplemented

    # ---------------------------------------------------------------- evaluation of summaries
    def env(self, binds, seed=0):
        e = evalt.Env(seed, bind=binds)
        e.hook = self.hook
        e.strict = True
        return e

    def outcome(self, s, binds, cell=None):
        """('return', value) or ('panic',): the path of the summary that applies"""
        early, late = [], []
        for p in s.paths:
            if p.kind not in ('return', 'panic'):
                continue
            if p.kind == 'panic' and any(x.op == 'bv' for f, _ in p.facts() for x in freebv(f)):
                continue        # inside a mapped sequence: decided where the sequence is built
            ixs = sorted({x for f, _ in p.facts() for x in subterms(f) if x.op == 'ix'} |
                         {x for x in (subterms(p.ret) if p.kind == 'return' and isinstance(p.ret, T) else ()) if x.op == 'ix'}, key=lambda x: x.id)
            (early if ixs else late).append((p, ixs))
        for p, ixs in early:
            for b in self.choices(ixs, binds):
                if self.applies(p, b):
                    return self.result(p, b, cell)
        for p, _ in late:
            if self.applies(p, binds):
                return self.result(p, binds, cell)
        raise NoEval('no path applies')

    def choices(self, ixs, binds):
        out = [dict(binds)]
        # bounds may mention earlier loops' indices
        todo = list(ixs)
        todo.sort(key=lambda x: (sum(1 for _ in subterms(x)), x.id))
        for x in todo:
            nxt = []
            for b in out:
                try:
                    n = evalt.nat(evalt.ev(x.args[1], self.env(b)))
                except Panic:
                    continue
                for i in range(n):
                    c = dict(b)
                    c[x] = Fraction(i)
                    nxt.append(c)
            out = nxt
        return out

    def applies(self, p, binds):
        env = self.env(binds)
        for f, v in p.facts():
            try:
                if not evalt.fact_val(f, v, env):
                    return False
            except Panic:
                # a later fact cannot be reached if an earlier operation fails
                return True
        return True

    def result(self, p, binds, cell):
        if p.kind == 'panic':
            return ('panic',)
        env = self.env(binds)
        try:
            for f, v in p.facts():
                evalt.fact_val(f, v, env)
            v = evalt.ev(p.heap(cell) if cell is not None else p.ret, env)
        except Panic:
            return ('panic',)
        return ('return', v)


def freebv(t, bound=()):
    if t.op == 'bv':
        return set() if t in bound else {t}
    if t.op == 'comp':
        kind, n, I, cs = t.args
        out = freebv(n, bound)
        b = bound + (I,)
        for fs, x in cs:
            for f, _ in fs:
                out |= freebv(f, b)
            out |= freebv(x, b)
        return out
    if t.op == 'fold' and len(t.args) == 5:
        n, I, acc, init, v = t.args
        return freebv(n, bound) | freebv(init, bound) | freebv(v, bound + (I, acc))
    out = set()

    def go(x):
        nonlocal out
        if isinstance(x, T):
            out |= freebv(x, bound)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in t.args:
        go(x)
    return out


def fromdata(r, c, d):
    if len(d) != r * c:
        raise Panic('shape')
    return Mat(tuple(d[i * c:(i + 1) * c]) for i in range(r))


# ------------------------------------------------------------------ random instances

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = self.r.choice([1, 2, 3, 3])

    def q(self):
        return Fraction(self.r.randint(-3, 3), self.r.choice([1, 1, 1, 2]))

    def m(self, r, c):
        return mat([[self.q() for _ in range(c)] for _ in range(r)])

    def reg(self, n):
        while True:
            m = self.m(n, n)
            if det(m):
                return m

    def value(self, k, n=None):
        n = n or self.n
        if k in 'VP':
            return Geo(k, self.m(n, 1))
        if k == 'S':
            b = self.reg(n)
            return Geo('S', mmul(transp(b), b))
        if k == 'A':
            r = self.r.random()
            m = ident(n) if r < .2 else self.m(n, n) if r < .5 else self.reg(n)
            t = self.m(n, 1) if self.r.random() < .8 else col([0] * n)
            if r < .2 and self.r.random() < .6:
                k = self.r.randrange(n)
                t = col([int(i == k) for i in range(n)])
            return Geo('A', m, vec(t))
        if k == 'C':
            while True:
                a = self.value('A', n)
                if det(a.p[0]):
                    return cmap(a)
        if k == 'M':
            r = self.r.random()
            if r < .3:
                b = self.reg(n)
                return mmul(transp(b), b)
            if r < .6:
                m = self.m(n, n)
                return mmap(lambda x, y: x + y, m, transp(m))
            if r < .7:
                return self.m(n, n + 1)
            return self.m(n, n)
        if k == 'T':
            while True:
                x = self.q()
                if x:
                    return x
        if k == 'n':
            return Fraction(n)
        raise NoEval(k)
