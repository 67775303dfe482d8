"""C37: solutions, inverses, null spaces and reduced bases are exact."""
import math
import random
from fractions import Fraction
from itertools import combinations
from ..graphs import *
from .. import evalt, geom, sweep
from ..geom import Mat, Panic
from .c35 import Prim, lattice

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: solver, inverse and null space in closed form over row elimination; loops replayed on the summary and compared with the definition on matrices of all shapes'
RULE = ('The summaries of the solver, the inverse, the null space and the reduced basis are terms over stacking, cutting and eliminating rows. With elimination as decided by C26, they are evaluated on matrices over integers and rationals of '
        'every shape and rank: a result must satisfy the defining equation, be complete, and be missing exactly when there is none.')
PROP = {
    'title': 'Linear solves, inverses and null spaces are exact and complete',
    'statement': 'A linear system is given a solution exactly when it has one over the type of its entries (rationals or integers), and the solution satisfies it; so is the inverse of a square matrix. '
                 'The null space is absent exactly when only zero is mapped to zero, and otherwise its independent columns generate all solutions, over integers all integer ones. '
                 'The reduced basis of a matrix spans the row space or lattice by rows with increasing leading columns, whose leading entries are one or positive and leave only reduced entries above.',
    'quantifier': {'over': ['inputs'], 'text': 'all rational and integer matrices of every shape and rank without overflow'},
    'why_tests_cant': 'Tests solve a few small systems; shapes, ranks, divisibility and the choice of leading columns are unbounded.',
    'anchors': {'files': ['src/arithmetic/linear_algebra.rs'], 'mechanism': 'solve, inverse, null_space, reduced_basis of LinearAlgebra; solve_row of Scalar'},
}
F = Fraction


def lead(v):
    return next((i for i, x in enumerate(v) if x), None)


def echelon(rows, kind):
    """independent rows with increasing leading columns, spanning the same space or lattice"""
    rows = [list(r) for r in rows if any(r)]
    return lattice(rows) if rows else []


def normalize(col, v, kind):
    if kind == 'q':
        f = v[col]
        if f == 0:
            raise Panic('division by zero')
        return v[:col] + [F(1)] + [x / f for x in v[col + 1:]]
    return v[:col] + [-x for x in v[col:]] if v[col] < 0 else v


def reduce_(col, v, b, kind):
    if kind == 'q':
        f = v[col]
        return v[:col] + [F(0)] + [x - f * y for x, y in zip(v[col + 1:], b[col + 1:])]
    if b[col] == 0:
        raise Panic('division by zero')
    f = (v[col] / b[col]).__floor__() if b[col] > 0 else v[col] // b[col]
    return v[:col] + [x - f * y for x, y in zip(v[col:], b[col:])]


def reduced(rows, kind):
    b = echelon(rows, kind)
    for i in range(len(b)):
        c = lead(b[i])
        b[i] = normalize(c, b[i], kind)
        for j in range(i):
            b[j] = reduce_(c, b[j], b[i], kind)
    return b


def solve_row(a, x, b, kind):
    if kind == 'q':
        return list(b)
    k = len(x)
    out = []
    for c in range(len(b)):
        t = b[c] - sum(a[i] * x[i][c] for i in range(k))
        if a[k] == 0:
            raise Panic('division by zero')
        if (t / a[k]).denominator != 1:
            return None
        out.append(t / a[k])
    return out


class Lin(Prim):
    def __init__(self, ctx, kind):
        super().__init__(ctx)
        self.kind = kind

    def hook_(self, t, env, bvs):
        go = lambda x: evalt.ev(x, env, bvs)
        if t.op in ('div', 'rem') and t.args[0] == 'p' and self.kind == 'z':
            x, y = go(t.args[1]), go(t.args[2])
            if y == 0:
                raise Panic('division by zero')
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return F(q) if t.op == 'div' else x - q * y
        if t.op == 'upd':
            n = t.args[0].split('::')[-1]
            if n == 'extend_basis' and len(t.args) == 4:
                v = list(evalt.lst(go(t.args[2]), env))
                bs = [list(b) for b in evalt.lst(go(t.args[3]), env)]
                return echelon(bs + [v], self.kind)
            if n == 'normalize_column' and len(t.args) == 4:
                return normalize(evalt.nat(go(t.args[2])), list(evalt.lst(go(t.args[3]), env)), self.kind)
            if n == 'reduce_column' and len(t.args) == 5:
                return reduce_(evalt.nat(go(t.args[2])), list(evalt.lst(go(t.args[3]), env)), list(evalt.lst(go(t.args[4]), env)), self.kind)
        return super().hook_(t, env, bvs)

    def call(self, n, a, go, env):
        n = '::'.join(n.split('::')[-2:])
        if n == 'LinearAlgebra::reduced_basis' and len(a) == 1:
            return geom.mat(reduced(list(go(a[0])), self.kind))
        if n == 'LinearAlgebra::rank' and len(a) == 1:
            return F(len(echelon(list(go(a[0])), self.kind)))
        if n == 'Matrix::get_row' and len(a) == 2:
            return list(go(a[0])[evalt.nat(go(a[1]))])
        if n == 'Matrix::get_rows' and len(a) == 1:
            return [list(r) for r in go(a[0])]
        if n == 'Matrix::get_col' and len(a) == 2:
            m, j = go(a[0]), evalt.nat(go(a[1]))
            return [r[j] for r in m]
        if n == 'Scalar::solve_row' and len(a) == 3:
            x, y, z = (evalt.lst(go(q), env) for q in a)
            r = solve_row(list(x), [list(q) for q in y], list(z), self.kind)
            return ('@Option', 0) if r is None else ('@Option', 1, r)
        return super().call(n, a, go, env)


def rank(m):
    return len(echelon(list(m), 'q'))


def span(vecs):
    """canonical form of the lattice of the vectors"""
    return reduced([v for v in vecs if any(v)], 'z')


def minors(rows):
    """gcd of the maximal minors"""
    k = len(rows)
    g = 0
    for cs in combinations(range(len(rows[0])), k):
        g = math.gcd(g, int(geom.det(geom.mat([[r[c] for c in cs] for r in rows]))))
    return g


def matrices(kind, seed, count):
    r = random.Random(seed)
    out = []
    for i in range(count):
        m, n = r.randint(1, 4), r.randint(1, 4)
        rows = [[F(r.randint(-3, 3)) for _ in range(n)] for _ in range(m)]
        if i % 3 == 1 and m > 1:
            rows[-1] = [2 * x for x in rows[0]]
        if i % 3 == 2 and m > 2:
            rows[1] = [x - y for x, y in zip(rows[0], rows[2])]
        if i % 4 == 3 and n > 1:
            for q in rows:
                q[0] = F(0)
        if i % 5 == 4 and n > 2:
            for q in rows:
                q[1] = 3 * q[0]
        if kind == 'q' and i % 2:
            k = r.choice([2, 3, 5])
            rows = [[x / (k if (p + j) % 2 else 1) for j, x in enumerate(q)] for p, q in enumerate(rows)]
        if kind == 'z' and i % 7 == 6:
            rows = [[2 * x for x in q] for q in rows]
        out.append(geom.mat(rows))
    for m, n, k in ((5, 5, 5), (6, 4, 3), (4, 6, 3), (9, 2, 2), (2, 9, 2), (1, 12, 1), (12, 1, 1), (6, 6, 6), (6, 6, 4)):
        # a product of unimodular triangles and a diagonal: entries stay small
        lo = [[F(int(i == j) if i <= j else r.randint(-1, 1)) for j in range(k)] for i in range(m)]
        hi = [[F(int(i == j) if i >= j else r.randint(-1, 1)) for j in range(n)] for i in range(k)]
        if m * n % 2 == 0 and m != 6:
            lo = [[(2 if j == k - 1 else 1) * x for j, x in enumerate(q)] for q in lo]
        r.shuffle(lo)
        out.append(geom.mmul(geom.mat(lo), geom.mat(hi)))
    return out


NAMES_ = {'q': 'rationals', 'z': 'integers'}


def fm(m):
    return '[%s]' % ' / '.join(' '.join(str(x) for x in r) for r in m)


def run(ctx):
    CTX[0] = ctx
    keep = ('reduced_basis', 'rank', 'determinant', 'extend_basis', 'clear_column', 'normalize_column', 'reduce_column', 'solve_row', 'gcdx')
    own = lambda name: lambda g: g.file.endswith('linear_algebra.rs') and g.name not in tuple(k for k in keep if k != name)
    count = 60 if ctx.tier == 'quick' else 400

    def fun(name):
        f = pyfn(ctx, 'matrices::Matrix', 'LinearAlgebra', name)
        return f, ctx.summary(f, inline_if=own(name)), ctx.where(f)

    def replay(s, sh, *args):
        try:
            return sweep.Sweep(s, hook=sh.hook, args={A(i): v for i, v in enumerate(args)}, limit=200, early=True).result()
        except evalt.NoEval as e:
            raise Und('not evaluated: %s' % e)

    def opt(v):
        if not (isinstance(v, tuple) and len(v) >= 2 and v[0] == '@Option'):
            raise Und('result %r' % (v,))
        if v[1] == 0:
            return None
        if not isinstance(v[2], Mat):
            raise Und('result %r' % (v,))
        return v[2]

    def integral(m):
        return all(x.denominator == 1 for r in m for x in r)

    def solvable(a, b, kind):
        if kind == 'q':
            return rank([x + y for x, y in zip(a, b)]) == rank(a)
        cols = [list(c) for c in zip(*a)]
        base = span(cols)
        return all(span(cols + [list(c)]) == base for c in zip(*b))

    def systems(kind):
        r = random.Random(5)
        for i, a in enumerate(matrices(kind, 1, count)):
            k = r.randint(1, 3)
            x = geom.mat([[F(r.randint(-3, 3)) for _ in range(k)] for _ in range(a.c)])
            yield a, geom.mmul(a, x)
            if i % 2:
                yield a, geom.mat([[F(r.randint(-3, 3)) for _ in range(k)] for _ in range(a.r)])
            if i % 5 == 0:
                b = geom.mmul(a, x)
                yield a, geom.mmap(lambda q: q / 2, b) if integral(geom.mmap(lambda q: q / 2, b)) or kind == 'q' else b
        yield geom.mat([[F(0), F(0)]]), geom.mat([[F(0)]])
        yield geom.mat([[F(0)], [F(0)], [F(0)]]), geom.mat([[F(0), F(0)]] * 3)
        yield geom.mat([[F(0), F(0)]]), geom.mat([[F(1)]])
        yield geom.mat([[F(2)]]), geom.mat([[F(1)]])
        yield geom.mat([[F(6), F(10), F(15)]]), geom.mat([[F(1)]])
        yield geom.mat([[F(2), F(4)], [F(1), F(3)]]), geom.mat([[F(2)], [F(0)]])

    def solve(kind):
        f, s, w = fun('solve')
        n = 0
        for a, b in systems(kind):
            desc = 'the system %s x = %s over %s' % (fm(a), fm(b), NAMES_[kind])
            try:
                x = opt(replay(s, Lin(ctx, kind), a, b))
            except Panic as e:
                raise Bad('the solver fails on %s' % desc, w)
            ok = solvable(a, b, kind)
            if x is None:
                if ok:
                    raise Bad('%s has a solution, and none is given' % desc, w)
            else:
                if (x.r, x.c) != (a.c, b.c):
                    raise Bad('%s is given a solution with %d rows and %d columns' % (desc, x.r, x.c), w)
                if geom.mmul(a, x) != b:
                    raise Bad('%s is given %s, which does not satisfy it' % (desc, fm(x)), w)
                if kind == 'z' and not integral(x):
                    raise Bad('%s is given the fractional %s' % (desc, fm(x)), w)
            n += 1
        ctx.counts['systems over %s' % NAMES_[kind]] = n
        return '%d systems' % n

    def inverse(kind):
        f, s, w = fun('inverse')
        n = 0
        for a in matrices(kind, 2, 2 * count) + [geom.mat([[F(0)]]), geom.mat([[F(2)]]), geom.mat([[F(-1)]]), geom.mat([[F(2), F(1)], [F(1), F(1)]]), geom.mat([[F(3), F(1)], [F(1), F(1)]])]:
            if a.r != a.c:
                continue
            for m in (a,) if n % 3 or kind == 'q' else (a, unimodular(a.r, n)):
                d = geom.det(m)
                has = d != 0 if kind == 'q' else abs(d) == 1
                try:
                    x = opt(replay(s, Lin(ctx, kind), m))
                except Panic:
                    raise Bad('the inverse of %s over %s fails' % (fm(m), NAMES_[kind]), w)
                if (x is not None) != has:
                    raise Bad('the matrix %s over %s with determinant %s is given %s inverse' % (fm(m), NAMES_[kind], d, 'an' if x is not None else 'no'), w)
                if x is not None and geom.mmul(m, x) != geom.ident(m.r):
                    raise Bad('the inverse of %s over %s is given as %s' % (fm(m), NAMES_[kind], fm(x)), w)
                n += 1
        return '%d matrices' % n

    def null(kind):
        f, s, w = fun('null_space')
        n = 0
        for a in matrices(kind, 3, count) + [geom.mat([[F(0), F(0)]]), geom.mat([[F(2), F(3)]]), geom.mat([[F(2), F(4), F(6)]]), geom.mat([[F(1)], [F(0)]])]:
            desc = 'the null space of %s over %s' % (fm(a), NAMES_[kind])
            try:
                x = opt(replay(s, Lin(ctx, kind), a))
            except Panic:
                raise Bad('%s fails' % desc, w)
            k = a.c - rank(a)
            if x is None:
                if k:
                    raise Bad('%s has dimension %d, and none is given' % (desc, k), w)
                n += 1
                continue
            if x.r != a.c or x.c != k:
                raise Bad('%s has dimension %d and is given as %d vectors of length %d' % (desc, k, x.c, x.r), w)
            if any(q for row in geom.mmul(a, x) for q in row):
                raise Bad('%s is given as the columns of %s, which are not mapped to zero' % (desc, fm(x)), w)
            rows = [list(c) for c in zip(*x)]
            if rank(rows) != k:
                raise Bad('%s is given as the dependent columns of %s' % (desc, fm(x)), w)
            if kind == 'z' and (not integral(x) or minors(rows) != 1):
                raise Bad('%s is given as the columns of %s, which do not generate all integer solutions' % (desc, fm(x)), w)
            n += 1
        return '%d matrices' % n

    def basis(kind):
        f, s, w = fun('reduced_basis')
        n = 0
        for a in matrices(kind, 4, count):
            desc = 'the reduced basis of %s over %s' % (fm(a), NAMES_[kind])
            if not any(any(r) for r in a):
                continue
            try:
                x = replay(s, Lin(ctx, kind), a)
            except Panic:
                raise Bad('%s fails' % desc, w)
            if not isinstance(x, Mat):
                raise Und('result %r' % (x,))
            rows = [list(r) for r in x]
            if any(not any(r) for r in rows) or any(lead(p) >= lead(q) for p, q in zip(rows, rows[1:])):
                raise Bad('%s is %s, whose leading columns do not increase' % (desc, fm(x)), w)
            if kind == 'q' and (len(rows) != rank(a) or rank(list(a) + rows) != rank(a)) or kind == 'z' and span(list(a)) != span(rows):
                raise Bad('%s is %s, which spans something else' % (desc, fm(x)), w)
            for i, r in enumerate(rows):
                c = lead(r)
                if r[c] != 1 if kind == 'q' else r[c] <= 0:
                    raise Bad('%s is %s with the leading entry %s' % (desc, fm(x), r[c]), w)
                if any(q[c] != 0 if kind == 'q' else not 0 <= q[c] < r[c] for q in rows[:i]):
                    raise Bad('%s is %s with an entry that is not reduced above a leading one' % (desc, fm(x)), w)
            n += 1
        return '%d matrices' % n

    def row(what, ty, kind):
        f = pyfn(ctx, ty, 'Scalar', 'solve_row')
        s = ctx.summary(f, inline_if=lambda g: g.file.endswith('linear_algebra.rs'))
        w = ctx.where(f)
        r = random.Random(9)
        n = 0
        und = None
        for i in range(count):
            k = i % 4 if i % 9 else 6
            m = r.randint(1, 3) if i % 8 else 9
            if kind == 'q':
                a = [F(int(j == k)) for j in range(k + 1 + i % 2)]
            else:
                a = [F(r.randint(-3, 3)) for _ in range(k)] + [F(r.choice([1, 2, 3, -2, -1]))] + [F(0)] * (i % 3)
            x = [[F(r.randint(-3, 3)) for _ in range(m)] for _ in range(k)]
            b = [F(r.randint(-4, 4)) for _ in range(m)]
            if i % 2:
                y = [F(r.randint(-3, 3)) for _ in range(m)]
                b = [sum(a[j] * x[j][c] for j in range(k)) + a[k] * y[c] for c in range(m)]
            desc = 'the row (%s) with %s known and the right side (%s) over %s' % (' '.join(map(str, a)), fm(x), ' '.join(map(str, b)), what)
            try:
                v = replay(s, Lin(ctx, kind), a, x, b)
            except Panic:
                raise Bad('solving fails for %s' % desc, w)
            except Und as e:
                und = und or e
                continue
            if not (isinstance(v, tuple) and v[0] == '@Option'):
                raise Und('result %r' % (v,))
            want = [(b[c] - sum(a[j] * x[j][c] for j in range(k))) / a[k] for c in range(m)]
            ok = kind == 'q' or all(q.denominator == 1 for q in want)
            got = None if v[1] == 0 else list(v[2])
            if got is None and ok:
                raise Bad('no solution is given for %s' % desc, w)
            if got is not None and got != want:
                raise Bad('%s is solved by (%s)' % (desc, ' '.join(map(str, got))), w)
            n += 1
        if und:
            raise und
        return '%d rows' % n

    def unimodular(n, seed):
        r = random.Random(seed)
        m = [list(q) for q in geom.ident(n)]
        for _ in range(4):
            i, j = r.randrange(n), r.randrange(n)
            if i != j:
                k = r.randint(-2, 2)
                m[i] = [x + k * y for x, y in zip(m[i], m[j])]
            else:
                m[i] = [-x for x in m[i]]
        return geom.mat(m)

    for k in ('q', 'z'):
        ctx.ob('solutions of systems over %s' % NAMES_[k], solve, k)
        ctx.ob('inverses over %s' % NAMES_[k], inverse, k)
        ctx.ob('null spaces over %s' % NAMES_[k], null, k)
        ctx.ob('reduced bases over %s' % NAMES_[k], basis, k)
    for what, ty, k in (('i32', 'i32', 'z'), ('i64', 'i64', 'z'), ('rationals', 'Ratio', 'q'), ('f64', 'f64', 'q')):
        ctx.ob('solving one row over %s' % what, row, what, ty, k)
