"""C30: metrics and origin shifts left free by a group are assembled from the right equations."""
from fractions import Fraction
from ..graphs import *
from .. import evalt, geom

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: equation assembly loops in closed form (accumulated increments per loop index), span of the assembled equations compared with the defining ones'
RULE = ('The rows handed to the equation basis are put in closed form per operator, row and column index; nested accumulations become sums over their loop indices. On instances of the closed form the '
        'assembled rows must span exactly the equations of the definition, for every operator; a missing or additional equation is reported. The answer must be the null space of all of them, and the full space when there are none.')
PROP = {
    'title': 'Free metrics and shifts of a group solve exactly the defining equations',
    'statement': 'The space of Gram matrices of a set of operations is given by exactly the linear equations that say that every operation is an isometry of the metric, with one unknown per unordered pair of axes, '
                 'and the space of origin shifts by those that say that a shift is fixed by every linear part. Without equations every metric and every shift is free.',
    'quantifier': {'over': ['inputs'], 'text': 'all sets of operations of any dimension'},
    'why_tests_cant': 'Tests use a few groups whose operations are symmetric or permutation matrices, for which transposed or missing equations give the same space.',
    'anchors': {'files': ['src/spacegroups/basics.rs'], 'mechanism': 'gram_matrix_configuration_space; shift_space'},
}


class Maps(geom.Shapes):
    def call(self, n, a, go, env):
        n = '::'.join(n.split('::')[-2:])
        if n.startswith('AffineMap::') and len(a) == 1:
            g = go(a[0])
            if isinstance(g, geom.Geo) and g.k == 'A':
                if n == 'AffineMap::dim':
                    return Fraction(g.dim())
                if n == 'AffineMap::linear_matrix':
                    return g.p[0]
                if n == 'AffineMap::shift':
                    return g.p[1] if isinstance(g.p[1], geom.Geo) else geom.Geo('V', g.p[1])
        if n in ('Matrix::get_rows', 'Matrix::get_cols', 'Matrix::get_row', 'Matrix::get_col', 'Matrix::nrows', 'Matrix::ncols'):
            m = go(a[0])
            if n.endswith('s') and n[8:11] == 'get':
                return [list(r) for r in (m if n.endswith('rows') else geom.transp(m))]
            if n[8:11] == 'get':
                return list((m if n.endswith('row') else geom.transp(m))[evalt.nat(go(a[1]))])
            return Fraction(m.r if n.endswith('nrows') else m.c)
        return super().call(n, a, go, env)


class Sums:
    """accumulations of a summary, evaluated as sums over loop indices"""

    def __init__(self, ctx, s, w):
        self.s = s
        self.where = w
        self.sh = Maps(ctx)
        self.L = phis(s)
        self.B = list(backs(s))

    def env(self, b, hook=None):
        e = self.sh.env(b)
        if hook:
            base = e.hook

            def both(t, env, bvs):
                r = hook(t, env, bvs)
                return base(t, env, bvs) if r is NotImplemented else r
            e.hook = both
        return e

    def val(self, t, b, hook=None):
        return evalt.ev(t, self.env(b, hook))

    def loop_ix(self, key, *ts):
        xs = {x for t in ts for x in subterms(t) if x.op == 'ix' and x.args[0] == key}
        if len(xs) > 1:
            raise Und('%d indices of one loop' % len(xs))
        return xs.pop() if xs else None

    def holds(self, p, key, b, hook):
        """facts of the path that speak about this loop"""
        for t, v in p.facts():
            if contains(t, lambda z: z.op == 'ix' and z.args[0] == key):
                if not evalt.fact_val(t, v, self.env(b, hook)):
                    return False
        return True

    def outer(self, p, b, hook):
        for t, v in p.facts():
            xs = {z for z in subterms(t) if z.op == 'ix'}
            if xs and all(x in b for x in xs) and not contains(t, lambda z: z.op == 'phi'):
                try:
                    if not evalt.fact_val(t, v, self.env(b, hook)):
                        return False
                except evalt.NoEval:
                    continue
        return True

    def steps(self, key, ixs, b, hook):
        """binds for every round of the loop"""
        x = self.loop_ix(key, *ixs)
        if x is None:
            raise Und('a loop whose rounds do not differ')
        n = evalt.nat(self.val(x.args[1], b, hook))
        for i in range(n):
            c = dict(b)
            c[x] = Fraction(i)
            yield c

    def total(self, ph, b, add, hook):
        """sum of all increments of the accumulator ph; add(key term, delta term, binds)"""
        key = ph.args[0]
        rounds = [(p, new[ph]) for p, k, new in self.B if k == key and ph in new]
        if not rounds:
            raise Und('accumulator %s' % show(ph))
        inner = {}
        for p, x in rounds:
            base = x
            while base.op == 'store':
                base = base.args[0]
            inner[p] = (base, updates(x, base))
            if base is not ph and not (base.op == 'phi' and self.L.get(base) is ph):
                raise Und('accumulator %s' % show(base))
        ts = [t for p, _ in rounds for t, _ in p.facts()] + [x for _, x in rounds]
        ts += [x for x in self.deep(ph)]
        for c in self.steps(key, ts, b, hook):
            todo = [p for p, _ in rounds if self.holds(p, key, c, hook)]
            if len(todo) > 1:
                # conditions on the rounds of the loops around
                todo = [p for p in todo if self.outer(p, c, hook)] or todo
            if len(todo) != 1:
                # the same round may be split over paths that end alike
                if not todo or len({(inner[p][0], tuple(inner[p][1])) for p in todo}) != 1:
                    raise Und('%d ways through one round' % len(todo))
            base, ups = inner[todo[0]]
            if base is not ph:
                self.total(base, c, add, hook)
            for ix, d in ups:
                if len(ix) != 1:
                    raise Und('update of %s' % show(ix[0]))
                if any(x.op == 'idx' and x.args[0] is base for x in subterms(d)) and not any(x is base for x in subterms(canon(add_(d, E.getidx(base, ix[0]))))):
                    raise Bad('a coefficient is overwritten where it has to be increased', self.where)
                add(ix[0], d, c)

    def deep(self, ph):
        """terms of the rounds of the loops inside"""
        out = []
        for q, i in self.L.items():
            if i is ph and q is not ph:
                for p, k, new in self.B:
                    if k == q.args[0] and q in new:
                        out.append(new[q])
                        out += [t for t, _ in p.facts()]
                out += self.deep(q)
        return out


def add_(a, b):
    return mk('add', 'q', a, b)


def span_diff(rows, want, n):
    """'missing' / 'extra' row when the spans differ"""
    def rank(m):
        m = [list(r) for r in m]
        k = 0
        for c in range(n):
            p = next((i for i in range(k, len(m)) if m[i][c]), None)
            if p is None:
                continue
            m[k], m[p] = m[p], m[k]
            for i in range(len(m)):
                if i != k and m[i][c]:
                    f = m[i][c] / m[k][c]
                    m[i] = [a - f * b for a, b in zip(m[i], m[k])]
            k += 1
        return k
    a, b, c = rank(rows), rank(want), rank(list(rows) + list(want))
    if c > a:
        return 'missing'
    if c > b:
        return 'extra'


def fm(m):
    return '[%s]' % '; '.join(' '.join(str(y) for y in r) for r in m)


def fr(r):
    return '(%s)' % ' '.join(str(y) for y in r)


def run(ctx):
    CTX[0] = ctx
    own = lambda g: g.file.endswith('basics.rs')

    def fed(s):
        """(path, key, row) for every vector handed to the basis, and the basis"""
        out = []
        for p, key, new in backs(s):
            for ph, x in new.items():
                while x.op == 'upd' and x.args[0].split('::')[-1] == 'extend_basis' and len(x.args) == 4:
                    out.append((p, key, x.args[2], ph))
                    x = x.args[3]
        return out

    def outcome(f, s, rows, w, full):
        """null space of all rows; everything when there are none"""
        accs = {ph for _, _, _, ph in rows}
        L = phis(s)

        def top(ph):
            while L.get(ph) is not None and L[ph].op == 'phi':
                ph = L[ph]
            return ph
        tops = {top(ph) for ph in accs}
        if len(tops) != 1:
            raise Und('%d sets of equations' % len(tops))
        e = tops.pop()
        if L.get(e) is None or not (L[e].op == 'agg' and len(L[e].args) == 2):
            raise Und('equations start as %s' % show(L.get(e, e)))
        some = none = 0
        for p in s.returns():
            r = p.ret

            def allows(n, p=p):
                """the facts about the number of equations admit n"""
                for t, v in p.facts():
                    if contains(t, lambda z: z is e):
                        try:
                            if not evalt.fact_val(t, v, evalt.Env(0, bind={e: [Fraction(k) for k in range(n)]})):
                                return False
                        except evalt.NoEval:
                            raise Und('condition %s' % show(t))
                return True
            if contains(r, lambda y: y.op == 'call' and y.args[0].endswith('null_space')):
                some += 1
                ns = [y for y in subterms(r) if y.op == 'call' and y.args[0].endswith('null_space')]
                if r.op != 'call' or len(ns) != 1:
                    raise Und('result %s' % show(r))
                m = ns[0].args[1]
                bv = mk('bv', 1)
                want = mk('call', 'Matrix::vstack', mk('comp', 'map', t_len(e), bv, (((), mk('call', 'Matrix::row', E.getidx(e, bv))),)))
                gexpect(m, canon(want), 'the system of equations solved', w, calls=calls_in(want))
                if allows(0):
                    raise Bad('the null space may be taken of no equations at all', w)
            else:
                none += 1
                if r.op == 'agg' and r.args[1] == 0:
                    raise Bad('nothing is returned when %s' % ('there are no equations' if allows(0) else 'some equations are found'), w)
                if r.op != 'agg' or r.args[1] != 1 or r.args[2].op != 'call' or not r.args[2].args[0].endswith('identity'):
                    if r.op == 'agg' and r.args[1] == 1 and r.args[2].op == 'call' and r.args[2].args[0].endswith('Matrix::zero'):
                        raise Bad('without equations no direction is free', w)
                    raise Und('result without equations: %s' % show(r))
                if any(allows(k) for k in (1, 2, 3, 7)):
                    raise Bad('everything is taken to be free although there are equations', w)
                full(r.args[2].args[1], w)
        if not some:
            raise Und('no null space taken')
        if not none:
            raise Bad('the null space of no equations at all is asked for', w)
        return '%d results with and %d without equations' % (some, none)

    # ---------------------------------------------------------------- origin shifts
    def shifts():
        f = ctx.fn('spacegroups::basics::shift_space')
        s = ctx.summary(f, inline_if=own)
        w = ctx.where(f)
        S = Sums(ctx, s, w)
        rows = fed(s)
        if not rows:
            raise Und('no equations collected')
        for p, key, x, ph in rows:
            ops_all(p, x, w)
        for seed in range(6):
            g = geom.Gen(seed)
            n = 2 + seed % 2
            lin = g.m(n, n)
            if seed > 1:
                # a linear part that leaves some shifts fixed
                u, v = [g.r.choice([-2, -1, 1, 2]) for _ in range(n)], [g.r.choice([-2, -1, 0, 1]) for _ in range(n)]
                lin = geom.mat([[u[i] * v[j] + (i == j) for j in range(n)] for i in range(n)])
            ops = [geom.Geo('A', lin, g.m(n, 1))]
            want = [[ops[0].p[0][i][j] - (i == j) for j in range(n)] for i in range(n)]
            got = []
            for p, key, x, ph in rows:
                xs = sorted({z for t in [x] + [t for t, _ in p.facts()] for z in subterms(t) if z.op == 'ix'}, key=lambda z: z.id)
                for b in S.sh.choices(xs, {A(0): ops}):
                    if all(evalt.fact_val(t, v, S.env(b)) for t, v in p.facts()):
                        r = evalt.lst(S.val(x, b), S.env(b))
                        if len(r) != n:
                            raise Bad('an equation for a shift of dimension %d has %d coefficients' % (n, len(r)), w)
                        got.append([Fraction(y) for y in r])
            d = span_diff(got, want, n)
            if d:
                raise Bad('for linear part %s the equations %s, but a shift t is fixed exactly when (S - 1) t = 0: %s' %
                          (fm(ops[0].p[0]), ' and '.join(fr(r) for r in got), 'one is missing' if d == 'missing' else 'one is too many'), w)

        def full(n, w):
            gexpect(n, mk('call', 'AffineMap::dim', E.getidx(A(0), INT(0))), 'the dimension of the full shift space', w, calls=('AffineMap::dim',))
        return '%d row forms; %s' % (len(rows), outcome(f, s, rows, w, full))

    def ops_all(p, x, w):
        """every operation contributes"""
        es = {y.args[1] for t in [x] for y in subterms(t) if y.op == 'idx' and y.args[0] is A(0) and contains_ix(y.args[1])}
        es |= {y.args[1] for y in subterms(x) if y.op == 'idx' and y.args[0] is A(0) and y.args[1].op != 'int'}
        if not es:
            ks = {y.args[1] for y in subterms(x) if y.op == 'call' and y.args[0] == 'AffineMap::linear_matrix'}
            if len(ks) == 1 and first(ks) is canon(E.getidx(A(0), INT(0))):
                raise Bad('only the first operation gives equations', w)
            raise Und('operations of %s' % show(x))
        if len(es) != 1:
            raise Und('%d operations in one equation' % len(es))
        over_all(es.pop(), A(0), 'operations', w)

    def contains_ix(t):
        return any(z.op == 'ix' for z in subterms(t))
    ctx.ob('equations for shifts', shifts)

    # ---------------------------------------------------------------- metrics
    def gram():
        f = ctx.fn('spacegroups::basics::gram_matrix_configuration_space')
        s = ctx.summary(f, inline_if=own)
        w = ctx.where(f)
        S = Sums(ctx, s, w)
        rows = fed(s)
        if not rows:
            raise Und('no equations collected')
        # the numbering of the unknowns
        numb = {y.args[0] for _, _, x, _ in rows for t in [x] + [z for q in S.L if base_of(x) is q for z in S.deep(q)] + inside(S, x) for y in subterms(t)
                if y.op == 'idx' and y.args[1].op == 'agg' and (y.args[0].op == 'stores' or y.args[0] in S.L and S.L[y.args[0]].op == 'call')}
        if len(numb) != 1:
            raise Und('%d numberings of the unknowns' % len(numb))
        T0 = numb.pop()
        K = T0
        if T0.op == 'stores':
            ks = [q for q, i in S.L.items() if i.op == 'call' and i.args[0] == 'Matrix::zero']
            if len(ks) != 1:
                raise Und('numbering %s' % show(T0))
            K = ks[0]
        table = {}
        for n in (1, 2, 3):
            table[n] = numbering(S, K, n, w)
        for p, key, x, ph in rows:
            t = [x] + inside(S, x)
            es = {y.args[1] for z in t for y in subterms(z) if y.op == 'idx' and y.args[0] is A(0) and y.args[1].op != 'int'}
            if not es:
                ks = {y.args[1] for z in t for y in subterms(z) if y.op == 'call' and y.args[0] == 'AffineMap::linear_matrix'}
                if len(ks) == 1 and first(ks) is canon(E.getidx(A(0), INT(0))):
                    raise Bad('only the first operation gives equations', w)
                raise Und('operations')
            if len(es) != 1:
                raise Und('%d operations in one equation' % len(es))
            over_all(es.pop(), A(0), 'operations', w)
        for seed in range(6):
            n = 2 + seed % 2
            g = geom.Gen(seed + 10)
            m = g.reg(n)
            ops = [geom.Geo('A', m, g.m(n, 1))]
            num, count = table[n]

            def hook(t, env, bvs, num=num, count=count):
                if t is T0:
                    return dict(num)
                if t.op == 'idx' and t.args[0] is T0:
                    k = evalt.ev(t.args[1], env, bvs)
                    return Fraction(num[tuple(int(evalt.num(z)) for z in (k[-2:] if isinstance(k, tuple) else k))])
                if t in S.L and counter(S, t, K):
                    return Fraction(count)
                return NotImplemented
            got = []
            for p, key, x, ph in rows:
                chain = x
                while chain.op == 'store':
                    chain = chain.args[0]
                ups = updates(x, chain)
                xs = sorted({z for t in [x] + inside(S, x) for z in subterms(t) if z.op == 'ix'}, key=lambda z: z.id)
                # indices of loops within the accumulation are summed, the others run over the equations
                inn = loops_in(S, chain)
                outer = [z for z in xs if z.args[0] not in inn]
                outer += [z for z in closure(outer) if z not in outer]
                for b in choices(S, outer, {A(0): ops}, hook):
                    if any(contains_ix(t) and all(z in b for z in subterms(t) if z.op == 'ix') and not evalt.fact_val(t, v, S.env(b, hook)) for t, v in p.facts()):
                        continue
                    row = {}

                    def put(ixt, d, c):
                        k = evalt.num(S.val(ixt, c, hook))
                        row[k] = row.get(k, 0) + evalt.num(S.val(d, c, hook))
                    acc(S, chain, b, put, hook, w)
                    for ix, d in ups:
                        if len(ix) != 1:
                            raise Und('update of %s' % show(ix[0]))
                        put(ix[0], d, b)
                    if any(k < 0 or k >= count for k in row):
                        raise Bad('an equation has a coefficient for unknown number %s of %d' % (max(row), count), w)
                    got.append([row.get(Fraction(k), Fraction(0)) for k in range(count)])
            want = []
            for a in range(n):
                for c in range(a, n):
                    r = [Fraction(0)] * count
                    for i in range(n):
                        for j in range(n):
                            r[num[i, j]] += m[i][a] * m[j][c]
                    r[num[a, c]] -= 1
                    want.append(r)
            d = span_diff(got, want, count)
            if d:
                raise Bad('for linear part S = %s the equations are not those of S^T G S = G: %s' % (fm(m), 'some are missing' if d == 'missing' else 'there are others'), w)

        def full(t, w):
            if t in S.L and counter(S, t, K):
                return
            for n in (1, 2, 3):
                try:
                    v = S.val(t, {A(0): [geom.Geo('A', geom.ident(n), geom.col([0] * n))]})
                except evalt.NoEval:
                    raise Und('size %s' % show(t))
                if v != table[n][1]:
                    raise Bad('without equations %s of %d directions are free' % (v, table[n][1]), w)
        return '%d row forms; %s' % (len(rows), outcome(f, s, rows, w, full))

    def closure(xs):
        out = []
        for x in xs:
            for z in subterms(x.args[1]):
                if z.op == 'ix' and z is not x:
                    out.append(z)
        return out

    def choices(S, xs, b, hook):
        out = [dict(b)]
        for x in sorted(set(xs), key=lambda z: (len(list(subterms(z))), z.id)):
            nxt = []
            for c in out:
                n = evalt.nat(S.val(x.args[1], c, hook))
                for i in range(n):
                    nxt.append({**c, x: Fraction(i)})
            out = nxt
        return out

    def base_of(x):
        while x.op == 'store':
            x = x.args[0]
        return x

    def outermost(S, ph):
        while ph in S.L and S.L[ph].op == 'phi':
            ph = S.L[ph]
        return ph

    def inside(S, x):
        c = base_of(x)
        if c not in S.L:
            return [x]
        out = []
        for p, k, new in S.B:
            if k == c.args[0] and c in new:
                out.append(new[c])
                out += [t for t, _ in own_facts(p, k)]
        return out + S.deep(c)

    def loops_in(S, c):
        out = set()
        if c in S.L:
            out.add(c.args[0])
            for q, i in S.L.items():
                if i is c and q is not c:
                    out |= loops_in(S, q)
        return out

    def acc(S, c, b, put, hook, w):
        if c.op == 'from_elem':
            if c.args[0] is not INT(0):
                raise Bad('equations start with coefficients %s' % show(c.args[0]), w)
            return
        if c not in S.L:
            raise Und('coefficients %s' % show(c))
        init = S.L[c]
        if init.op == 'store':
            ups = updates(init, base_of(init))
            for ix, d in ups:
                put(ix[0], d, b)
            init = base_of(init)
        acc(S, init, b, put, hook, w)
        S.total(c, b, put, hook)

    def counter(S, t, K):
        """the number of unknowns: the counter the numbering stores"""
        key = outermost(S, K).args[0]
        return t.op == 'phi' and t.args[0] in (key, K.args[0]) and t is not K and S.L[t] is INT(0)

    def numbering(S, K, n, w):
        """{(i, j): number} for dimension n and how many"""
        binds = {A(0): [geom.Geo('A', geom.ident(n), geom.col([0] * n))]}
        init = S.L[K]
        if not (init.op == 'call' and init.args[0] == 'Matrix::zero'):
            raise Und('numbering starts as %s' % show(init))
        num = {(i, j): 0 for i in range(n) for j in range(n)}
        stores_ = []
        for p, k, new in S.B:
            for ph, x in new.items():
                if ph.op == 'phi' and outermost(S, ph) is K and x.op == 'store':
                    stores_.append((p, k, ph, x, new))
        if len(stores_) != 1:
            raise Und('%d ways to number an unknown' % len(stores_))
        p, k, ph, x, new = stores_[0]
        vals, keys = set(), []
        while x.op == 'store':
            keys.append(x.args[1])
            vals.add(x.args[2])
            x = x.args[0]
        if x is not ph or len(vals) != 1:
            raise Und('numbering %s' % show(x))
        c = vals.pop()
        if c not in new or canon(mk('sub', 'i', new[c], c)) is not INT(1):
            raise Und('numbers %s' % show(c))
        xs = {z for t in keys for z in subterms(t) if z.op == 'ix'}
        count = 0
        for b in choices(S, xs, binds, None):
            if any(contains_ix(t) and not evalt.fact_val(t, v, S.env(b)) for t, v in p.facts()):
                continue
            for t in keys:
                v = evalt.ev(t, S.env(b))
                i, j = (int(evalt.num(z)) for z in v[-2:])
                if (i, j) not in num:
                    raise Und('key %s' % ((i, j),))
                num[i, j] = count
            count += 1
        for i in range(n):
            for j in range(i):
                if num[i, j] != num[j, i]:
                    raise Bad('the metric has different unknowns %d and %d for axes %d, %d and %d, %d' % (num[i, j], num[j, i], i, j, j, i), w)
        if len(set(num.values())) != n * (n + 1) // 2 or count != n * (n + 1) // 2:
            raise Bad('%d unknowns, %d of them used, for the metric of dimension %d' % (count, len(set(num.values())), n), w)
        return num, count

    ctx.ob('equations for metrics', gram)
