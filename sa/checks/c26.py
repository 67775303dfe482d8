"""C26: row elimination keeps the row lattice or space."""
from ..elim import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR to closed forms; polynomial loop invariants; entrywise comparison of updated rows'
RULE = ('The extended gcd loop is checked against polynomial invariants (initial values and one symbolic step). Every column operation '
        'is put in closed form for an arbitrary column and an arbitrary entry before, at and after it, for integers, exact rationals '
        'and floats; new rows must be the defined combination of the old ones. Every path of the basis extension loop must keep, clear, '
        'insert or append according to the order of the leading columns, and every row must be fed to it.')
PROP = {
    'title': 'Row elimination keeps the row lattice and space',
    'statement': 'The extended gcd returns coefficients that combine its arguments to the gcd and to zero with determinant plus or minus one. '
                 'Clearing, normalising and reducing a column replace rows only by invertible combinations (unimodular ones for integers) with '
                 'zero, positive or one, and reduced entries in that column. Extending a basis never loses a vector outside its span and '
                 'keeps the rows ordered by leading column; the rank is the number of rows of the basis built from all rows.',
    'quantifier': {'over': ['inputs'], 'text': 'all integer, rational and float matrices without overflow'},
    'why_tests_cant': 'Tests eliminate a few fixed 3x3 matrices; sign, divisibility and degenerate leading column cases are unbounded in number.',
    'anchors': {'files': ['src/arithmetic/linear_algebra.rs'],
                'mechanism': 'extended gcd; scalar column operations; basis extension; rank and reduced basis'},
}


def run(ctx):
    ctx.ob('extended gcd', gcdx_obs, ctx)
    for what, ty in INTS:
        ctx.ob('clear_column for %s combines the rows by a unimodular matrix and clears the column' % what, unit_det, ctx, what, ty, False)
    col = A(0)
    L = canon(t_len(A(1)))

    def op(name, ty, want, inv=None):
        f = pyfn(ctx, ty, 'Scalar', name)
        s = ctx.summary(f, inline_if=la_inline)
        w = ctx.where(f)
        rs = s.returns()
        if not rs:
            raise Bad('never returns', w)
        for p in rs:
            for which, e, x in entries(ctx, f, p, 1, 'the row'):
                y = want(p, which, e)
                if y is None:
                    continue
                facts = [(t, v) for t, v in p.facts() if not any(z.op == 'ix' for z in subterms(t))]
                expect(x, canon(y), 'an entry %s the column' % {'before': 'before', 'at': 'at', 'after': 'after'}[which], w, facts=facts, bind=rowbind(e))
            if name != 'clear_column' or True:
                b = p.heap(('A', 2)) if f.argc > 2 else None
                if b is not None and b is not canon(A(2)):
                    raise Bad('the pivot row is changed', w)
        return '%d paths' % len(rs)
    v = lambda e: E.getidx(A(1), e)
    b = lambda e: E.getidx(A(2), e)

    def fclear(p, which, e):
        if which == 'before':
            return v(e)
        if which == 'at':
            return INT(0)
        return mk('sub', 'q', v(e), mk('mul', 'q', b(e), mk('div', 'q', v(col), b(col))))

    def fnorm(p, which, e):
        return v(e) if which == 'before' else INT(1) if which == 'at' else mk('div', 'q', v(e), v(col))

    def fred(p, which, e):
        return v(e) if which == 'before' else INT(0) if which == 'at' else mk('sub', 'q', v(e), mk('mul', 'q', b(e), v(col)))
    for what, ty in FIELDS:
        ctx.ob('clear_column for ' + what, op, 'clear_column', ty, fclear)
        ctx.ob('normalize_column for ' + what, op, 'normalize_column', ty, fnorm)
        ctx.ob('reduce_column for ' + what, op, 'reduce_column', ty, fred)

    def inorm(what, ty):
        f = pyfn(ctx, ty, 'Scalar', 'normalize_column')
        s = ctx.summary(f, inline_if=la_inline)
        w = ctx.where(f)
        n = 0
        for p in s.returns():
            es = entries(ctx, f, p, 1, 'the row')
            at = canon(v(col))
            for sg in (-1, 0, 1):
                c = Cases(ivl={at: SIGNS[sg]})
                if any(c.holds(t, val) == 0 for t, val in p.facts()):
                    continue
                if any(c.holds(t, val) is None for t, val in p.facts()):
                    raise Und('condition')
                for which, e, x in es:
                    if which == 'before' or sg == 0 and which == 'at':
                        continue
                    if sg == 0:
                        continue
                    want = canon(neg(v(e))) if sg < 0 else canon(v(e))
                    expect(x, want, 'an entry %s the column when the leading entry is %s' % (which, 'negative' if sg < 0 else 'positive'), w)
                    n += 1
        return '%d entries' % n

    def ired(what, ty):
        f = pyfn(ctx, ty, 'Scalar', 'reduce_column')
        s = ctx.summary(f, inline_if=la_inline)
        w = ctx.where(f)
        n = 0
        for p in s.returns():
            facts = [(t, val) for t, val in p.facts() if not any(z.op == 'ix' for z in subterms(t))]
            X, Y = canon(v(col)), canon(b(col))
            es = entries(ctx, f, p, 1, 'the row')
            at = next(x for which, e, x in es if which == 'at')
            # quotient: the factor of the pivot row in the later entries
            which, e, x = es[-1]
            if x is canon(v(e)):
                q = INT(0)
            else:
                (cv_, cb_), rest = coeffs(x, [canon(v(e)), canon(b(e))])
                if cv_ is not INT(1) or rest is not INT(0):
                    raise Bad('a later entry becomes %s' % show(x), w)
                q = canon(neg(cb_))
            expect(at, canon(mk('sub', 'i', X, mk('mul', 'i', q, Y))), 'the entry at the column', w, facts=facts, bind=qbind(X, Y, [at] + [t for t, _ in facts]))
            # the quotient is the floor
            fl = mk('floor', mk('div', 'q', X, Y))
            from ..evalt import differ, NoEval
            try:
                d = differ(q, fl, facts, qbind(X, Y, [q] + [t for t, _ in facts]))
            except NoEval as ex:
                if str(ex) == 'no instance':
                    continue
                raise Und('quotient %s: %s' % (show(q), ex))
            if d is not None:
                raise Bad('the multiple of the pivot row subtracted is %s (%s instead of %s), so the reduced entry is not in range' % (show(q), d[0], d[1]), w)
            n += 1
        if not n:
            raise Und('no path')
        return '%d paths; quotient agrees with the floor on all sampled sign and divisibility cases' % n
    for what, ty in INTS:
        ctx.ob('normalize_column for ' + what, inorm, what, ty)
        ctx.ob('reduce_column for ' + what, ired, what, ty)
    ctx.ob('extending a basis keeps its span and order', extend, ctx, 'span')

    def rank():
        f = pyfn(ctx, 'matrices::Matrix', 'LinearAlgebra', 'rank')
        s = ctx.summary(f, inline_if=shape_inline)
        w = ctx.where(f)
        p = the_return(s)
        t = p.ret
        if t.op != 'len' or t.args[0].op != 'phi':
            raise Und('rank is %s' % show(t))
        built(ctx, f, s, t.args[0])
        return 'number of rows of the basis'
    ctx.ob('rank', rank)

    def solve_row(what, ty):
        f = pyfn(ctx, ty, 'Scalar', 'solve_row')
        s = ctx.summary(f, inline_if=la_inline)
        w = ctx.where(f)
        a, x, rhs = A(0), A(1), A(2)
        k = canon(t_len(x))
        n = 0
        for p in s.returns():
            t = p.ret
            if t.op != 'agg' or t.args[1] not in (0, 1):
                raise Und('result %s' % show(t))
            if t.args[1] == 1:
                R = t.args[2]
                j = mk('arg', 'J')
                y = deep(canon(E.getidx(R, j)), {j}, None) if R.op != 'phi' else None
                if y is None:
                    raise Und('result %s' % show(R))
                num = mk('sub', 'i', E.getidx(rhs, j), mk('sum', vmap(k, lambda i: mk('mul', 'i', E.getidx(a, i), E.getidx(E.getidx(x, i), j)))))
                if any(z.op == 'phi' for z in subterms(y)):
                    raise Und('not in closed form: %s' % show(y))
                kd = first([z.args[0] for z in subterms(y) if z.op == 'div'], 'i')
                expect(mnorm(y), mnorm(mk('div', kd, num, E.getidx(a, k))), 'an entry of the solved row', w)
                # every entry was tested for divisibility
                ok = 0
                for bp in s.backs():
                    ws = [e for e in bp.events if e[0] == 'back' and any(v.op == 'store' for v in e[2].values())]
                    if not ws:
                        continue
                    ds = [t for t, v in bp.facts() if any(z.op == 'rem' for z in subterms(t))]
                    if not ds:
                        raise Bad('an entry is accepted without testing divisibility', w)
                    ixs = [z for t in ds for z in subterms(t) if z.op == 'ix' and z.args[0] == ws[-1][1]]
                    good = [z for z in ixs if has_div(bp, mk('rem', kd, subst(num, {j: z}), E.getidx(a, k)))]
                    if not good:
                        raise Und('divisibility test %s' % show(ds[0]))
                    ok += 1
                if not ok:
                    raise Und('no divisibility test')
                n += 1
        if not n:
            raise Und('no solution path')
        return '%d paths' % n
    for what, ty in INTS:
        ctx.ob('solve_row for ' + what, solve_row, what, ty)


def has_div(p, r):
    r = mnorm(r)
    return any(mnorm(t) is mnorm(mk('eq', INT(0), r)) and v == 1 or mnorm(t) is r and v == 0 for t, v in p.facts())


def rowbind(e):
    import random
    from fractions import Fraction as Q

    def bind(seed):
        r = random.Random(seed)
        nz = lambda: r.choice([-3, -2, -1, 1, 2, 3, 5])
        return {canon(E.getidx(A(1), A(0))): Q(nz()), canon(E.getidx(A(2), A(0))): Q(nz())}
    return bind


def qbind(X, Y, ts):
    """instances of the two entries; division of the element type truncates"""
    import random
    from fractions import Fraction as Q
    dv = {z for t in ts for z in subterms(t) if z.op in ('div', 'rem') and z.args[1:] == (X, Y)}

    def bind(seed):
        r = random.Random(seed)
        x, y = r.randrange(-9, 10), r.randrange(1, 6)
        q = abs(x) // y * (1 if x >= 0 else -1)
        m = {X: Q(x), Y: Q(y)}
        for z in dv:
            m[z] = Q(q if z.op == 'div' else x - q * y)
        return m
    return bind
