"""C25: determinants."""
import itertools
from ..elim import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR to polynomial normal form; orientation parity of the elimination steps'
RULE = ('For sizes zero to three the returned value is an exact polynomial in the entries and is compared with the Leibniz sum. For larger '
        'sizes the value must be the product of the diagonal of the eliminated basis of all rows, or zero when rows are missing; every '
        'elimination step must keep the orientation: the clearing combination has determinant one and an insertion negates the vector exactly '
        'when it passes an odd number of rows.')
PROP = {
    'title': 'Determinants are exact for every square matrix',
    'statement': 'The determinant of a square matrix of size up to three is the signed sum over permutations of products of entries, and a '
                 'non-square matrix is rejected. For larger matrices it is the product of the pivots of an elimination in which every step '
                 'keeps the determinant, including its sign, and zero when the rows are dependent.',
    'quantifier': {'over': ['inputs'], 'text': 'all square matrices over integers, rationals and floats (without overflow or rounding)'},
    'why_tests_cant': 'Tests use six fixed matrices; wrong signs show only for particular row orders and zero patterns.',
    'anchors': {'files': ['src/arithmetic/linear_algebra.rs'],
                'mechanism': 'determinant of small matrices; basis extension with sign parity; integer column clearing'},
}


def leibniz(n, at):
    s = INT(0)
    for p in itertools.permutations(range(n)):
        sg = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    sg = -sg
        x = INT(sg)
        for i in range(n):
            x = mk('mul', 'q', x, at(i, p[i]))
        s = mk('add', 'q', s, x)
    return canon(s)


def run(ctx):
    def det(n):
        f = pyfn(ctx, 'matrices::Matrix', 'LinearAlgebra', 'determinant')
        w = ctx.where(f)
        s = ctx.summary(f, inline_if=shape_inline)
        R, C = A(0, 0), A(0, 1)
        iv = {R: (n, n), C: (n, n)} if n < 4 else {R: (4, None), C: (4, None)}
        c = Cases(ivl=iv, bools={mk('eq', R, C): 1})
        k = 0
        fix = (lambda t: canon(resimp(subst(t, {R: INT(n), C: INT(n)})))) if n < 4 else canon
        for p, sure in c.paths(s):
            if p.kind == 'panic':
                if sure is True:
                    raise Bad('panics for a %s x %s matrix' % (n, n), w)
                continue
            if p.kind != 'return':
                continue
            t = mnorm(p.ret)
            lens = [x for x in subterms(t) if x.op == 'phi'] or [x for u, _ in p.facts() for x in subterms(u) if x.op == 'phi']
            if n < 4 and not lens:
                g = fix(t)
                want = leibniz(n, lambda i, j: E.getidx(data(A(0)), INT(i * n + j)))
                expect(g, want, 'the determinant of a %d x %d matrix' % (n, n), w)
                k += 1
                continue
            if not lens:
                raise Bad('the determinant of a matrix with four or more rows is %s' % show(t), w)
            bases = {x for x in lens if x.op == 'phi'}
            if len(bases) != 1:
                raise Und('several loop values')
            b = bases.pop()
            built(ctx, f, s, b)
            # how far the basis may be from full on this path: -1, -2 and fewer, 0
            z = canon(mk('len', b))
            ds = [canon(mk('sub', 'i', z, x)) for x in (R, C)]
            feas = {}
            tested = False
            for d in ((0, 0), (-1, -1), (-2, -2), (None, -3)):
                cc = Cases(ivl={x: d for x in ds})
                h = [cc.holds(mnorm(u), v) for u, v in p.facts() if contains(mnorm(u), lambda y: y.op == 'len' and y.args[0] is b)]
                tested |= bool(h)
                feas[d] = 0 if 0 in h else None if None in h else 1
            if t is INT(0):
                if feas[(0, 0)] == 1:
                    raise Bad('the determinant of a matrix with independent rows is zero', w)
            elif t.op == 'product':
                m = t.args[0]
                okc = m.op == 'comp' and m.args[0] == 'map' and len(m.args[3]) == 1
                if not okc:
                    raise Und('product %s' % show(t))
                j = mk('arg', 'J')
                x = canon(subst(m.args[3][0][1], {m.args[2]: j}))
                want = canon(E.getidx(E.getidx(b, j), j))
                bb = {b: mk('arg', 'basis')}
                expect(canon(subst(x, bb)), canon(subst(want, bb)), 'a factor of the determinant', w)
                nn = mnorm(m.args[1])
                if nn not in (mnorm(R), mnorm(C), canon(mk('len', b))):
                    expect(nn, mnorm(R), 'the number of factors of the determinant', w)
                if any(feas[d] == 1 for d in feas if d != (0, 0)):
                    raise Bad('the product of pivots is returned although rows are missing', w)
                if any(feas[d] is None for d in feas if d != (0, 0)):
                    raise Und('rank test')
            else:
                raise Und('determinant %s' % show(t))
            k += 1
        if not k:
            raise Und('no path')
        return '%d paths' % k
    for n in (0, 1, 2, 3):
        ctx.ob('determinant of %d x %d matrices' % (n, n), det, n)
    ctx.ob('determinant of larger matrices', det, 4)

    def square():
        f = pyfn(ctx, 'matrices::Matrix', 'LinearAlgebra', 'determinant')
        s = ctx.summary(f, inline_if=shape_inline)
        R, C = A(0, 0), A(0, 1)
        for o in (-1, 1):
            c = Cases(order={(R, C): o}, bools={mk('eq', R, C): 0})
            for p, sure in c.paths(s):
                if p.kind == 'return':
                    if sure is True or not any(contains(t, lambda y: y is C) for t, _ in p.facts()):
                        raise Bad('a non-square matrix is accepted', ctx.where(f))
                    raise Und('square test')
    ctx.ob('non-square matrices are rejected', square)
    for what, ty in INTS:
        ctx.ob('clearing a column for %s has determinant one' % what, unit_det, ctx, what, ty, True)
    ctx.ob('inserting a vector keeps the orientation', extend, ctx, 'sign')
    ctx.ob('elimination of a vector loses nothing', extend, ctx, 'span')
