"""C28: the matrix container: shapes, indexing, stacking, elementwise and product arithmetic."""
from ..rules import *
from ..matnf import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR to symbolic closed forms (loops as comprehensions), compared entry by entry'
RULE = ('The result of every constructor, accessor, stacking function and arithmetic operator of the matrix type is put in closed '
        'form: number of columns and row-major data as a comprehension over symbolic indices, loops summarised exactly. Each closed form '
        'is compared with the definition of the operation, together with the guard facts of the returning paths.')
PROP = {
    'title': 'Matrix operations compute exactly the entries their definition names',
    'statement': 'For every shape, construction, indexing, row and column access, transposition, submatrix, horizontal and vertical '
                 'stacking put every entry at its defined row and column. Negation, addition, subtraction, multiplication and division '
                 'with a scalar or an equally shaped matrix act on every entry, and each entry of a matrix product is the sum over '
                 'the common index of row entry times column entry.',
    'quantifier': {'over': ['inputs'], 'text': 'all matrix shapes, including empty ones, and all entry types'},
    'why_tests_cant': 'Tests use a few 2x2, 2x3 and 3x3 matrices; index mix-ups can cancel for square or symmetric shapes.',
    'anchors': {'files': ['src/arithmetic/matrices.rs'],
                'mechanism': 'row-major indexing; constructors, accessors and stacking loops; operator implementations'},
}
KEEP = ('Matrix::new', 'Matrix::zero', 'Matrix::get_row')


def run(ctx):
    a0, a1, a2 = A(0), A(1), A(2)

    def same(p, got, want, what, where, bind=None):
        facts = [(mnorm(t), v) for t, v in p.facts() if not any(y.op == 'ix' for y in subterms(t))]
        expect(mnorm(got), mnorm(want), what, where, facts=facts, bind=bind or matbind(a0))

    def f_of(n):
        return ctx.fn('Matrix::' + n, file='matrices.rs', public=True)

    def result(n, f=None):
        f = f or f_of(n)
        s = ctx.summary(f)
        rs = s.returns()
        if not rs:
            raise Bad('never returns', ctx.where(f))
        return f, s, rs

    def simple(n, want, what='the result'):
        def go():
            f, s, rs = result(n)
            for p in rs:
                same(p, p.ret, want, what + ' of ' + n, ctx.where(f))
            return '%d paths' % len(rs)
        return go

    def cons():
        f, s, rs = result('new')
        for p in rs:
            t = p.ret
            if t.op != 'agg' or len(t.args) != 5:
                raise Und('result %s' % show(t))
            r, c, d = t.args[2:]
            L = canon(t_len(a1))
            expect(c, a0, 'the number of columns of a new matrix', ctx.where(f))
            expect(d, a1, 'the data of a new matrix', ctx.where(f))
            if has(p, mk('eq', INT(0), L), 1) or has(p, L, 0):
                expect(r, INT(0), 'the number of rows of an empty matrix', ctx.where(f))
            else:
                expect(r, mk('div', 'i', L, a0), 'the number of rows of a new matrix', ctx.where(f))
                rm = canon(mk('rem', 'i', L, a0))
                if not (has(p, mk('eq', L, canon(mk('mul', 'i', r, a0))), 1) or has(p, mk('eq', INT(0), rm), 1) or has(p, rm, 0)):
                    if not any(contains(x, lambda y: y is L) and not (x.op == 'eq' and x.args[0] is INT(0) and x.args[1] is L) for x, v in p.facts()):
                        raise Bad('data whose length is not a multiple of the number of columns is accepted', ctx.where(f))
                    raise Und('length guard')
        return '%d paths' % len(rs)
    ctx.ob('new stores shape and data and rejects a ragged length', cons)
    ctx.ob('row', simple('row', M(canon(t_len(a0)), a0)))
    ctx.ob('col', simple('col', M(INT(1), a0)))
    ctx.ob('reshape', simple('reshape', M(a1, data(a0))))
    ctx.ob('shape', simple('shape', tup(E.getfield(a0, 0), E.getfield(a0, 1))))

    def index(trait, name_):
        f = pyfn(ctx, 'matrices::Matrix', trait, name_)
        s = ctx.summary(f)
        i, j = E.getfield(a1, 0), E.getfield(a1, 1)
        want = lin(a0, i, j)
        rs = s.returns()
        for p in rs:
            t = p.ret
            if t.op == 'mref':
                # &mut data[..]
                pa = t.args[1]
                if len(pa) == 2 and pa[0][1] == 2:
                    expect(p.norm(pa[1][1]), want, 'the position of entry (i, j)', ctx.where(f))
                    jj = j
                else:
                    raise Und('place %s' % show(t))
            else:
                same(p, t, E.getidx(data(a0), want), 'entry (i, j)', ctx.where(f))
            if not (has(p, mk('lt', j, ncols(a0)), 1)):
                if not any(contains(x, lambda y: y is j) for x, v in p.facts()):
                    raise Bad('a column index beyond the last column is accepted', ctx.where(f))
                raise Und('column guard')
        return '%d paths' % len(rs)
    ctx.ob('indexing is row major and rejects column indices out of range', index, 'Index', 'index')
    ctx.ob('mutable indexing is row major and rejects column indices out of range', index, 'IndexMut', 'index_mut')

    def nest(n, f):
        b = fresh()
        return mk('comp', 'flat', canon(n), b, (((), f(b)),))

    def stack(n, horizontal):
        def go():
            f, s, rs = result(n)
            L = canon(t_len(a0))
            m0 = E.getidx(a0, INT(0))
            own, other = (1, 0) if horizontal else (0, 1)
            seen = 0
            for p in rs:
                if has(p, mk('eq', INT(0), L), 1):
                    t = mnorm(p.ret)
                    expect(t, M(INT(0), agg('array', None)), 'the stack of no matrices', ctx.where(f))
                    continue
                seen += 1
                if horizontal:
                    c = mk('sum', vmap(L, lambda q: E.getfield(E.getidx(a0, q), 1)))
                    d = nest(E.getfield(m0, 0), lambda i: nest(L, lambda q: vmap(E.getfield(E.getidx(a0, q), 1), lambda j:
                             E.getidx(data(E.getidx(a0, q)), lin(E.getidx(a0, q), i, j)))))
                else:
                    c = E.getfield(m0, 1)
                    d = nest(L, lambda q: nest(E.getfield(E.getidx(a0, q), 0), lambda i: vmap(E.getfield(E.getidx(a0, q), 1), lambda j:
                             E.getidx(data(E.getidx(a0, q)), lin(E.getidx(a0, q), i, j)))))
                same(p, p.ret, M(c, d), 'the stacked matrix', ctx.where(f), bind=stackbind)
            if not seen:
                raise Und('no path')
            bs = [p for p in s.panics()]
            # some path must reject parts that disagree in the common dimension
            if not any(any(contains(t, lambda y: y.op == 'fld' and y.args[0] == other and y.args[2].op == 'idx') and v == 0
                           for t, v in p.facts()) for p in bs):
                raise Bad('parts with a different common dimension are not rejected', ctx.where(f))
        return go
    ctx.ob('hstack', stack('hstack', True))
    ctx.ob('vstack', stack('vstack', False))

    def submat():
        f, s, rs = result('submatrix')
        r0, r1, c0, c1 = E.getfield(a1, 0), E.getfield(a1, 1), E.getfield(a2, 0), E.getfield(a2, 1)
        nr, nc = canon(mk('sub', 'i', r1, r0)), canon(mk('sub', 'i', c1, c0))
        want = M(nc, nest(nr, lambda i: vmap(nc, lambda j: E.getidx(data(a0), lin(a0, canon(add(i, r0)), canon(add(j, c0)))))))
        for p in rs:
            same(p, p.ret, want, 'the submatrix', ctx.where(f), bind=subbind)
    ctx.ob('submatrix', submat)
    ctx.ob('get_row', simple('get_row', vmap(ncols(a0), lambda j: E.getidx(data(a0), lin(a0, a1, j))), 'the row'))
    ctx.ob('get_rows', simple('get_rows', vmap(nrows(a0), lambda i: vmap(ncols(a0), lambda j: E.getidx(data(a0), lin(a0, i, j)))), 'the rows'))
    ctx.ob('get_col', simple('get_col', vmap(nrows(a0), lambda i: E.getidx(data(a0), lin(a0, i, a1))), 'the column'))
    ctx.ob('transpose', simple('transpose', M(nrows(a0), nest(ncols(a0), lambda j: vmap(nrows(a0), lambda i: E.getidx(data(a0), lin(a0, i, j)))))))
    ctx.ob('zero', simple('zero', M(a1, mk('from_elem', INT(0), canon(mk('mul', 'i', a0, a1))))))

    def unit():
        f, s, rs = result('unit_vector')
        for p in rs:
            same(p, p.ret, M(a0, mk('store', mk('from_elem', INT(0), a0), a1, INT(1))), 'the unit vector', ctx.where(f), bind=lambda s: {})
    ctx.ob('unit_vector', unit)

    def ident():
        f, s, rs = result('identity')
        b = fresh()
        want = M(a0, mk('stores', mk('from_elem', INT(0), canon(mk('mul', 'i', a0, a0))),
                        mk('comp', 'map', a0, b, (((), tup(canon(add(mk('mul', 'i', b, a0), b)), INT(1))),))))
        for p in rs:
            same(p, p.ret, want, 'the identity matrix', ctx.where(f), bind=lambda s: {})
    ctx.ob('identity', ident)

    def isid():
        f, s, rs = result('is_identity')
        R, C = nrows(a0), ncols(a0)
        sq = canon(mk('eq', R, C))

        def fs(p):
            return [(mnorm(t), v) for t, v in p.facts()]
        for p in rs:
            if p.ret.op != 'int':
                raise Und('result %s' % show(p.ret))
            F = fs(p)
            if p.ret is TRUE:
                if not any(t is sq and v == 1 for t, v in F):
                    raise Bad('a non-square matrix can be called the identity', ctx.where(f))
        # every entry visited: back paths of the inner loop
        n = 0
        for p in s.backs():
            F = fs(p)
            ent = [(t, v) for t, v in F if t.op == 'eq' and contains(t, lambda y: y.op == 'idx' and y.args[0] is data(a0))]
            diag = [(t, v) for t, v in F if t.op == 'eq' and not contains(t, lambda y: y.op == 'idx')
                    and sum(1 for y in subterms(t) if y.op == 'ix') == 2]
            if not ent:
                if any(y.op == 'ix' for t, v in F for y in subterms(t)) and diag:
                    raise Bad('an entry is passed without being looked at', ctx.where(f))
                continue
            if len(ent) != 1 or len(diag) != 1:
                raise Und('form of the entry test')
            (t, v), (dt, dv) = ent[0], diag[0]
            e = next(y for y in subterms(t) if y.op == 'idx' and y.args[0] is data(a0))
            want = INT(1) if dv == 1 else INT(0)
            if t is not canon(mk('eq', e, want)):
                if opaque_in(t) is None:
                    raise Bad('%s entries are compared by %s' % ('diagonal' if dv else 'off-diagonal', show(t)), ctx.where(f))
                raise Und('test %s' % show(t))
            if v != 1:
                raise Bad('an %s entry that fails the test is passed over' % ('diagonal' if dv else 'off-diagonal'), ctx.where(f))
            ixs = [y for y in subterms(e.args[1]) if y.op == 'ix']
            lim = {canon(y.args[1]) for y in ixs}
            lim = {mnorm(y) for y in lim}
            if not lim <= {R, C} or len(ixs) != 2:
                raise Bad('only entries with indices below %s are tested' % ', '.join(show(y) for y in lim), ctx.where(f))
            n += 1
        if n < 2:
            raise Und('%d entry tests' % n)
        return '%d entry tests' % n
    ctx.ob('is_identity', isid)

    # ------------------------------------------------------------ arithmetic
    def negs():
        k = 0
        for f in [g for g in ctx.lib.fns if g.name == 'neg' and g.kind != 'Closure' and g.file.endswith('matrices.rs')]:
            p = the_return(ctx.summary(f))
            if p.ret.op == 'npoly':
                expect(p.ret, mk('neg', 'm', a0), 'the negated matrix', ctx.where(f))
            else:
                L = canon(t_len(data(a0)))
                same(p, p.ret, M(ncols(a0), vmap(L, lambda i: mk('neg', 'p', E.getidx(data(a0), i)))), 'the negated matrix', ctx.where(f))
            k += 1
        if not k:
            raise Bad('no negation of matrices')
        return '%d implementations' % k
    ctx.ob('negation', negs)

    def assign(f, op):
        def go():
            s = ctx.summary(f)
            rs = s.returns()
            if not rs:
                raise Bad('never returns', ctx.where(f))
            isM = 'Matrix<T>>>' in f.path.split(' as ')[1] or 'for std::ops' in f.path or not f.path.split(' as ')[1].split('>::')[0].count('<')
            for p in rs:
                h = p.heap(('A', 0))
                d0 = data(a0)
                L = canon(t_len(d0))
                rhs = (lambda i: E.getidx(data(a1), i)) if isM else (lambda i: a1)
                want = E.setfield(a0, 2, None, vmap(L, lambda i: mk(op, 'p', E.getidx(d0, i), rhs(i))))
                same(p, h, want, 'the matrix after the operation', ctx.where(f), bind=matbind(a0, a1, same=True) if isM else None)
                if isM:
                    lens = mk('eq', t_len(d0), t_len(data(a1)))
                    cols = mk('eq', ncols(a0), ncols(a1))
                    F = [(mnorm(t), v) for t, v in p.facts()]
                    okc = any(t is canon(cols) and v == 1 for t, v in F)
                    okl = any(t is canon(lens) and v == 1 for t, v in F) or any(t is canon(mk('eq', nrows(a0), nrows(a1))) and v == 1 for t, v in F)
                    if not okc or not okl:
                        if any(not okc and contains(t, lambda y: y is ncols(a1)) or not okl and contains(t, lambda y: y is data(a1) or y is nrows(a1)) for t, v in F):
                            raise Und('shape guard')
                        raise Bad('a matrix with a different %s is accepted' % ('number of columns' if not okc else 'number of entries'), ctx.where(f))
            return '%d paths' % len(rs)
        return go
    for nm, op in (('add_assign', 'add'), ('sub_assign', 'sub'), ('mul_assign', 'mul'), ('div_assign', 'div')):
        fs_ = [g for g in ctx.lib.fns if g.name == nm and g.kind != 'Closure' and g.file.endswith('matrices.rs')]
        for g in sorted(fs_, key=lambda g: g.path):
            ctx.ob('%s %s' % (nm, 'matrix' if isM_(g) else 'scalar') + ('' if '&' not in g.path.split(' as ')[1] else ' by reference'), assign(g, op))

    def binop(nm, op):
        def go():
            k = 0
            for f in [g for g in ctx.lib.fns if g.name == nm and g.kind != 'Closure' and g.file.endswith('matrices.rs')]:
                s = ctx.summary(f, inline_if=None)
                p = the_return(s)
                t = p.ret
                full = '<&' in f.path.split(' as ')[0] and 'Mul<&' in f.path
                if t.op == 'npoly' or t.op in ('div',):
                    want = mk(op, 'm', a0, a1)
                    m0 = agg('arithmetic::matrices::Matrix', None, *[E.getfield(a0, i) for i in range(3)])
                    m = {y: a0 for y in subterms(t) if y.op == 'agg' and str(y.args[0]).endswith('Matrix') and y.args[2:] == tuple(E.getfield(a0, i) for i in range(3))}
                    t = canon(subst(t, m))
                    if t is canon(want):
                        k += 1
                        continue
                    from ..poly import to_np
                    expect(t, canon(want), 'the result', ctx.where(f))
                    k += 1
                else:
                    if nm != 'mul':
                        raise Und('result %s' % show(t))
                    n = t
                    K = ncols(a0)
                    want = M(ncols(a1), nest(nrows(a0), lambda i: vmap(ncols(a1), lambda j: mk('sum', vmap(K, lambda q:
                             mk('mul', 'q', E.getidx(data(a0), lin(a0, i, q)), E.getidx(data(a1), lin(a1, q, j))))))))
                    g, w = mnorm(t), mnorm(want)
                    if g is not w:
                        w2 = mnorm(subst(want, {K: nrows(a1)}))
                        if g is not w2:
                            same(p, t, want, 'the matrix product', ctx.where(f), bind=matbind(a0, a1, inner=True))
                    if not has_m(p, mk('eq', ncols(a0), nrows(a1))):
                        if not any(contains(mnorm(x), lambda y: y is nrows(a1)) for x, v in p.facts()):
                            raise Bad('factors with different inner dimensions are accepted', ctx.where(f))
                        raise Und('shape guard')
                    k += 1
            if not k:
                raise Bad('no operator ' + nm)
            return '%d implementations' % k
        return go
    for nm in ('add', 'sub', 'mul', 'div'):
        ctx.ob(nm + ' operators', binop(nm, nm))


def stackbind(seed):
    from ..matnf import matval
    k = seed % 4 + 1
    r, c = (seed // 4) % 3, (seed // 12) % 3
    return {A(0): [matval(seed, i, r, None if seed % 2 else c) if seed % 3 else matval(seed, i, None, c) for i in range(k)]}


def subbind(seed):
    import random
    from fractions import Fraction as Q
    g = random.Random(seed)
    r, c = g.randrange(7), g.randrange(7)
    m = matval(seed, 0, r, c)
    r0, r1 = sorted((g.randrange(r + 1), g.randrange(r + 1)))
    c0, c1 = sorted((g.randrange(c + 1), g.randrange(c + 1)))
    return {A(0): m, A(1): (Q(r0), Q(r1)), A(2): (Q(c0), Q(c1))}


def isM_(f):
    return not f.path.split(' as ')[1].split('>::')[0].count('<') or 'Matrix<T>>>' in f.path.split(' as ')[1]


def has_m(p, t):
    t = canon(t)
    return any(mnorm(x) is t and v == 1 for x, v in p.facts())
