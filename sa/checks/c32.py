"""C32: barycentric placement."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR to loop transition summaries; entrywise comparison of the assembled linear system'
RULE = ('The loops that assemble the linear system are reduced to the entry updates of one edge (row, column, increment); they must add the '
        'edge to both sides of the equation of its vertex with the same factor, for every incident edge of every vertex but the pinned one, '
        'and the rows of the solution must be assigned to the vertices in the same order. Edge vectors, normalised positions and the '
        'position query are compared in closed form with their definitions.')
PROP = {
    'title': 'Vertex positions are assembled from the barycentric equations',
    'statement': 'The equations solved for the vertex positions pin the first vertex to the origin and say for every other vertex that the '
                 'position differences over all its incident edges, shifts included, add up to zero; the solution rows go to their own vertices. '
                 'An edge vector is the tail position plus the shift minus the head position, and a normalised position is the fractional part '
                 'of each coordinate.',
    'quantifier': {'over': ['inputs'], 'text': 'all graphs of both dimensions'},
    'why_tests_cant': 'Tests place a few nets; multiple edges, loops and shift signs combine without bound.',
    'anchors': {'files': ['src/pgraphs.rs'], 'mechanism': 'assembly of the equation system; position, edge vector and normalised position queries'},
}


def run(ctx):
    CTX[0] = ctx
    n = canon(t_len(V()))
    d = mk('call', 'LabelVector::dim')

    def parts_():
        f = ctx.fn('pgraphs::barycentric_placement')
        s = ctx.summary(f, **NC)
        r = the_return(s)
        sol = {x for x in subterms(r.ret) if x.op == 'call' and x.args[0].rsplit('::', 1)[-1] == 'solve' and len(x.args) == 3}
        if len(sol) != 1:
            raise Und('%d systems solved' % len(sol))
        return f, s, r, sol.pop()

    def base(ph, loops):
        """outermost loop value of an accumulator"""
        while ph.op == 'phi' and loops.get(ph) is not None and loops[ph].op == 'phi':
            ph = loops[ph]
        return ph

    def assembly():
        f, s, r, sol = parts_()
        w = ctx.where(f)
        a, t = sol.args[1:]
        L = phis(s)
        if a not in L or t not in L:
            raise Und('matrix %s' % show(a))
        # initial values
        init = L[a]
        e00 = canon(resimp(E.getidx(E.getidx(init, INT(0)), INT(0))))
        up = []
        z = init
        while z.op == 'store':
            up.append(z)
            z = z.args[0]
        if z.op != 'from_elem' or z.args[0].op != 'from_elem':
            raise Und('matrix starts as %s' % show(init))
        gexpect(z.args[1], n, 'the number of equations', w)
        gexpect(z.args[0].args[1], n, 'the number of unknowns', w)
        if z.args[0].args[0] is not INT(0):
            raise Bad('the matrix does not start with zeros', w)
        pin = None
        if len(up) == 1 and up[0].args[2].op == 'store' and up[0].args[2].args[0] is canon(E.getidx(z, up[0].args[1])):
            pin = (up[0].args[1], up[0].args[2].args[1], up[0].args[2].args[2])
        if not up:
            raise Bad('no vertex is pinned', w)
        if pin is None:
            raise Und('matrix starts as %s' % show(init))
        if pin[0] is not INT(0) or pin[1] is not INT(0):
            if pin[0] is pin[1]:
                raise Und('pinned vertex %s' % show(pin[0]))
            raise Bad('the pinning equation has row %s and column %s' % (show(pin[0]), show(pin[1])), w)
        if pin[2].op != 'int' or pin[2].args[0] == 0:
            raise Bad('the pinning equation has coefficient %s' % show(pin[2]), w)
        it = L[t]
        if it.op != 'from_elem' or it.args[0].op != 'from_elem' or it.args[0].args[0] is not INT(0):
            if it.op == 'store':
                raise Bad('the right hand side starts as %s' % show(it), w)
            raise Und('right hand side starts as %s' % show(it))
        # increments per edge
        ma, mt = [], []
        inner_a = {x for x in L if base(x, L) is a}
        inner_t = {x for x in L if base(x, L) is t}
        for p, key, new in backs(s):
            for ph, x in new.items():
                if ph in inner_a and ph.args[0] == key and not (x.op == 'phi' and x in inner_a and x is not ph) and (x is not ph or any(contains(t_, lambda y: y.op == 'call' and y.args[0] == 'Graph::incidences') for t_, v in p.facts())):
                    ma.append((p, ph, updates(x, ph)))
                if ph in inner_t and ph.args[0] == key and x is not ph and not (x.op == 'phi' and x in inner_t):
                    mt.append((p, ph, closed_updates(x, ph)))
        if not ma or not mt:
            raise Und('%d matrix and %d right hand side updates' % (len(ma), len(mt)))
        facs = set()
        for p, ph, us in ma:
            e, row, fac = one_edge(p, us, w)
            facs.add(fac)
        facs.discard(None)
        if len(facs) != 1:
            raise Und('factors %s' % facs)
        fac = facs.pop()
        # right hand side
        for p, ph, us in mt:
            if len(us) != 1:
                raise Und('%d updates of the right hand side' % len(us))
            ix, dlt, cnt2 = us[0]
            if len(ix) != 2:
                raise Und('right hand side row %s' % show(ix[0]))
            if ix[0] is not row:
                if ix[0].op == 'mget' and ix[0].args[1] is canon(E.getfield(e, 1)):
                    raise Bad('an edge is added to the equation of its neighbour', w)
                gexpect(ix[0], row, 'the equation updated on the right', w, calls=calls_in(ix[0]))
            k2 = ix[1]
            gexpect(cnt2, d, 'the number of coordinates', w, calls=('LabelVector::to_vec',))
            sh = mk('call', 'LabelVector::to_vec', E.getfield(e, 2))
            want = canon(mk('mul', 'i', INT(fac), E.getidx(sh, k2)))
            gexpect(dlt, want, 'the right hand side increment', w)
        return 'each edge adds %d (p_v - p_w) = %d s' % (fac, fac)

    def one_edge(p, us, w):
        # the edge
        incs = {x for y in [y for u in us for y in u[0]] + [t_ for t_, v in p.facts()] for x in subterms(y) if x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] == 'Graph::incidences'}
        if len(incs) != 1:
            raise Und('%d edges in one step' % len(incs))
        e = incs.pop()
        vi = e.args[0].args[2]
        over_all(e.args[1], e.args[0], 'incident edges', w)
        if vi.op != 'idx' or vi.args[0] is not V():
            raise Und('vertex %s' % show(vi))
        row = vi.args[1]
        ixs = [x for x in subterms(row) if x.op == 'ix']
        if len(ixs) != 1:
            raise Und('row %s' % show(row))
        off = canon(mk('sub', 'i', row, ixs[0]))
        cnt = canon(ixs[0].args[1])
        if off.op == 'int' and off.args[0] > 1:
            raise Bad('the equations of vertices before number %s are left out' % show(off), w)
        if off is not INT(1):
            if off is INT(0) and any(contains(t_, lambda y: y is ixs[0]) for t_, v in p.facts()):
                raise Und('rows selected by a condition')
            if off is INT(0):
                raise Bad('the pinned vertex gets a second equation', w)
            raise Und('row %s' % show(row))
        gexpect(cnt, canon(mk('sub', 'i', n, INT(1))), 'the number of equations assembled', w)
        tail = canon(E.getfield(e, 1))
        cols = {}
        for ix, dlt in us:
            if len(ix) != 2:
                raise Und('update of %s' % show(ix[0]))
            if ix[0] is not row:
                if ix[0].op == 'mget' and ix[0].args[1] is canon(E.getfield(e, 1)):
                    raise Bad('an edge is added to the equation of its neighbour', w)
                gexpect(ix[0], row, 'the equation updated', w, calls=calls_in(ix[0]))
            if dlt.op != 'int':
                if any(canon(add(dlt, E.getidx(y, ix[1]))).op == 'int' for y in subterms(dlt) if y.op in ('idx', 'store')):
                    raise Bad('an entry is overwritten instead of changed by the edge', w)
                raise Und('increment %s' % show(dlt))
            cols[ix[1]] = cols.get(ix[1], 0) + dlt.args[0]
        diag = cols.pop(row, 0)
        b = mk('bv', 1)
        num = canon(mk('tomap', mk('comp', 'map', n, b, (((), mk('agg', 'tuple', None, E.getidx(V(), b), b)),))))
        for c in cols:
            if c.op != 'mget':
                if contains(c, lambda z: z is tail) and not contains(subst(c, {tail: INT(0)}), lambda z: z.op not in ('poly', 'int', 'cast') and not isinstance(z, str)) \
                        and not any(contains(t_, lambda z: z.op == 'idx' and z.args[0] is V() and z is not vi) for t_, v in p.facts()):
                    raise Bad('the column of a neighbour is %s, which is right only for vertices numbered without gaps' % show(c), w)
                raise Und('column %s' % show(c))
            gexpect(c.args[1], tail, 'the neighbour in an equation', w)
            gexpect(c.args[0], num, 'the numbering of the vertices', w)
        if len(cols) > 1:
            raise Und('%d columns' % len(cols))
        c, k = cols.popitem() if cols else (None, 0)
        same = None
        for t_, v in p.facts():
            if t_.op == 'eq' and any(x is row for x in subterms(t_)):
                z = canon(mk('sub', 'i', *t_.args))
                zz = canon(mk('sub', 'i', row, mk('mget', num, tail)))
                if z is zz or z is canon(neg(zz)):
                    same = v
        if diag + k != 0 or (k == 0 and same != 1):
            raise Bad('an edge adds %s to its vertex and %s to its neighbour' % (diag, k), w)
        return e, row, (diag if diag else None)

    def closed_updates(x, ph):
        out = []
        for ix, dlt in updates(x, ph):
            last = ix[-1]
            if last.op == 'ix':
                out.append((ix, dlt, canon(last.args[1])))
            else:
                xs = [y for y in subterms(last) if y.op == 'ix']
                if last.op == 'poly' and len(xs) == 1 and canon(mk('sub', 'i', last, xs[0])).op == 'int':
                    raise Bad('coordinate %s of the shift is left out' % ('0' if True else ''), None)
                raise Und('coordinate %s' % show(last))
        return out
    ctx.ob('assembly of the equations', assembly)

    def result():
        f, s, r, sol = parts_()
        w = ctx.where(f)
        b = mk('bv', 1)
        rows = E.getfield(sol, 0, 1)
        pt = {x.args[0] for x in subterms(r.ret) if x.op == 'call' and x.args[0].startswith('Point::')}
        if len(pt) != 1:
            raise Und('positions %s' % show(r.ret))
        want = canon(mk('tomap', mk('comp', 'map', n, b, (((), mk('agg', 'tuple', None, E.getidx(V(), b), mk('call', pt.pop(), E.getidx(rows, b)))),))))
        got = canon(resimp(subst(r.ret, {canon(t_len(rows)): n})))
        gexpect(got, want, 'the table of positions', w)
        return 'solution row i goes to vertex i'
    ctx.ob('solution rows go to their vertices', result)

    def position():
        f = ctx.fn('pgraphs::Graph::position', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        k = 0
        for p in s.returns():
            t = p.ret
            if any(x.op == 'cell0' for x in subterms(t)):
                if t.op == 'mget':
                    gexpect(t.args[1], A(1), 'the vertex looked up', w)
                    k += 1
                    continue
                raise Und('answer %s' % show(t))
            gexpect(t, mk('mget', gc('barycentric_placement', G), A(1)), 'the position', w)
            k += 1
        return '%d answers' % k
    ctx.ob('position query', position)

    def comps(name, want, cls):
        f = ctx.fn('pgraphs::Graph::' + name, public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        p = the_return(s)
        t = p.ret
        while t.op == 'collect':
            t = t.args[-1]
        if t.op == 'call' and t.args[0] in ('Point::new', 'Vector::new') and len(t.args) == 2:
            t = t.args[1]
        t = canon(iters(t))
        want = canon(iters(want))
        gexpect(t, want, 'the result', w)
        return show(want)[:200]

    def iters(t):
        m = {x: x.args[1] for x in subterms(t) if x.op == 'call' and x.args[0] in ('Point::iter', 'Vector::iter', 'Point::into_iter')}
        t = canon(resimp(subst(t, m))) if m else t
        m = {x: d for x in subterms(t) if x.op == 'len' and x.args[0].op == 'call' and x.args[0].args[0] in ('Graph::position', 'LabelVector::to_vec')}
        m.update({x: d for x in subterms(t) if x.op == 'call' and x.args[0] in ('Point::dim', 'Vector::dim')})
        return canon(resimp(subst(t, m))) if m else t
    b = mk('bv', 1)
    vec = lambda x: mk('comp', 'map', d, b, (((), x),))
    pos = lambda v: gc('Graph::position', G, v)
    at = lambda t: E.getidx(t, b)
    ctx.ob('edge vector', comps, 'edge_vector', vec(sub_(add(at(pos(A(1, 1))), at(mk('call', 'LabelVector::to_vec', A(1, 2)))), at(pos(A(1, 0))))), 'Vector')
    ctx.ob('normalised position', comps, 'position_normalized', vec(sub_(at(pos(A(1))), mk('floor', at(pos(A(1)))))), 'Point')
