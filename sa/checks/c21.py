"""C21: automorphisms and the symmetry group."""
from ..graphs import *
from ..poly import to_np, from_np
from ..summary import alpha

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: worklist transitions, closed forms of maps and products with noncommutative matrix factors, conditions on what is left out'
RULE = ('Product and identity are put in closed form entry by entry. Each way around the worklist loops of the automorphism search and of the group closure '
        'must add, queue, pass over or give up exactly as defined; every candidate seed list must be tried unless equivalent, '
        'with the transform that maps the vectors of the first list to its own, and the lists must range over all vertices, combinations and orders.')
PROP = {
    'title': 'Symmetries are the group of all automorphisms found from edge lists',
    'statement': 'The product of two symmetries composes vertex maps, edge maps and transforms in the same order, and the identity maps all vertices and edges to themselves. '
                 'A symmetry exists for a start pair and transform exactly when walking all edges never meets a vertex with two images or an edge vector whose image '
                 'is no edge vector there. The symmetry group is the closure under products of those found for every list of characteristic edges '
                 'not equivalent to the first, with the transform taking the vectors of the first list to those of the other.',
    'quantifier': {'over': ['inputs'], 'text': 'all connected locally stable periodic graphs'},
    'why_tests_cant': 'Tests count the symmetries of a few small nets.',
    'anchors': {'files': ['src/symmetries.rs', 'src/pgraphs.rs'],
                'mechanism': 'symmetry product and identity; automorphism search; group closure; symmetry enumeration; characteristic edge lists'},
}
LISTS = mk('call', 'characteristic_edge_lists', G)
SAFE = ('Edge::canonical', 'LinearAlgebra::determinant', 'Graph::incidences', 'Graph::vertices', 'Graph::edge_vector', 'Graph::edge_by_unique_delta', 'LabelVector::dim', 'Graph::directed_edges',
        'AffineMap::identity', 'AffineMap::new', 'Vector::zero', 'Matrix::transpose', 'Matrix::row', 'Matrix::vstack', 'LinearAlgebra::inverse', 'automorphism',
        'is_unimodular', 'Partition::find', 'characteristic_edge_lists', 'Vector::into_iter', 'good_combinations', 'good_edge_chains', 'are_linearly_independent')
ZERO = mk('call', 'Vector::zero', mk('call', 'LabelVector::dim'))


def unk(t):
    """calls and loop values outside the vocabulary"""
    return bool(calls_in(t) - set(SAFE)) or contains(t, lambda z: z.op in ('closure', 'apply'))


def tpush(t):
    """transposes of products pushed into the factors"""
    def one(x):
        if x.op == 'call' and x.args[0] == 'Matrix::transpose':
            return x.args[1]
        return mk('call', 'Matrix::transpose', x)
    t = canon(t)
    for _ in range(8):
        m = {}
        for x in subterms(t):
            if x.op == 'call' and x.args[0] == 'Matrix::transpose':
                y = x.args[1]
                if y.op == 'npoly':
                    m[x] = from_np({tuple(one(a) for a in reversed(k)): c for k, c in to_np(y).items()})
                elif y.op == 'call' and y.args[0] == 'Matrix::transpose':
                    m[x] = y.args[1]
        if not m:
            break
        t = canon(subst(t, m))
    return canon(alpha(t))


def pairs_of(t):
    """[(key, value, conds, collection length, bv)] of a map built from pairs"""
    if t.op == 'tomap':
        t = t.args[0]
    if t.op != 'comp':
        raise Und('map %s' % show(t))
    out = []
    for c, v in t.args[3]:
        if t.args[0] == 'flat':
            out += [(k, x, tuple(c) + cc, [(t.args[1], t.args[2])] + ls) for k, x, cc, ls in pairs_of(v)]
        elif v.op == 'agg' and v.args[0] == 'tuple':
            out.append((v.args[2], v.args[3], tuple(c), [(t.args[1], t.args[2])]))
        else:
            raise Und('map entry %s' % show(v))
    return out


def run(ctx):
    CTX[0] = ctx

    def product():
        f = pyfn(ctx, 'pgraphs::Automorphism', 'Mul', 'mul')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        t = the_return(s).ret
        if t.op != 'agg' or len(t.args) != 5:
            raise Und('product %s' % show(t))
        order = []
        for i in (0, 1):
            for k, v, c, ls in pairs_of(t.args[2 + i]):
                X = [x for x in subterms(k) if x.op == 'fld' and x.args[0] in (0, 1) and x.args[2] in (A(0), A(1))]
                if len(set(X)) != 1:
                    raise Und('key %s' % show(k))
                if X[0].args[0] != i:
                    raise Bad('the keys of one map are used for the other', w)
                gexpect(ls[0][0], t_len(X[0]), 'the number of entries', w, known=[X[0]])
                odd = [y for y in c if y[0].op not in ('contains', 'discr')]
                if odd and not unk(odd[0][0]):
                    raise Bad('an entry is left out unless %s = %s' % (show(odd[0][0]), odd[0][1]), w)
                a, b = A(0, i), A(1, i)
                if v is mk('mget', a, mk('mget', b, k)):
                    order.append(0)
                elif v is mk('mget', b, mk('mget', a, k)):
                    order.append(1)
                elif not unk(v) and not any(z.op in ('mvalues',) for z in subterms(v)):
                    raise Bad('the image of a key is %s' % show(v), w)
                else:
                    raise Und('image %s' % show(v))
        m = canon(t.args[4])
        if m is canon(mk('mul', 'm', A(0, 2), A(1, 2))):
            order.append(0)
        elif m is canon(mk('mul', 'm', A(1, 2), A(0, 2))):
            order.append(1)
        elif not unk(m):
            raise Bad('the transform of a product is %s' % show(m), w)
        else:
            raise Und('transform %s' % show(m))
        if len(set(order)) != 1:
            raise Bad('the factors are composed in different orders in the vertex map, edge map and transform', w)
        return '3 parts'
    ctx.ob('product of symmetries', product)

    def identity():
        f = ctx.fn('pgraphs::Automorphism::identity', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        t = the_return(s).ret
        if t.op == 'call' and t.args[0] == 'Automorphism::new':
            t = mk('agg', 'Automorphism', None, *t.args[1:])
        if t.op != 'agg' or len(t.args) != 5:
            raise Und('identity %s' % show(t))
        for i, what in ((0, 'vertices'), (1, 'edges')):
            for k, v, c, ls in pairs_of(t.args[2 + i]):
                if k is not v and not unk(k) and not unk(v):
                    raise Bad('%s is mapped to %s' % (show(k), show(v)), w)
                if k is not v:
                    raise Und('entry')
                if c:
                    raise Bad('some %s are left out' % what, w) if not any(unk(x) for x, y in c) else Und('condition')
                for n, b in ls:
                    cs = [x.args[0] for x in subterms(n) if x.op == 'len']
                    if n.op == 'len':
                        continue
                    if not unk(n):
                        raise Bad('the number of %s taken is %s' % (what, show(n)), w)
                    raise Und('number %s' % show(n))
        gexpect(t.args[4], mk('call', 'AffineMap::identity', mk('call', 'LabelVector::dim')), 'the transform of the identity', w)
        return '2 maps'
    ctx.ob('identity symmetry', identity)

    def search():
        f = ctx.fn('symmetries::automorphism')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        ini = phis(s)
        tr = A(3)
        pops = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op in ('popped', 'poppedback')}
        if len(pops) != 1:
            raise Und('queue')
        pop = pops.pop()
        Q = pop.args[0]
        a, b = canon(E.getfield(pop, 0)), canon(E.getfield(pop, 1))
        q0 = ini.get(Q)
        if q0 is None or q0.op != 'agg' or len(q0.args) != 3:
            raise Und('queue starts as %s' % (show(q0) if q0 else '?'))
        expect(E.getfield(q0.args[2], 0), A(1), 'the vertex the walk starts from', w)
        expect(E.getfield(q0.args[2], 1), A(2), 'the image of the start vertex', w)
        inc = INC(a)
        VMs = {t.args[0] for p in s.paths for t, v in p.facts() if t.op == 'contains' and t.args[1] is a}
        if len(VMs) != 1:
            raise Und('vertex map')
        VM = VMs.pop()
        known = mk('contains', VM, a)
        same = canon(mk('eq', b, mk('mget', VM, a)))
        # the image of an edge
        imgs = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'call' and x.args[0] == 'Graph::edge_by_unique_delta'}
        if len(imgs) != 1:
            raise Und('images of edges')
        img = imgs.pop()
        j = index_of(img, inc)
        over_all(j, inc, 'incidences', w)
        e = canon(E.getidx(inc, j))
        if canon(img.args[2]) is a:
            raise Bad('the image of an edge is looked up at the vertex itself', w)
        gexpect(img.args[2], b, 'the vertex at which the image of an edge is looked up', w)
        want = canon(mk('mul', 'm', tr, mk('call', 'Graph::edge_vector', G, e)))
        if canon(img.args[3]) is not want:
            if not unk(img.args[3]):
                raise Bad('the vector looked up is %s' % show(img.args[3]), w)
            raise Und('vector %s' % show(img.args[3]))
        eimg = canon(E.getfield(img, 0, 1))
        found = canon(mk('discr', img))
        n = 0
        ikey = j.args[0]
        okey = Q.args[0]
        for p in s.returns():
            fs = dict(p.facts())
            r = p.ret
            if r.op == 'agg' and r.args[1] == 0:
                if (known, 1) in p.facts() and (same, 0) in p.facts():
                    n += 1
                    continue
                if (found, 0) in p.facts():
                    n += 1
                    continue
                bad = [(t, v) for t, v in p.facts() if not unk(t) and not (t.op == 'eq' and INT(0) in t.args and contains(t, lambda z: z.op == 'len' and z.args[0] is Q))]
                last = p.facts()[-1] if p.facts() else None
                if last and not unk(last[0]) and last[0] in (known, same, found):
                    raise Bad('gives up when %s = %s' % (show(last[0]), last[1]), w)
                if any(contains(t, lambda z: z is G or z is tr) and t not in (found, known, same) for t, v in p.facts()):
                    raise Und('gives up when %s' % show(last[0]))
                raise Bad('gives up when %s' % '; '.join('%s = %s' % (show(t), v) for t, v in bad), w)
            elif r.op == 'agg' and r.args[1] == 1:
                au = r.args[2]
                if not (au.op == 'call' and au.args[0] == 'Automorphism::new' or au.op == 'agg'):
                    raise Und('result %s' % show(au))
                vm, em, t = au.args[-3:]
                if not any(v == 1 and t_.op == 'eq' and INT(0) in t_.args for t_, v in p.facts()):
                    raise Bad('ends before the queue is empty', w)
                expect(t, tr, 'the transform of the result', w)
                if vm is not VM:
                    raise Und('vertex map %s' % show(vm))
                if em.op != 'phi':
                    raise Bad('the edge map of the result is %s' % show(em), w) if not unk(em) else Und('edge map')
                EMo = em
                n += 1
            else:
                raise Und('result %s' % show(r))
        for p, key, new in backs(s):
            fs = p.facts()
            if key == okey:
                if (known, 1) in fs:
                    if (same, 1) not in fs:
                        if all(not unk(t) for t, v in fs):
                            raise Bad('a vertex met with another image is accepted', w)
                        raise Und('conflict')
                    if new.get(VM, VM) is not VM:
                        raise Und('vertex map changes')
                    n += 1
                elif (known, 0) in fs:
                    if new.get(VM) is not mk('minsert', VM, a, b):
                        x = new.get(VM)
                        if x is VM:
                            raise Bad('a vertex does not get its image', w)
                        if x.op == 'minsert' and x.args[0] is VM:
                            raise Bad('%s gets the image %s' % (show(x.args[1]), show(x.args[2])), w)
                        raise Und('vertex map %s' % show(x))
                    n += 1
                else:
                    raise Und('way around without asking for the image of the vertex')
            elif key == ikey:
                if (known, 1) in fs:
                    raise Und('edges of a vertex met before')
                if (found, 1) not in fs:
                    if (found, 0) in fs:
                        raise Bad('an edge without image is passed over', w)
                    x = [t for t, v in own_facts(p, ikey)]
                    if all(not unk(t) for t in x):
                        raise Bad('an edge is passed over when %s' % '; '.join(show(t) for t in x), w)
                    raise Und('edge passed over')
                q = [(m, x) for m, x in new.items() if x.op == 'push' and x.args[0] is m]
                em = [(m, x) for m, x in new.items() if x.op == 'minsert' and x.args[0] is m]
                if len(q) != 1:
                    if not q and all(x is m or x.op == 'minsert' for m, x in new.items()):
                        raise Bad('the end of an edge is not queued%s' % (' when ' + show(own_facts(p, ikey)[-1][0]) if len(own_facts(p, ikey)) > 1 else ''), w)
                    raise Und('queue')
                pr = q[0][1].args[1]
                x, y = canon(E.getfield(pr, 0)), canon(E.getfield(pr, 1))
                if x is not canon(E.getfield(e, 1)) or y is not canon(E.getfield(eimg, 1)):
                    if not unk(x) and not unk(y):
                        raise Bad('queued: %s with image %s' % (show(x), show(y)), w)
                    raise Und('queued %s' % show(pr))
                if len(em) != 1:
                    if not em and all(x is m or x.op == 'push' for m, x in new.items()):
                        raise Bad('an edge gets no image', w)
                    raise Und('edge map')
                k, v = em[0][1].args[1:3]
                if k is not e or v is not eimg:
                    if not unk(k) and not unk(v):
                        raise Bad('the edge %s gets the image %s' % (show(k), show(v)), w)
                    raise Und('edge map %s' % show(em[0][1]))
                n += 1
        return '%d obligations' % n
    ctx.ob('automorphism search', search)

    def closure():
        f = ctx.fn('symmetries::multiplicative_group')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        ini = phis(s)
        ways = {}
        prods = set()
        for p, key, new in backs(s):
            for t, v in p.facts():
                if t.op == 'contains':
                    prods.add(t)
        if len(prods) != 1:
            raise Und('products tested')
        c = prods.pop()
        S, pr = c.args
        pops = [x for x in subterms(pr) if x.op in ('popped', 'poppedback')]
        if len(set(pops)) != 1:
            if not contains(pr, lambda z: z.op == 'popped') and not unk(pr) and contains(pr, lambda z: z is A(1)):
                raise Bad('only products %s are formed' % show(pr), w)
            raise Und('product %s' % show(pr))
        i = index_of(pr, A(1))
        over_all(i, A(1), 'generators', w)
        g = canon(E.getidx(A(1), i))
        if canon(pr) not in (canon(mk('mul', 'i', pops[0], g)), canon(mk('mul', 'm', pops[0], g)), canon(mk('mul', 'm', g, pops[0]))):
            raise Und('product %s' % show(pr))
        n = 0
        RES = set()
        for p, key, new in backs(s):
            if key != i.args[0]:
                continue
            if has(p, c, 1):
                if new.get(S) is not S:
                    raise Und('seen elements change')
                n += 1
                continue
            if not has(p, c, 0):
                own = p.facts()
                sized = [(t, v) for t, v in own if contains(t, lambda z: z.op == 'len' and any(contains(z, lambda y: y is m) for m in new))]
                if sized and all(x is m for m, x in new.items()) and not any(unk(t) for t, v in own):
                    raise Bad('a product is left out when %s = %s' % (show(sized[0][0]), sized[0][1]), w)
                raise Und('a product is not tested')
            q = [m for m, x in new.items() if x.op == 'push' and x.args == (m, pr)]
            if new.get(S) is S:
                raise Bad('a new product is not remembered', w)
            if len(q) < 2:
                if len(q) == 1 and all(x is m or x.op in ('push', 'sinsert') and x.args[0] is m for m, x in new.items()):
                    raise Bad('a new product is not %s' % ('queued' if not any(m.args[1] == pops[0].args[0].args[1] for m in q) else 'in the result') +
                              (' when %s = %s' % (show(own_facts(p, key)[-1][0]), own_facts(p, key)[-1][1]) if len(own_facts(p, key)) > 1 else ''), w)
                raise Und('new product')
            RES.update(q)
            n += 1
        for ph, t in ini.items():
            if t.op == 'agg' and t.args[0] in ('array', 'setlit') and len(t.args) == 3:
                expect(t.args[2], A(0), 'the first element', w)
                n += 1
        for p in s.returns():
            if not any(v == 1 and t.op == 'eq' and INT(0) in t.args for t, v in p.facts()):
                if p.facts() and not any(unk(t) for t, v in p.facts()):
                    raise Bad('ends before the queue is empty', w)
                raise Und('end of the loop')
            if p.ret.op != 'phi' or ini.get(p.ret) is None:
                raise Und('result %s' % show(p.ret))
            t = ini[p.ret]
            if t.op == 'agg' and len(t.args) == 2:
                raise Bad('the identity is not in the group', w)
        return '%d obligations' % n
    ctx.ob('closure under products', closure)

    def enumeration():
        f = ctx.fn('symmetries::symmetries', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, inline=('map_vec', 'matrix_from_edge_list'), **NC)
        p = the_return(s)
        t = p.ret
        if t.op != 'call' or t.args[0] != 'multiplicative_group':
            raise Und('result %s' % show(t))
        gexpect(t.args[1], mk('call', 'Automorphism::identity', G), 'the first element of the group', w)
        c = t.args[2]
        if c.op == 'phi':
            for q, key, new in backs(s):
                if new.get(c) is c and not any('automorphism' in calls_in(y) for y, val in q.facts()):
                    for y, val in q.facts():
                        if y.op in ('lt', 'eq') and contains(y, lambda z: z.op == 'len' and z.args[0] is c) and canon(resimp(subst(y, {canon(t_len(c)): INT(3)}))).op == 'int':
                            raise Bad('a list is not tried when %s = %s' % (show(y), val), w)
        if c.op != 'comp':
            raise Und('generators %s' % show(c))
        b = c.args[2]
        n0 = t_len(LISTS)
        L0 = canon(E.getidx(LISTS, INT(0)))
        nn = canon(c.args[1])
        i = b
        if nn is canon(sub_(n0, INT(1))):
            i = canon(add(b, INT(1)))
        else:
            gexpect(nn, n0, 'the number of edge lists tried', w, calls=('characteristic_edge_lists',))
        Li = canon(E.getidx(LISTS, i))

        def mat(L):
            k = mk('bv', 977)
            ev = mk('call', 'Graph::edge_vector', G, E.getidx(L, k))
            return mk('call', 'Matrix::vstack', mk('comp', 'map', t_len(L), k, (((), mk('call', 'Matrix::row', mk('call', 'Vector::into_iter', ev))),)))
        inv = mk('call', 'LinearAlgebra::inverse', mat(L0))
        m = mk('call', 'Matrix::transpose', mk('mul', 'm', E.getfield(inv, 0, 1), mat(Li)))
        aff = mk('call', 'AffineMap::new', m, ZERO)
        au = mk('call', 'automorphism', G, E.getfield(E.getidx(L0, INT(0)), 0), E.getfield(E.getidx(Li, INT(0)), 0), aff)
        n = 0
        for cs, v in c.args[3]:
            aus = [x for x in subterms(v) if x.op == 'call' and x.args[0] == 'automorphism']
            if len(set(aus)) != 1:
                raise Und('generator %s' % show(v))
            x = aus[0]
            for k, what in ((2, 'the vertex the walk starts from'), (3, 'the image of the start vertex')):
                gexpect(x.args[k], au.args[k], what, w, calls=SAFE)
            g, wnt = tpush(x.args[4]), tpush(aff)
            if g is not wnt:
                if unk(g) or contains(g, lambda z: z.op == 'phi'):
                    raise Und('transform %s' % show(g))
                raise Bad('the transform is %s' % show(g), w)
            ok = [canon(mk('discr', x))]
            for y, val in cs:
                if y is ok[0] and val == 1:
                    continue
                if y.op == 'eq' and all(z.op == 'call' and z.args[0] == 'Partition::find' for z in y.args[-2:]) and {z.args[2] for z in y.args[-2:]} == {L0, Li}:
                    if val == 0:
                        continue
                    raise Bad('only lists equivalent to the first are tried', w)
                if y.op == 'call' and y.args[0] == 'is_unimodular' and val == 1:
                    if tpush(y.args[1]) in (tpush(m), tpush(m.args[1])):
                        continue
                if val == 1 and y.op == 'eq' and y is canon(mk('eq', mk('call', 'LinearAlgebra::determinant', first([z for z in subterms(y) if z.op == 'call' and z.args[0] == 'LinearAlgebra::determinant'], G).args[-1]), INT(1))):
                    raise Bad('a list is not tried when the determinant of its transform is not 1', w)
                if unk(y) or y.op == 'call':
                    raise Und('condition %s' % show(y))
                if contains(y, lambda z: z is b) and not contains(y, lambda z: z.op == 'call' and z.args[0] == 'LinearAlgebra::inverse'):
                    raise Bad('a list is not tried when %s = %s' % (show(y), 1 - val if val in (0, 1) else 'not %s' % val), w)
                raise Und('condition %s' % show(y))
            n += 1
        us = unions(s)
        for p, key, ph, x, y in us:
            ls = [z for z in (x, y) if z.op == 'idx' and z.args[0] is canon(LISTS)]
            ot = [z for z in (x, y) if z not in ls]
            if len(ls) != 1:
                if len(ls) == 2 and not unk(x) and not unk(y):
                    raise Bad('%s and %s are taken as equivalent' % (show(x), show(y)), w)
                raise Und('equivalent: %s, %s' % (show(x), show(y)))
            o = ot[0]
            if o.op != 'comp' or len(o.args[3]) != 1:
                raise Und('equivalent list %s' % show(o))
            (cs, v), = o.args[3]
            if any(y.op not in ('contains', 'discr') for y, _ in cs):
                raise Und('equivalent list %s' % show(o))
            isos = [z for z in subterms(v) if z.op == 'call' and z.args[0] == 'automorphism']
            if v.op != 'mget' or len(set(isos)) != 1:
                raise Und('equivalent list %s' % show(o))
            if v.args[0] is not canon(E.getfield(E.getfield(isos[0], 0, 1), 1)):
                raise Und('edge map %s' % show(v.args[0]))
            src = v.args[1]
            if src is not canon(E.getidx(ls[0], o.args[2])):
                if not unk(src):
                    raise Bad('the list %s is taken as equivalent to the images of other edges %s' % (show(ls[0]), show(src)), w)
                raise Und('image of %s' % show(src))
            n += 1
        return '%d generators and equivalences' % n
    ctx.ob('every edge list is tried with its transform', enumeration)

    def unimodular():
        f = ctx.fn('symmetries::is_unimodular')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        dets = canon(mk('abs', mk('call', 'LinearAlgebra::determinant', A(0))))
        n = 0
        for p in s.returns():
            if p.ret is INT(0):
                last = p.facts()[-1]
                continue
            t = p.ret
            d1 = canon(mk('eq', dets, INT(1)))
            if t is INT(1):
                if has(p, d1, 1):
                    n += 1
                    continue
                if not any(contains(x, lambda z: z.op == 'call' and z.args[0] == 'LinearAlgebra::determinant') for x, v in p.facts()):
                    raise Bad('answers yes whatever the determinant', w)
                raise Und('answer')
            if t is not d1:
                if calls_in(t) <= {'LinearAlgebra::determinant'} and not contains(t, lambda z: z.op == 'phi'):
                    if t is canon(mk('eq', mk('call', 'LinearAlgebra::determinant', A(0)), INT(1))):
                        raise Bad('determinant -1 is excluded', w)
                    raise Und('answer %s' % show(t))
                raise Und('answer %s' % show(t))
            n += 1
        return '%d answers' % n
    ctx.ob('unimodular test', unimodular)

    def lists():
        f = ctx.fn('symmetries::characteristic_edge_lists')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        chains = mk('call', 'good_edge_chains', G)
        allc = mk('call', 'good_combinations', mk('call', 'Graph::directed_edges', G), G)
        VG = canon(V())
        n = 0
        last = 0
        for p in s.returns():
            t = p.ret
            nonempty = has(p, canon(mk('eq', INT(0), t_len(t))), 0)
            if t is chains or t is canon(allc):
                last += t is canon(allc)
                if t is chains and not nonempty:
                    raise Bad('no edge list at all when there is no chain of independent edges', w)
                n += 1
                continue
            if t.op == 'phi' and any(key == t.args[0] and has(q, canon(mk('eq', INT(0), t_len(t))), 1) for q, key, new in backs(s)):
                raise Bad('the edges of the later vertices are not combined once there are lists', w)
            if t.op != 'comp':
                raise Und('lists %s' % show(t))
            if not nonempty:
                raise Bad('no edge list at all when no vertex has independent edges', w)
            gexpect(t.args[1], t_len(VG), 'the number of vertices whose edges are combined', w)
            v = canon(E.getidx(VG, t.args[2]))
            for c, x in t.args[3]:
                if c:
                    if any(unk(y) for y, _ in c):
                        raise Und('condition %s' % show(c[0][0]))
                    raise Bad('the edges of a vertex are left out unless %s = %s' % (show(c[0][0]), c[0][1]), w)
                if x.op == 'comp':
                    src = [z for z in subterms(x) if z.op == 'call' and z.args[0] == 'good_combinations']
                    if len(set(src)) != 1:
                        raise Und('lists %s' % show(x))
                    gexpect(x.args[1], t_len(src[0]), 'the number of combinations taken', w, calls=SAFE)
                    if any(cc for cc, _ in x.args[3]):
                        cc = [cc for cc, _ in x.args[3] if cc][0]
                        if unk(cc[0][0]):
                            raise Und('condition')
                        raise Bad('a combination is left out unless %s = %s' % (show(cc[0][0]), cc[0][1]), w)
                    x = src[0]
                if not (x.op == 'call' and x.args[0] == 'good_combinations'):
                    raise Und('lists %s' % show(x))
                gexpect(x.args[1], INC(v), 'the edges combined', w)
                n += 1
        return '%d families' % n
    ctx.ob('characteristic edge lists', lists)

    def combos():
        f = ctx.fn('symmetries::good_combinations')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        t = the_return(s).ret
        if t.op != 'comp':
            raise Und('combinations %s' % show(t))
        d = mk('call', 'LabelVector::dim')
        K = [x for x in subterms(t) if x.op == 'call' and x.args[0] == 'Itertools::combinations']
        if not K:
            raise Und('combinations')
        for x in set(K):
            gexpect(x.args[1], A(0), 'the edges combined', w)
            gexpect(x.args[2], d, 'the number of edges combined', w)
        gexpect(t.args[1], t_len(K[0]), 'the number of combinations tried', w, calls=('Itertools::combinations',))
        for c, x in t.args[3]:
            for y, v in c:
                if y.op == 'call' and y.args[0] == 'are_linearly_independent':
                    if v != 1:
                        raise Bad('dependent edges are taken', w)
                elif y.op == 'call' or calls_in(y) - {'Itertools::combinations', 'LabelVector::dim'}:
                    raise Und('condition %s' % show(y))
                else:
                    raise Bad('a combination is left out unless %s = %s' % (show(y), v), w)
            if not any(y.op == 'call' and y.args[0] == 'are_linearly_independent' for y, v in c):
                raise Bad('dependent edges are taken', w) if not c else Und('no test for independence')
            if x.op != 'comp' and not (x.op == 'call' and x.args[0] == 'Itertools::permutations'):
                raise Bad('the edges are taken in one order only', w) if x.op == 'agg' and 'Itertools::permutations' not in calls_in(x) else Und('lists %s' % show(x))
            Pm = {z for z in subterms(x) if z.op == 'call' and z.args[0] == 'Itertools::permutations'}
            if not Pm and t.args[0] == 'filter' and calls_in(x) <= {'Itertools::combinations', 'LabelVector::dim'}:
                raise Bad('the edges are taken in one order only', w)
            if not Pm:
                raise Und('orders %s' % show(x))
            for z in Pm:
                gexpect(z.args[2], d, 'the length of a permutation', w, calls=('Itertools::combinations',))
            if x.op == 'comp':
                m = canon(x.args[1])
                if m.op == 'min' and any(isinstance(y, T) and y.op == 'int' for y in m.args) and any(isinstance(y, T) and y.op == 'len' and y.args[0].op == 'call' and y.args[0].args[0] == 'Itertools::permutations' for y in m.args):
                    raise Bad('the number of orders taken is %s' % show(m), w)
                if not (m.op == 'len' and m.args[0].op == 'call' and m.args[0].args[0] == 'Itertools::permutations'):
                    gexpect(m, t_len(first(Pm)), 'the number of orders taken', w, calls=('Itertools::combinations', 'Itertools::permutations'))
                if any(cc for cc, _ in x.args[3]):
                    raise Und('orders left out')
        return show(t)
    ctx.ob('all orders of independent edges', combos)

    def chains():
        f = ctx.fn('symmetries::good_edge_chains')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        D = mk('call', 'Graph::directed_edges', G)
        n = 0
        for p, key, new in backs(s):
            for m, x in new.items():
                if x is m:
                    if own_facts(p, key) and not any(unk(t) for t, v in own_facts(p, key)):
                        raise Bad('chains starting with an edge are left out when %s' % show(own_facts(p, key)[-1][0]), w)
                    continue
                if x.op != 'upd' or x.args[0] != 'generate_edge_chain_extensions':
                    raise Und('lists %s' % show(x))
                l = x.args[2]
                i = index_of(l, D)
                over_all(i, D, 'directed edges', w)
                n += 1
        f = ctx.fn('symmetries::generate_edge_chain_extensions')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        d = mk('call', 'LabelVector::dim')
        n0 = t_len(A(0))
        full = canon(mk('eq', n0, d))
        inc = INC(E.getfield(E.getidx(A(0), sub_(n0, INT(1))), 1), A(1))
        for p in s.returns():
            h = p.heap(('A', 2))
            if has(p, full, 1):
                if h is not mk('push', A(2), A(0)):
                    raise Bad('a complete chain is not listed', w) if h is A(2) else Und('lists %s' % show(h))
                n += 1
            elif has(p, full, 0):
                if h.op == 'push':
                    raise Bad('an incomplete chain is listed', w)
        for p, key, new in backs(s):
            for m, x in new.items():
                if x is m:
                    fs = own_facts(p, key)
                    if any(t.op == 'call' and t.args[0] == 'are_linearly_independent' and v == 0 for t, v in fs):
                        n += 1
                        continue
                    if fs and all(not unk(t) for t, v in fs):
                        raise Bad('an extension is left out when %s' % show(fs[-1][0]), w)
                    raise Und('an extension is left out')
                if x.op != 'upd' or x.args[0] != 'generate_edge_chain_extensions':
                    raise Und('lists %s' % show(x))
                l = x.args[2]
                if l.op != 'push' or l.args[0] is not A(0):
                    raise Und('extended chain %s' % show(l))
                src = [z for z in subterms(l.args[1]) if z.op == 'call' and z.args[0] == 'Graph::incidences']
                if len(src) == 1 and src[0] is not canon(inc) and not unk(src[0]):
                    raise Bad('chains are extended by the edges at %s' % show(src[0].args[2]), w)
                i = index_of(l.args[1], inc)
                over_all(i, inc, 'edges at the end of the chain', w)
                n += 1
        return '%d obligations' % n
    ctx.ob('chains of independent edges', chains)

    def indep():
        f = ctx.fn('symmetries::are_linearly_independent')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        B = set()
        for p, key, new in backs(s):
            for m, x in new.items():
                if x is m:
                    raise Und('edges left out')
                if x.op != 'upd' or x.args[0] != 'extend_basis':
                    raise Und('basis %s' % show(x))
                v = strip(x.args[2])
                i = index_of(v, A(0))
                over_all(i, A(0), 'edges', w)
                gexpect(v, mk('call', 'Graph::edge_vector', A(1), E.getidx(A(0), i)), 'the vector added to the basis', w)
                B.add(m)
        if len(B) != 1:
            raise Und('basis')
        t = the_return(s).ret
        nb, n0 = t_len(B.pop()), t_len(A(0))
        if t is not canon(mk('eq', nb, n0)) and t is not canon(mk('not', mk('lt', nb, n0))):
            if not unk(t):
                raise Bad('the answer is %s' % show(t), w)
            raise Und('answer %s' % show(t))
        return 'one basis'
    ctx.ob('linear independence', indep)
