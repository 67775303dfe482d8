"""C24: minimal image."""
from ..graphs import *
from .c21 import tpush
from ..summary import alpha

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: closed form of the quotient edge list with noncommutative matrix factors; loop transitions of the vertex numbering and the vertex shifts'
RULE = ('The absence condition is decided on all paths; the edge list of the image is put in closed form (which edges are taken, how their ends are numbered, how the shift is '
        'computed) and each factor is compared with the definition; the extended translation basis, the reduction into the unit cell and the conversion to integers are compared in closed form.')
PROP = {
    'title': 'The minimal image is the quotient by all translational symmetries',
    'statement': 'The minimal image is absent exactly when the first translational orbit has one vertex. Otherwise its vertices number the translational orbits, and every edge '
                 'appears with the orbits of its ends and its shift corrected by the offsets of both ends from the first vertex of their orbits and written in the basis of the '
                 'extended translation lattice. That lattice is generated by the position differences within the first orbit.',
    'quantifier': {'over': ['inputs'], 'text': 'all connected locally stable periodic graphs'},
    'why_tests_cant': 'Tests compare the minimal images of three square nets.',
    'anchors': {'files': ['src/symmetries.rs', 'src/pgraphs.rs'],
                'mechanism': 'minimal image; extended translation basis; translational orbits; affine map applied to shifts'},
}
ORB = mk('call', 'translational_orbits', G)
O0 = mk('idx', ORB, mk('int', 0))
BASIS = mk('call', 'extended_translation_basis', G, O0)
POS = lambda v: gc('Graph::position', G, v)
VOC = {'translational_orbits', 'extended_translation_basis', 'Graph::position', 'Graph::directed_edges', 'Graph::vertices', 'Edge::canonical', 'Edge::new', 'Matrix::row', 'Matrix::vstack',
       'Matrix::transpose', 'LinearAlgebra::inverse', 'AffineMap::new', 'Vector::zero', 'LabelVector::dim', 'LabelVector::to_vec', 'LabelVector::from_vec', 'r_to_i32', 'Vector::iter', 'Graph::new',
       'Graph::is_locally_stable', 'rem1', 'Point::iter', 'Graph::position_normalized', 'Ratio::to_integer', 'Ratio::is_integer', 'ToPrimitive::to_i32', 'rational_lattice_basis'}


def unk(t):
    return bool(calls_in(t) - VOC) or contains(t, lambda z: z.op in ('closure', 'apply', 'phi'))


def run(ctx):
    CTX[0] = ctx
    f = ctx.fn('symmetries::minimal_image', public=True)
    w = ctx.where(f)
    S = {}

    def summary():
        if not S:
            S['s'] = ctx.summary(f, **NC)
        return S['s']

    def absent():
        s = summary()
        one = canon(mk('eq', mk('len', O0), mk('int', 1)))
        n = 0
        for p in s.returns():
            none = p.ret.op == 'agg' and p.ret.args[1] == 0
            if has(p, one, 0 if none else 1):
                raise Bad('the image is %s when the first orbit has one vertex iff not: %s' % ('absent' if none else 'built', show(one)), w)
            if has(p, one, 1 if none else 0):
                n += 1
                continue
            cs = [(t, v) for t, v in p.facts() if any(x is ORB or x.op == 'call' and x.args[0] in ('is_minimal', 'symmetries', 'is_ladder') for x in subterms(t)) and not contains(t, lambda x: x is BASIS)]
            for c, v in cs:
                if c.op in ('eq', 'lt') and all(x.op in ('poly', 'int', 'len', 'idx', 'call', 'arg') for x in subterms(c) if x is not c) and not calls_in(c) - VOC:
                    # a condition on numbers of orbits or vertices only
                    for k in range(1, 5):
                        i = Cases({mk('len', O0): (k, k)}).value(c)
                        if i is None:
                            break
                        if (i == v) and (k == 1) != none:
                            raise Bad('the image is %s for an orbit of %d' % ('absent' if none else 'built', k), w)
                    else:
                        continue
                    if not contains(c, lambda x: x is O0):
                        raise Bad('whether there is an image depends on %s' % show(c), w)
            if any(calls_in(c) - VOC for c, v in cs):
                raise Und('condition')
            if none and not cs and p.facts() == [(canon(gc('Graph::is_locally_stable', G)), 1)]:
                raise Bad('the image is always absent', w)
            n += 1
        return '%d return paths' % n
    ctx.ob('absent', absent)

    def image():
        s = summary()
        rs = [p for p in s.returns() if not (p.ret.op == 'agg' and p.ret.args[1] == 0)]
        if len(rs) != 1:
            raise Und('%d ways to build' % len(rs))
        g = canon(rs[0].ret.args[2])
        if g.op != 'call' or g.args[0] != 'Graph::new':
            raise Und('image %s' % show(g))
        es = g.args[1]
        if es.op != 'comp' or es.args[0] not in ('map', 'filter') or len(es.args[3]) != 1:
            raise Und('edges %s' % show(es))
        kind, n, bv, ((conds, e2),) = es.args
        cols = [x for x in subterms(n) if x.op == 'call' and x.args[0] == 'Graph::directed_edges']
        if not cols:
            raise Und('edges %s' % show(n))
        DE = cols[0]
        gexpect(n, t_len(DE), 'the number of edges taken', w)
        e = mk('idx', DE, bv)
        if any(x.op == 'idx' and x.args[0] is DE and x.args[1] is not bv for x in subterms(es)):
            raise Und('other edges')
        CANON = canon(mk('eq', e, mk('call', 'Edge::canonical', e)))
        for c, v in conds:
            if c is CANON:
                if v != 1:
                    raise Bad('the edges that equal their canonical form are left out', w)
                continue
            if c.op == 'contains' or c.op == 'discr':
                continue
            if unk(c) and not (CANON in (x for x, v in conds) and c.op in ('lt', 'eq') and contains(c, lambda z: z.op == 'mget') and not calls_in(c) - VOC):
                raise Und('edges taken if %s' % show(c))
            raise Bad('an edge is left out unless %s = %s' % (show(c), v), w)
        if e2.op != 'call' or e2.args[0] != 'Edge::new':
            raise Und('edge %s' % show(e2))
        a, b, sh = e2.args[1:4]
        head, tail = E.getfield(e, 0), E.getfield(e, 1)

        def uncast(t):
            while t.op == 'cast':
                t = t.args[-1]
            return t
        a, b = uncast(a), uncast(b)
        for x in (a, b):
            if x.op != 'mget':
                raise Und('vertex %s' % show(x))
        IM = a.args[0]
        if IM is not b.args[0]:
            raise Und('different maps')
        if a.args[1] is b.args[1]:
            raise Bad('both ends of an edge of the image come from the same end', w)
        if {a.args[1], b.args[1]} != {canon(head), canon(tail)}:
            raise Und('ends')
        flip = a.args[1] is not canon(head)
        # the shift
        if sh.op != 'call' or sh.args[0] != 'LabelVector::from_vec' or sh.args[1].op != 'comp' or len(sh.args[1].args[3]) != 1:
            raise Und('shift %s' % show(sh))
        k2, n2, b2, ((c2, x2),) = sh.args[1].args
        vs = {x.args[0] for x in subterms(x2) if x.op == 'idx' and x.args[1] is b2}
        if len(vs) != 1:
            raise Und('shift entries %s' % show(x2))
        vec = vs.pop()
        r = mk('call', 'r_to_i32', mk('idx', vec, b2))
        if x2 is not canon(E.getfield(r, 0, 1)):
            if not unk(x2):
                raise Bad('a shift entry is %s' % show(x2), w)
            raise Und('shift entry %s' % show(x2))
        if n2 is not canon(t_len(vec)):
            if n2.op == 'len' and tpush(n2) is tpush(t_len(vec)):
                pass
            elif n2.op in ('poly', 'int') and not unk(n2):
                raise Bad('the number of shift entries is %s' % show(n2), w)
            else:
                raise Und('number of shift entries %s' % show(n2))
        v = vec.args[1] if vec.op == 'call' and vec.args[0] == 'Vector::iter' else vec
        SHs = {x.args[0] for x in subterms(v) if x.op == 'mget'}
        if len(SHs) != 1:
            raise Und('offsets')
        SH = SHs.pop()
        rows = canon(mk('comp', 'map', mk('len', BASIS), mk('bv', 999), (((), mk('call', 'Matrix::row', mk('idx', BASIS, mk('bv', 999)))),)))
        M = mk('call', 'LinearAlgebra::inverse', mk('call', 'Matrix::transpose', mk('call', 'Matrix::vstack', rows)))
        v = tpush(v)
        if v.op != 'npoly':
            raise Und('shift %s' % show(v))
        Ms = {m[0] for m, c in v.args if m}
        if len(Ms) != 1:
            raise Und('shift %s' % show(v))
        m0 = Ms.pop()
        lin = m0
        if m0.op == 'call' and m0.args[0] == 'AffineMap::new':
            lin = m0.args[1]
        want = tpush(canon(E.getfield(M, 0, 1)))
        alt = tpush(canon(mk('call', 'Matrix::transpose', E.getfield(mk('call', 'LinearAlgebra::inverse', mk('call', 'Matrix::vstack', rows)), 0, 1))))
        wants = {want, alt, tpush(canon(E.getfield(mk('call', 'LinearAlgebra::inverse', tpush(M.args[1])), 0, 1)))}
        lin = tpush(lin)
        if lin not in wants:
            if not unk(lin):
                raise Bad('the shifts are written in terms of %s' % show(lin), w)
            raise Und('basis change %s' % show(lin))
        lab = {}
        for m, c in v.args:
            if len(m) != 2:
                raise Und('shift %s' % show(v)) if unk(v) else Bad('the shift is %s' % show(v), w)
            x = m[1]
            if x.op == 'mget' and x.args[0] is SH or x.op == 'mget':
                k = 'head' if x.args[1] is canon(head) else 'tail' if x.args[1] is canon(tail) else None
                if k is None:
                    raise Und('offset of %s' % show(x.args[1]))
            elif contains(x, lambda z: z is canon(E.getfield(e, 2))):
                k = 'shift'
            else:
                raise Und('summand %s' % show(x))
            lab[k] = lab.get(k, 0) + c
        sgn = -1 if flip else 1
        exp = {'shift': sgn, 'tail': sgn, 'head': -sgn}
        if lab != exp:
            raise Bad('the shift of an edge of the image is built as %s, must be %s' % (lab, exp), w)
        # maps
        ini = phis(s)

        def fill(M, what, value):
            if M.op == 'munion':
                raise Und(what)
            if M.op != 'phi':
                for k, x, cc, ls in [y for y in __import__('sa.checks.c21', fromlist=['pairs_of']).pairs_of(M)]:
                    raise Und('%s in closed form' % what)
            if ini.get(M) is None or ini[M].op != 'emptymap':
                raise Und('%s starts as %s' % (what, show(ini.get(M))))
            hit = 0
            for p, key, nw in backs(s):
                ks = [x for x in nw if x.args[:3] == M.args[:3] or nw[x].op == 'minsert']
                for x in ks:
                    y = nw[x]
                    if y.op != 'minsert' or y.args[0] is not x:
                        continue
                    i0 = ini.get(x)
                    while i0 is not None and i0.op == 'phi' and i0 is not M:
                        i0 = ini.get(i0)
                    if i0 is not M:
                        continue
                    k, val = y.args[1], y.args[2]
                    if k.op != 'idx' or k.args[0].op != 'idx' or k.args[0].args[0] is not ORB:
                        raise Und('%s: key %s' % (what, show(k)))
                    i, j = k.args[0].args[1], k.args[1]
                    over_all(i, ORB, 'orbits', w)
                    over_all(j, k.args[0], 'vertices of an orbit', w)
                    if val is not canon(value(i, k)):
                        if calls_in(val) and not calls_in(val) - (VOC | {'mod1'}) and simple_form(val):
                            raise Bad('%s is %s' % (what, show(val)), w)
                        gexpect(val, value(i, k), what, w)
                    extra = [(t, z) for t, z in p.facts() if contains(t, lambda q: q is j or q is i) and t.op not in ('contains',)]
                    if extra and not any(unk(t) for t, z in extra):
                        raise Bad('%s is set only if %s = %s' % (what, show(extra[0][0]), extra[0][1]), w)
                    hit += 1
            if not hit:
                raise Und('%s: no assignment' % what)
            return hit

        def number(i, k):
            return None
        # numbering: a + index for any constant a >= 0
        vals = []

        def numval(i, k):
            return add(i, mk('int', 1))
        fill(IM, 'the number of a vertex', numval)
        fill(SH, 'the offset of a vertex', lambda i, k: mk('sub', 'm', POS(k), POS(mk('idx', k.args[0], mk('int', 0)))))
        return '1 edge form, 2 maps'
    ctx.ob('edges of the image', image)

    def basis():
        fn = ctx.fn('symmetries::extended_translation_basis')
        w = ctx.where(fn)
        s = ctx.summary(fn, **NC)
        t = canon(the_return(s).ret)
        if t.op != 'call' or t.args[0] != 'rational_lattice_basis':
            raise Und('basis %s' % show(t))
        c = t.args[1]
        if c.op != 'comp' or len(c.args[3]) != 1:
            raise Und('generators %s' % show(c))
        kind, n, bv, ((conds, x),) = c.args
        if conds:
            raise Bad('a generator is left out unless %s' % show(conds[0][0]), w) if not any(unk(q) for q, _ in conds) else Und('conditions')
        orbit = A(1)
        if contains(n, lambda z: z.op == 'call'):
            raise Und('number %s' % show(n))
        idxs = {y.args[1] for y in subterms(x) if y.op == 'idx' and y.args[0] is orbit and contains(y.args[1], lambda z: z is bv)}
        if not idxs and not contains(x, lambda z: z is bv):
            raise Bad('all generators are %s' % show(x), w)
        if len(idxs) != 1:
            raise Und('generators %s' % show(x))
        ix = idxs.pop()
        off = canon(sub_(ix, bv))
        if off.op != 'int' or off.args[0] not in (0, 1):
            raise Bad('generators start at %s' % show(ix), w) if not unk(ix) else Und('index')
        gexpect(n, sub_(mk('len', orbit), mk('int', off.args[0])), 'the number of generators', w)
        d = canon(mk('sub', 'm', POS(mk('idx', orbit, ix)), POS(mk('idx', orbit, mk('int', 0)))))
        d2 = canon(mk('sub', 'm', POS(mk('idx', orbit, mk('int', 0))), POS(mk('idx', orbit, ix))))
        if x.op == 'comp' and len(x.args[3]) == 1:
            k2, n2, b2, ((c2, y),) = x.args
            its = {z.args[0] for z in subterms(y) if z.op == 'idx' and z.args[1] is b2}
            if len(its) != 1:
                raise Und('generator entries %s' % show(y))
            it = its.pop()
            vec = it.args[1] if it.op == 'call' and it.args[0] == 'Vector::iter' else it
            if vec not in (d, d2):
                raise Bad('a generator is %s' % show(vec), w) if not unk(vec) else Und('generator')
            ent = mk('idx', it, b2)
            # modulo 1: differs from the entry by an integer
            if y not in (ent, canon(mk('rem1', ent))):
                if y.op == 'poly' and canon(sub_(y, ent)) in (canon(neg(mk('floor', ent))), canon(mk('floor', ent))):
                    if canon(sub_(y, ent)) is not canon(neg(mk('floor', ent))):
                        raise Bad('an entry becomes %s' % show(y), w)
                elif not unk(y):
                    raise Bad('an entry becomes %s' % show(y), w)
                else:
                    raise Und('entry %s' % show(y))
        else:
            raise Und('generator %s' % show(x))
        return '1 closed form'
    ctx.ob('extended translation basis', basis)

    def unit():
        fn = ctx.fn('symmetries::mod1')
        w = ctx.where(fn)
        t = the_return(ctx.summary(fn, **NC)).ret
        it = mk('call', 'Point::iter', A(0))
        b = mk('bv', 1)
        x = mk('idx', it, b)
        want = mk('collect', 'arithmetic::geometry::Point', mk('comp', 'map', mk('call', 'Point::dim', A(0)), b, (((), sub_(x, mk('floor', x))),)))
        if t.op != 'collect' or t.args[1].op != 'comp' or len(t.args[1].args[3]) != 1:
            raise Und('form %s' % show(t))
        _, n, b, ((c, y),) = t.args[1].args
        if c:
            raise Und('conditions')
        its = {z for z in subterms(y) if z.op == 'idx' and z.args[1] is b}
        if len(its) != 1:
            raise Und('entries %s' % show(y))
        x = its.pop()
        v = mk('arg', 0)
        y = canon(subst(y, {x: v}))
        for q in subterms(y):
            if q.op == 'call' and q.args in (('Ratio::round', v), ('Ratio::trunc', v), ('Ratio::ceil', v)) and canon(sub_(v, q)) is y:
                raise Bad('a coordinate x becomes %s' % show(y), w)
        x = v
        expect(y, sub_(x, mk('floor', x)), 'a coordinate reduced into the unit cell', w)
        return '1 closed form'
    ctx.ob('reduction into the unit cell', unit)

    def integer():
        fn = ctx.fn('symmetries::r_to_i32')
        w = ctx.where(fn)
        s = ctx.summary(fn, **NC)
        isint = canon(mk('call', 'Ratio::is_integer', A(0)))
        n = 0
        for p in s.returns():
            r = p.ret
            if r.op == 'agg' and r.args[1] == 0:
                if p.facts() == [(isint, 1)]:
                    raise Bad('integers are not converted', w)
                n += 1
                continue
            q = r.args[2] if r.op == 'agg' and len(r.args) > 2 else r
            ok = {canon(mk('call', 'ToPrimitive::to_i32', mk('call', 'Ratio::to_integer', A(0)))), canon(E.getfield(mk('call', 'ToPrimitive::to_i32', mk('call', 'Ratio::to_integer', A(0))), 0, 1))}
            ok |= {canon(mk('call', 'ToPrimitive::to_i32', mk('call', 'Ratio::numer', A(0))))}
            if q not in ok:
                cs = calls_in(q)
                if cs <= {'ToPrimitive::to_i32', 'Ratio::to_integer', 'Ratio::floor', 'Ratio::round', 'Ratio::trunc', 'Ratio::denom', 'Ratio::numer'}:
                    raise Bad('a number is converted to %s' % show(q), w)
                raise Und('conversion %s' % show(q))
            if not (isint, 1) in p.facts():
                if not p.facts() or all(t is isint for t, v in p.facts()):
                    raise Bad('a number is converted without being an integer', w)
                raise Und('condition')
            n += 1
        return '%d paths' % n
    ctx.ob('conversion to integers', integer)
