"""C22: orbits and translational equivalence."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: pairs united by loop transitions, ranges of the loops, closed forms of the answers'
RULE = ('Every pair united is extracted from the loop transitions: it must be an element and its image under the same symmetry (for edges in canonical '
        'orientation), the loops must range over all symmetries and all elements, no way around may leave a pair out unless it is already '
        'united, and the answer must be the classes of all elements. Ladder and minimality answers are compared with their definitions.')
PROP = {
    'title': 'Orbits are the classes under all symmetries and translations found',
    'statement': 'Every vertex (edge) is in one orbit with its image under each symmetry of the net, and the orbits list all vertices (edges). For '
                 'translational equivalence the first vertex is tried against every vertex not yet equivalent to it, and all vertices are united with their '
                 'images. A net is a ladder exactly when it is unstable and another vertex of the first class has the position of its first vertex modulo '
                 'integers, and minimal exactly when the first translational orbit is a single vertex.',
    'quantifier': {'over': ['inputs'], 'text': 'all connected locally stable periodic graphs'},
    'why_tests_cant': 'Tests use a few nets in which nearly all vertices are equivalent.',
    'anchors': {'files': ['src/pgraphs.rs', 'src/symmetries.rs'],
                'mechanism': 'vertex and edge orbits; translational equivalences; ladder and minimality tests'},
}
SYM = gc('Graph::symmetries', G)
ES = A(0, 0)
IDM = mk('call', 'AffineMap::identity', mk('call', 'LabelVector::dim'))


def AUTO(a, b, m=IDM):
    return mk('call', 'automorphism', G, a, b, m)


def mod1(p):
    return mk('call', 'mod1', p)


def P(v):
    return gc('Graph::position', G, v)


def classes_of(t, want, what, w):
    if t.op != 'call' or t.args[0] != 'Partition::classes':
        raise Und('answer %s' % show(t))
    gexpect(t.args[2], want, what, w)
    return t.args[1]


def pair(a, b, coll, what, w):
    """(element index, image term): one of the pair is an element of the collection"""
    for x, y in ((a, b), (b, a)):
        if x.op == 'idx' and x.args[0] is canon(coll):
            return x.args[1], x, y
    for x, y in ((a, b), (b, a)):
        if x.op == 'idx' and x.args[0].op == 'idx' and x.args[0].args[0].op == 'call' and x.args[0].args[0].args[0] == 'Partition::classes' and y.op == 'mget' and y.args[1] is x:
            raise Bad('only the elements of one class are united with their images', w)
    raise Und('united: %s and %s' % (show(a), show(b)))


def run(ctx):
    CTX[0] = ctx

    def orbits(name, coll, field, canonical, what):
        def ob():
            f = ctx.fn(name, public=True)
            w = ctx.where(f)
            s = ctx.summary(f, **NC)
            us = unions(s)
            r = [p.ret for p in s.returns()]
            if not us:
                if all(t.op == 'call' and t.args[0] == 'Partition::classes' for t in r):
                    raise Bad('no two %s are ever united' % what, w)
                raise Und('no unions')
            parts_ = {classes_of(t, coll, 'the %s put into classes' % what, w) for t in r}
            for p, key, m, a, b in us:
                i, x, y = pair(a, b, coll, what, w)
                over_all(i, coll, what, w)
                img = y
                if canonical:
                    if y.op == 'call' and y.args[0] == 'Edge::canonical':
                        img = y.args[1]
                    elif opaque_in(y, ('Graph::symmetries',)) is None:
                        raise Bad('an edge is united with %s, which need not be in canonical orientation' % show(y), w)
                if img.op != 'mget':
                    raise Und('image %s' % show(img))
                mp, k = img.args
                if k is not x:
                    expect(k, x, 'the element whose image is taken', w)
                sy = [z for z in subterms(mp) if z.op == 'idx' and z.args[0] is SYM]
                if len(set(sy)) != 1:
                    raise Und('map %s' % show(mp))
                over_all(sy[0].args[1], SYM, 'symmetries', w)
                if mp is not E.getfield(sy[0], field):
                    raise Bad('the image is taken by %s' % show(mp), w)
            skipped(s, us, w, 'an element and its image are')
            return '%d united pairs' % len(us)
        return ob
    ctx.ob('vertex orbits', orbits('pgraphs::Graph::vertex_orbits', V(), 0, False, 'vertices'))
    ctx.ob('edge orbits', orbits('pgraphs::Graph::edge_orbits', ES, 1, True, 'edges'))

    def torb():
        f = ctx.fn('symmetries::translational_orbits', public=True)
        w = ctx.where(f)
        n = 0
        for p in ctx.summary(f, **NC).returns():
            t = classes_of(p.ret, V(), 'the vertices put into classes', w)
            gexpect(t, mk('call', 'translational_equivalences', G), 'the equivalence', w, calls=('raw_translational_equivalences',))
            n += 1
        return '%d returns' % n
    ctx.ob('translational orbits', torb)

    def all_images(s, us, w, seed):
        n = 0
        for p, key, m, a, b in us:
            i, x, y = pair(a, b, V(), 'vertices', w)
            over_all(i, V(), 'vertices', w)
            if y.op != 'mget':
                raise Und('image %s' % show(y))
            if y.args[1] is not x:
                expect(y.args[1], x, 'the vertex whose image is taken', w)
            mp = y.args[0]
            au = [z for z in subterms(mp) if z.op == 'call' and z.args[0] == 'automorphism']
            if len(set(au)) != 1:
                raise Und('map %s' % show(mp))
            seed(p, au[0])
            n += 1
        return n

    def raw():
        f = ctx.fn('symmetries::raw_translational_equivalences')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        us = unions(s)
        if not us:
            raise Und('no unions')
        v0 = canon(E.getidx(V(), INT(0)))

        def seed(p, au):
            if au.args[1] is not G:
                raise Und('automorphism of %s' % show(au.args[1]))
            gexpect(au.args[4], IDM, 'the linear part of a translation', w)
            ends = [au.args[2], au.args[3]]
            o = [e for e in ends if e is not v0]
            if len(o) != 1:
                raise Und('automorphism %s' % show(au))
            i = index_of(o[0], V())
            ixs = [z for z in subterms(i) if z.op == 'ix']
            if len(ixs) == 1 and canon(sub_(i, ixs[0])) is INT(1) and canon(ixs[0].args[1]) is canon(sub_(t_len(V()), INT(1))):
                return                          # all but the first vertex itself
            over_all(i, V(), 'vertices', w)
        n = all_images(s, us, w, seed)
        # vertices that are not tried
        ms = {m for p, k, m, a, b in us}
        outer = {k for p, k, new in backs(s)} - {k for p, k, m, a, b in us}
        for p, key, new in backs(s):
            if key not in outer:
                continue
            fs = own_facts(p, key)
            if any(t.op == 'discr' for t, v in fs):
                continue
            if any(x is not m for m, x in new.items()):
                continue
            good = False
            for t, v in fs:
                if v == 1 and t.op == 'eq' and all(z.op == 'call' and z.args[0] == 'Partition::find' for z in t.args[-2:]):
                    el = {z.args[2] for z in t.args[-2:]}
                    if v0 in el and len(el) == 2:
                        good = True
                    elif len(el) == 2:
                        raise Bad('a vertex is skipped when %s' % show(t), w)
                if v == 1 and t.op == 'eq' and v0 in t.args[-2:]:
                    good = True
                if t.op in ('eq', 'lt') and any(z is canon(mk('ix', *next(y for y in subterms(t) if y.op == 'ix').args)) for z in t.args) and INT(0) in t.args and v == 1:
                    good = True
            if not good:
                if fs and any(contains(t, lambda z: z.op == 'call' and z.args[0] == 'Partition::find') or 1 for t, v in fs) and all(opaque_in(t, tuple(calls_in(t))) is None or contains(t, lambda z: z.op == 'phi') for t, v in fs):
                    raise Bad('a vertex is not tried when %s' % '; '.join('%s = %s' % (show(t), v) for t, v in fs), w)
                raise Und('a vertex is not tried')
        for p in s.returns():
            if p.ret.op != 'phi':
                raise Und('answer %s' % show(p.ret))
        skipped(s, us, w, 'a vertex and its image are')
        return '%d united pairs' % n
    ctx.ob('translational equivalences from the first vertex', raw)

    def trans():
        f = ctx.fn('symmetries::translational_equivalences')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        us = unions(s)
        R = mk('call', 'raw_translational_equivalences', G)
        orbit = canon(E.getidx(mk('call', 'Partition::classes', R, V()), INT(0)))
        o0 = canon(E.getidx(orbit, INT(0)))
        B = mk('call', 'extended_translation_basis', G, orbit)
        n = 0
        for p in s.returns():
            amb = [(t, v) for t, v in p.facts() if contains(t, lambda z: z.op == 'call' and z.args[0] == 'mod1')]
            if p.ret is R:
                if any(v == 1 and t.op == 'eq' for t, v in amb):
                    raise Bad('the equivalences of a ladder are taken as they are', w)
                n += 1
            elif p.ret.op == 'phi':
                pass
            else:
                raise Und('answer %s' % show(p.ret))

        def seed(p, au):
            gexpect(au.args[4], IDM, 'the linear part of a translation', w)
            gexpect(au.args[2], o0, 'the vertex a translation starts from', w)
            img = au.args[3]
            i = index_of(img, orbit)
            bs = {z for t, v in p.facts() for z in subterms(t) if z.op == 'idx' and z.args[0] is B}
            if len(bs) != 1:
                raise Und('basis vector')
            b = bs.pop()
            over_all(b.args[1], B, 'basis vectors', w)
        if us:
            n += all_images(s, us, w, seed)
            skipped(s, us, w, 'a vertex and its image are')
        else:
            raise Und('no unions')
        return '%d cases' % n
    ctx.ob('translational equivalences of ladders', trans)

    def minimal():
        f = ctx.fn('symmetries::is_minimal', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        n0 = t_len(E.getidx(mk('call', 'translational_orbits', G), INT(0)))
        for p in s.returns():
            t = p.ret
            if t.op == 'int':
                raise Und('several cases')
            if t is canon(mk('not', mk('lt', INT(0), sub_(n0, INT(1))))):
                continue                        # classes are not empty
            gexpect(t, canon(eqi(n0, INT(1))), 'the answer', w, calls=('raw_translational_orbits', 'raw_translational_equivalences'))
        return 'first orbit has one element'
    ctx.ob('minimal nets', minimal)

    def ladder():
        f = ctx.fn('symmetries::is_ladder', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        st = gc('Graph::is_stable', G)
        orbit = canon(E.getidx(mk('call', 'raw_translational_orbits', G), INT(0)))
        o0 = canon(E.getidx(orbit, INT(0)))
        n = 0
        hits = 0
        for p in s.returns():
            stable = [v for t, v in p.facts() if t is canon(st)]
            cmp_ = [(t, v) for t, v in p.facts() if t.op == 'eq' and contains(t, lambda z: z.op == 'call' and z.args[0] == 'Graph::position')]
            if stable and stable[0] == 1:
                expect(p.ret, INT(0), 'the answer for a stable net', w)
            elif any(v == 1 for t, v in cmp_):
                t = [t for t, v in cmp_ if v == 1][0]
                x, y = t.args[-2:]
                if not (x.op == y.op == 'call' and x.args[0] == y.args[0] == 'mod1'):
                    if all(z.op == 'call' and z.args[0] == 'Graph::position' for z in (x, y)):
                        raise Bad('positions are compared without reducing them modulo integers', w)
                    raise Und('comparison %s' % show(t))
                px = {x.args[1], y.args[1]}
                if P(o0) not in px:
                    raise Und('comparison %s' % show(t))
                px.discard(P(o0))
                if not px:
                    raise Bad('a vertex is compared with itself', w)
                q = px.pop()
                i = index_of(q, orbit)
                ixs = [z for z in subterms(i) if z.op == 'ix']
                if len(ixs) != 1:
                    raise Und('index %s' % show(i))
                gexpect(i, mk('add', 'i', ixs[0], INT(1)), 'the other vertices compared', w)
                gexpect(ixs[0].args[1], mk('sub', 'i', t_len(orbit), INT(1)), 'the number of other vertices', w)
                expect(p.ret, INT(1), 'the answer when another vertex has the same position', w)
                hits += 1
            elif p.ret.op == 'int' and stable:
                expect(p.ret, INT(0), 'the answer when no other vertex has the same position', w)
            else:
                raise Und('answer %s' % show(p.ret))
            n += 1
        if not hits:
            raise Und('no positive answer')
        return '%d returns' % n
    ctx.ob('ladders', ladder)

    def lsym():
        f = ctx.fn('symmetries::ladder_symmetries', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        p = the_return(s)
        t = p.ret
        orbit = canon(E.getidx(mk('call', 'raw_translational_orbits', G), INT(0)))
        o0 = canon(E.getidx(orbit, INT(0)))
        if t.op != 'comp':
            raise Und('answer %s' % show(t))
        gexpect(t.args[1], mk('sub', 'i', t_len(orbit), INT(1)), 'the number of vertices tried', w)
        for c, v in t.args[3]:
            au = [z for z in subterms(v) if z.op == 'call' and z.args[0] == 'automorphism']
            if len(set(au)) != 1:
                raise Und('entry %s' % show(v))
            au = au[0]
            gexpect(au.args[2], o0, 'the vertex a translation starts from', w)
            gexpect(au.args[4], IDM, 'the linear part of a translation', w)
            conds = [(x, y) for x, y in c if contains(x, lambda z: z.op == 'call' and z.args[0] == 'Graph::position') and x.op != 'discr']
            if not conds:
                raise Bad('vertices at other positions are not left out', w)
            for x, y in conds:
                if x.op == 'eq' and {z for z in x.args[-2:]} == {mod1(P(o0)), mod1(P(au.args[3]))}:
                    if y != 1:
                        raise Bad('only vertices at other positions are taken', w)
                else:
                    raise Und('condition %s' % show(x))
        return show(t)
    ctx.ob('ladder symmetries', lsym)


def eqi(a, b):
    from ..poly import canon as cn
    return cn(mk('eq', a, b))
