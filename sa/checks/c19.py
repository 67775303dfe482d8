"""C19: component traversal, shift normalisation, connectedness."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: loop transitions of the worklist traversal, sets and bases built by loops, case analysis of the answers'
RULE = ('In every way around the traversal loop a vertex first met gets the potential of the vertex it is met from plus the edge shift and is queued; an edge '
        'is emitted with head potential plus shift minus tail potential unless this edge was emitted before. The vertex set, basis and '
        'pivot product of a component, the components covered by normalisation and the cases of connectedness are extracted and compared.')
PROP = {
    'title': 'Components, shift normalisation and connectedness are exact',
    'statement': 'Normalising shifts turns every edge of every component into one with shift s(head) + shift - s(tail) for potentials s that are '
                 'zero at the start vertex and add up edge shifts. A component has as size the number of its vertices, as rank that of its '
                 'normalised shifts, and as multiplicity the absolute product of their pivots, or none below full rank. A net is connected exactly when it is empty or one '
                 'component has all vertices and multiplicity one.',
    'quantifier': {'over': ['inputs'], 'text': 'all periodic graphs, connected or not'},
    'why_tests_cant': 'Tests use small nets with one or two components and short spanning trees.',
    'anchors': {'files': ['src/pgraphs.rs'],
                'mechanism': 'component traversal with shift adjustments; shift normalisation; component measures; connectedness test'},
}
ZERO = mk('call', 'LabelVector::zero')
TRAV = 'traverse_with_shift_adjustments'
CAN = 'Edge::canonical'
SAFE = ('Graph::incidences', CAN, 'Edge::new', 'LabelVector::zero', 'Graph::vertices')


def edge(t):
    """(head, tail, shift)"""
    if t.op == 'call' and t.args[0] == 'Edge::new' and len(t.args) == 4:
        return list(t.args[1:])
    if t.op == 'agg' and t.args[0] == 'Edge' and len(t.args) >= 5:
        return list(t.args[2:5])
    if t.op == 'with' or t.op == 'fld' or t.op == 'idx' or t.op == 'call':
        return [canon(E.getfield(t, i)) for i in range(3)]
    raise Und('edge %s' % show(t))


def chain(t, base, op, n):
    """elements added to base by op(…)"""
    out = []
    while t.op == op and t is not base:
        out.append(tuple(t.args[1:1 + n]))
        t = t.args[0]
    return out[::-1] if t is base else None


def run(ctx):
    CTX[0] = ctx

    def traverse():
        f = ctx.fn('pgraphs::' + TRAV)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        ini = phis(s)
        n = 0
        # the map of potentials and the inner loop
        cand = set()
        for p, key, new in backs(s):
            for m, x in new.items():
                if x.op == 'minsert' and x.args[0] is m:
                    cand.add((key, m))
        if len(cand) != 1:
            raise Und('potentials')
        key, M = cand.pop()
        ways = [(p, new) for p, k, new in backs(s) if k == key]
        ins = [(p, new) for p, new in ways if new[M] is not M]
        ks = {new[M].args[1] for p, new in ins}
        if len(ks) != 1:
            raise Und('several vertices get potentials')
        K = ks.pop()                     # vertex getting a potential
        es = [x for x in subterms(K) if x.op == 'call' and x.args[0] == 'Graph::incidences']
        if len(set(es)) != 1:
            raise Und('vertex %s' % show(K))
        inc = es[0]
        gexpect(inc.args[1], G, 'the graph', w)
        v = inc.args[2]
        if v.op not in ('popped', 'poppedback'):
            raise Und('vertex %s' % show(v))
        j = index_of(K, inc)
        over_all(j, inc, 'incidences', w)
        e = canon(E.getidx(inc, j))
        ce = mk('call', CAN, e)
        m = {canon(E.getfield(e, 0)): v}
        N = lambda t: canon(resimp(subst(canon(t), m)))
        expect(K, E.getfield(e, 1), 'the vertex given a potential', w, calls=SAFE)
        Q = [x for x in ini if x in subterms(v)]
        # start
        m0 = M
        while m0.op == 'phi':
            m0 = ini.get(m0, m0.args[3])
        st = None
        if m0.op == 'agg' and m0.args[0] == 'maplit' and len(m0.args) == 3:
            st = list(m0.args[2].args[2:])
        elif m0.op == 'minsert' and m0.args[0].op == 'emptymap':
            st = list(m0.args[1:3])
        if st is None:
            raise Und('potentials start as %s' % show(m0))
        expect(st[0], A(1), 'the start vertex', w)
        expect(st[1], ZERO, 'the potential of the start vertex', w, calls=SAFE)
        # transitions
        seen_keys = set()
        qphi = {x for x in ways[0][1] if x is not M and any(y.op == 'push' and y.args[0] is x and canon(y.args[1]) is K for _, new in ways for y in [new[x]])}
        for p, new in ways:
            M1 = new[M]
            known = [val for t, val in p.facts() if t.op == 'contains' and t.args[0] is M and t.args[1] is K]
            if M1 is not M:
                if M1.op != 'minsert' or M1.args[0] is not M:
                    raise Und('potentials %s' % show(M1))
                if known != [0]:
                    if not known and not any(t.op == 'discr' for t, val in p.facts()):
                        raise Bad('a vertex gets a new potential whether it has one or not', w)
                    raise Bad('a vertex that has a potential gets another', w) if known == [1] else Und('when a potential is given')
                got, want = N(M1.args[2]), N(mk('add', 'i', mk('mget', M, v), E.getfield(e, 2)))
                if got is not want:
                    if opaque_in(got, SAFE + (TRAV,)) is None or not (calls_in(got) - set(SAFE)):
                        raise Bad('the potential of a new vertex is %s' % show(M1.args[2]), w)
                    raise Und('potential %s' % show(got))
                if qphi and not any(new[x].op == 'push' for x in qphi):
                    raise Bad('a vertex first met is not queued', w)
                if not qphi:
                    if all(x.op in ('phi', 'push', 'sinsert', 'minsert') for x in new.values()):
                        raise Bad('vertices first met are not queued', w)
                    raise Und('queue')
            else:
                if known != [1]:
                    if [t for t, val in p.facts() if contains(t, lambda z: z is e)] and not known == [0] or known == [0]:
                        raise Bad('a vertex without potential is passed over', w)
                    raise Und('a vertex is passed over')
            n += 1
        # emitted edges
        outs = {x for p, new in ways for x in new if x not in qphi and new[x].op == 'push' and new[x].args[0] is x}
        if len(outs) != 1:
            raise Und('emitted edges')
        R = outs.pop()
        for p, new in ways:
            M1 = new[M]
            if new[R] is R:
                hit = [t for t, val in p.facts() if t.op == 'contains' and val == 1 and t.args[0] is not M and contains(t.args[1], lambda z: z is e)]
                if not hit:
                    fs = [(t, val) for t, val in p.facts() if contains(t, lambda z: z is e) and not (t.op == 'contains')]
                    fs = [x for x in fs if not (contains(x[0], lambda z: z.op == 'call' and z.args[0] not in SAFE))]
                    if fs:
                        raise Bad('an edge is left out when %s = %s' % (show(fs[-1][0]), fs[-1][1]), w)
                    raise Und('an edge is left out')
                for t in hit:
                    k = t.args[1]
                    if k not in (e, ce, canon(neg(e))):
                        k0 = canon(subst(k, {canon(E.getfield(X, i)): INT(i) for X in (e, ce) for i in (0, 1)}))
                        if not contains(k0, lambda z: z is e):
                            raise Bad('an edge is left out when another with the same %s was emitted' % show(k), w)
                        raise Und('edge key %s' % show(k))
                    S = t.args[0]
                    for p2, new2 in ways:
                        y = new2.get(S)
                        if y is None or y is S:
                            continue
                        got = chain(y, S, 'sinsert', 1)
                        if got is None or any(g[0] not in (e, ce, canon(neg(e))) for g in got):
                            raise Und('edges remembered: %s' % show(y))
                        if new2[R] is R and any(g[0] is not k for g in got):
                            raise Bad('an edge is remembered but not emitted', w)
                n += 1
                continue
            y = canon(new[R].args[1])
            h, t, sh = edge(y)
            for X in (ce, e):
                x = [canon(E.getfield(X, i)) for i in range(3)]
                if N(h) is N(x[0]) and N(t) is N(x[1]):
                    break
            else:
                if not (calls_in(h) | calls_in(t)) - set(SAFE):
                    raise Bad('an edge from %s to %s is emitted' % (show(h), show(t)), w)
                raise Und('edge %s' % show(y))
            forms = []
            for MM in {M, M1}:
                pass
            want = N(mk('sub', 'i', mk('add', 'i', mk('mget', M1, x[0]), x[2]), mk('mget', M1, x[1])))
            if N(sh) is not want:
                # reading the entry just inserted, or one that was there before
                def rd(t):
                    if M1 is M:
                        return t
                    mm = {mk('mget', M1, K): M1.args[2]}
                    mm.update({mk('mget', M1, v): mk('mget', M, v)})
                    return N(canon(resimp(subst(t, {canon(a): canon(b) for a, b in mm.items()}))))
                if rd(N(sh)) is not rd(want):
                    if not calls_in(sh) - set(SAFE):
                        raise Bad('the shift of an edge becomes %s' % show(sh), w)
                    raise Und('shift %s' % show(sh))
            n += 1
        for p in s.returns():
            r = p.ret
            if not any(val == 1 and t.op == 'eq' and INT(0) in t.args and contains(t, lambda z: z.op == 'len') for t, val in p.facts()):
                if p.facts() and not any(t.op == 'discr' for t, val in p.facts()):
                    raise Bad('the traversal ends before the queue is empty', w)
                raise Und('end of the traversal')
            if r.op != 'phi':
                raise Und('result %s' % show(r))
        return '%d obligations' % n
    ctx.ob('traversal of a component', traverse)

    def added(s, want_coll, what, w):
        """the set that collects heads and tails: (phi, elements per edge)"""
        out = {}
        for p, key, new in backs(s):
            for m, x in new.items():
                got = chain(x, m, 'sinsert', 1)
                if got:
                    out.setdefault((key, m), []).append((p, [g[0] for g in got]))
        return out

    def covers(got, coll, w, what):
        """both ends of every edge of coll"""
        for p, els in got:
            els = set(els)
            if not els:
                continue
            i = index_of(mk('agg', 'tuple', None, *els), coll)
            over_all(i, coll, 'edges of the component', w)
            x = E.getidx(coll, i)
            ends = {canon(E.getfield(x, 0)), canon(E.getfield(x, 1))}
            if not ends <= els:
                if els <= ends:
                    raise Bad('only the %s of an edge is %s' % ('head' if canon(E.getfield(x, 0)) in els else 'tail', what), w)
                raise Und('elements %s' % '; '.join(show(z) for z in els))
            if els - ends:
                raise Und('elements %s' % '; '.join(show(z) for z in els))

    def normalized():
        f = ctx.fn('pgraphs::Graph::shift_normalized', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        p = the_return(s)
        t = p.ret
        if t.op != 'call' or t.args[0] != 'Graph::new':
            if t is G or t.op == 'call' and TRAV in t.args[0]:
                raise Bad('returns %s' % show(t), w)
            raise Und('returns %s' % show(t))
        c = t.args[1]
        trs = {x for x in subterms(c) if x.op == 'call' and x.args[0] == TRAV}
        if len(trs) != 1:
            raise Und('edges %s' % show(c))
        tr = trs.pop()
        gexpect(tr.args[1], G, 'the graph', w)
        root = tr.args[2]
        VG = canon(V())
        if not contains(root, lambda z: z is VG):
            raise Und('start vertex %s' % show(root))
        if root.op == 'idx' and root.args[1].op == 'int' and not phis(s):
            raise Bad('only the component of one vertex is normalised', w)
        if c.op != 'comp':
            raise Und('edges %s' % show(c))
        gexpect(c.args[1], t_len(VG), 'the number of start vertices tried', w)
        bv = c.args[2]
        if root is not canon(E.getidx(VG, bv)):
            raise Und('start vertex %s' % show(root))
        S = None
        for conds, val in c.args[3]:
            if not conds:
                raise Bad('a component is traversed from each of its vertices', w)
            for x, y in conds:
                if x.op == 'contains' and x.args[1] is root and y == 0:
                    S = x.args[0]
                elif x.op == 'contains':
                    raise Und('condition %s' % show(x))
                elif not calls_in(x) - set(SAFE):
                    raise Bad('a component is left out unless %s = %s' % (show(x), y), w)
                else:
                    raise Und('condition %s' % show(x))
            if val.op == 'comp':
                gexpect(val.args[1], t_len(tr), 'the number of edges taken', w, calls=(TRAV,))
                for cc, vv in val.args[3]:
                    if vv is not canon(E.getidx(tr, val.args[2])):
                        raise Und('edge %s' % show(vv))
                    if cc:
                        if all(not calls_in(x) - set(SAFE) - {TRAV} and x.op != 'contains' for x, y in cc):
                            raise Bad('an edge is left out when %s' % show(cc[0][0]), w)
                        raise Und('condition %s' % show(cc[0][0]))
            else:
                raise Und('edges %s' % show(val))
        if S is None:
            raise Und('no set of vertices seen')
        got = added(s, None, '', w)
        trs = {x for p, k, new in backs(s) for y in new.values() for x in subterms(y) if x.op == 'call' and x.args[0] == TRAV and not any(z.op == 'bv' for z in subterms(x))}
        if len(trs) != 1:
            raise Und('traversals')
        tr = trs.pop()
        n = 0
        for (key, m), g in got.items():
            if any(contains(z, lambda q: q is tr) for p, els in g for z in els):
                covers(g, tr, w, 'remembered')
                n += 1
        if not n:
            raise Und('vertices seen')
        return show(c)
    ctx.ob('shift normalisation covers every component once', normalized)

    def measures():
        f = ctx.fn('pgraphs::graph_component_measures', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        tr = mk('call', TRAV, G, A(1))
        n = 0
        got = added(s, tr, '', w)
        sets = {}
        for (key, m), g in got.items():
            covers(g, tr, w, 'counted')
            sets[m] = 1
        bases = {}
        for p, key, new in backs(s):
            for m, x in new.items():
                if x.op == 'upd' and x.args[0] == 'extend_basis':
                    vec, b0 = x.args[2], x.args[3]
                    if b0 is not m:
                        raise Und('basis %s' % show(x))
                    i = index_of(vec, tr)
                    over_all(i, tr, 'edges of the component', w)
                    gexpect(vec, mk('call', 'LabelVector::to_vec', E.getfield(E.getidx(tr, i), 2)), 'the vector added to the basis', w)
                    bases[m] = key
        for p, key, new in backs(s):
            for m in new:
                if bases.get(m) == key and new[m] is m:
                    fs = [(t, v) for t, v in own_facts(p, key) if t.op != 'discr' and not (t.op == 'call' and t.args[0] == 'LabelVector::is_zero' and v == 1)]
                    if fs:
                        raise Bad('a shift is not added to the basis when %s = %s' % (show(fs[-1][0]), fs[-1][1]), w)
        if len(bases) != 1:
            raise Und('%d bases' % len(bases))
        B = first(bases)
        r, d = t_len(B), mk('call', 'LabelVector::dim')
        full = canon(mk('eq', r, d))
        for p in s.returns():
            t = p.ret
            if t.op != 'agg' or len(t.args) != 5:
                raise Und('result %s' % show(t))
            size, rank, mult = t.args[2:]
            if size.op == 'len' and size.args[0] in sets:
                pass
            else:
                ll = [x for x in subterms(size) if x.op == 'len']
                if not calls_in(size) - {TRAV} and not contains(size, lambda z: z.op == 'phi' and z not in sets and z not in bases) and not (size.op == 'len' and contains(size, lambda z: z.op in ('comp', 'collect', 'scollect', 'sunion'))):
                    raise Bad('the size is %s' % show(size), w)
                raise Und('size %s' % show(size))
            if canon(rank) is not canon(r):
                if not calls_in(rank) - {TRAV, 'LabelVector::dim'}:
                    raise Bad('the rank is %s' % show(rank), w)
                raise Und('rank %s' % show(rank))
            isf = [v for x, v in p.facts() if x is full]
            if not isf:
                fs = [x for x, v in p.facts()]
                if mult.op == 'agg' and not fs:
                    raise Bad('the multiplicity does not depend on the rank', w)
                if fs and all(contains(x, lambda z: z is canon(r)) for x in fs) and not any(calls_in(x) - {'LabelVector::dim', TRAV} for x in fs):
                    dd = canon(d)
                    # decide the facts for all small ranks and dimensions
                    for rv in range(4):
                        for dv in (2, 3):
                            if rv > dv:
                                continue
                            h = [canon(resimp(subst(x, {canon(r): INT(rv), dd: INT(dv)}))) for x in fs]
                            if all(y.op == 'int' and y is INT(v) for y, (x, v) in zip(h, p.facts())):
                                if (mult.op == 'agg' and mult.args[1] == 1) != (rv == dv):
                                    raise Bad('rank %d of %d: multiplicity %s' % (rv, dv, show(mult)), w)
                    n += 1
                    if mult.args[1] == 0:
                        continue
                else:
                    raise Und('multiplicity %s' % show(mult))
            if isf == [0]:
                if not (mult.op == 'agg' and mult.args[1] == 0):
                    raise Bad('below full rank the multiplicity is %s' % show(mult), w)
            else:
                if not (mult.op == 'agg' and mult.args[1] == 1):
                    raise Bad('at full rank the multiplicity is %s' % show(mult), w) if mult.op == 'agg' else Und('multiplicity %s' % show(mult))
                x = mult.args[2]
                b = mk('bv', 991)
                want = mk('abs', mk('product', mk('comp', 'map', t_len(B), b, (((), E.getidx(E.getidx(B, b), b)),))))
                if canon(x) is canon(want):
                    pass
                else:
                    y = x
                    if y.op == 'product' and y.args[-1].op == 'comp' and all(v.op == 'abs' for c, v in y.args[-1].args[3]):
                        y = mk('abs', y)
                    if y.op == 'product':
                        raise Bad('the multiplicity can be negative: %s' % show(x), w)
                    if y.op == 'abs' and y.args[-1].op == 'product' and y.args[-1].args[-1].op == 'comp':
                        c = y.args[-1].args[-1]
                        gexpect(c.args[1], t_len(B), 'the number of factors of the multiplicity', w, known=[c.args[1]]) if not contains(c.args[1], lambda z: z is B) else None
                        if canon(c.args[1]) is not canon(t_len(B)) and canon(c.args[1]) is not canon(d):
                            raise Bad('the number of factors of the multiplicity is %s' % show(c.args[1]), w)
                        (cc, vv), = c.args[3] if len(c.args[3]) == 1 else (((), None),)
                        if vv is not None and not cc and vv not in (canon(E.getidx(E.getidx(B, c.args[2]), c.args[2])), canon(mk('abs', E.getidx(E.getidx(B, c.args[2]), c.args[2])))):
                            if not calls_in(vv):
                                raise Bad('a factor of the multiplicity is %s' % show(vv), w)
                            raise Und('factor %s' % show(vv))
                    elif y.op == 'abs' and not calls_in(y) - {TRAV} and not contains(y, lambda z: z.op in ('phi',) and z is not B or z.op in ('comp', 'product', 'fold')):
                        raise Bad('the multiplicity is %s' % show(x), w)
                    elif y.op == 'abs' and y.args[-1].op == 'phi':
                        acc = y.args[-1]
                        gexpect(phis(s)[acc], INT(1), 'what the multiplicity starts from', w)
                        m = 0
                        for q, key, new in backs(s):
                            if acc not in new:
                                continue
                            ii = [z.args[1] for z in subterms(new[acc]) if z.op == 'idx' and z.args[0].op == 'idx' and z.args[0].args[0] is B]
                            if len(set(ii)) != 1 or own_facts(q, key):
                                raise Und('step %s' % show(new[acc]))
                            piv = canon(E.getidx(E.getidx(B, ii[0]), ii[0]))
                            u, v = mk('idx', A(7), INT(0)), mk('idx', A(7), INT(1))
                            gexpect(mk('abs', subst(new[acc], {acc: u, piv: v})), mk('abs', mk('mul', 'i', u, v)), 'the product of the pivots after one more', w)
                            m += 1
                        raise Und('multiplicity %s' % show(x))
                    else:
                        raise Und('multiplicity %s' % show(x))
            n += 1
        return '%d results' % n
    ctx.ob('size, rank and multiplicity of a component', measures)

    def connected():
        f = ctx.fn('pgraphs::Graph::is_connected', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        VG = canon(V())
        gm = {x for p in s.returns() for t in [p.ret] + [t for t, v in p.facts()] for x in subterms(t) if x.op == 'call' and x.args[0] == 'graph_component_measures'}
        if len(gm) != 1:
            raise Und('component measures')
        gm = gm.pop()
        gexpect(gm.args[1], G, 'the graph', w)
        if not contains(gm.args[2], lambda z: z is VG):
            raise Und('start vertex %s' % show(gm.args[2]))
        n0 = canon(t_len(VG))
        n = 0
        none, some = mk('agg', 'Option', 0), lambda k: mk('agg', 'Option', 1, INT(k))
        for nv, size, mu, want in [(0, 0, none, 1)] + [(nv, sz, m, int(sz == nv and m is some(1))) for nv in (1, 2, 3) for sz in (1, 2, 3) if sz <= nv
                                                       for m in (none, some(1), some(2), some(3), some(0))]:
            tup = mk('agg', 'tuple', None, INT(size), INT(2 if mu is not none else 1), mu)
            ok = 0
            for p in s.returns():
                def inst(t):
                    t = canon(resimp(subst(t, {gm: tup})))
                    t = canon(resimp(subst(t, {n0: INT(nv), mk('call', 'LabelVector::dim'): INT(2)})))
                    m = {}
                    for x in subterms(t):
                        if x.op == 'eq' and all(y.op == 'agg' and all(z.op == 'int' for z in y.args[2:]) for y in x.args[-2:]):
                            a, b = x.args[-2:]
                            m[x] = INT(int(a.args[1:] == b.args[1:]))
                        elif x.op == 'discr' and x.args[-1].op == 'agg':
                            m[x] = INT(x.args[-1].args[1])
                    return canon(resimp(subst(t, m))) if m else t
                vals = [(inst(t), v) for t, v in p.facts()]
                if any(a.op == 'int' and a is not INT(v) for a, v in vals):
                    continue
                if any(a.op != 'int' for a, v in vals):
                    raise Und('condition %s' % show([a for a, v in vals if a.op != 'int'][0]))
                r = inst(p.ret)
                if r.op != 'int':
                    raise Und('answer %s' % show(r))
                ok += 1
                if r is not INT(want):
                    raise Bad('answers %s for %d vertices, a component with %d of them and multiplicity %s' % (show(r), nv, size, show(mu)), w)
            n += ok
        return '%d cases' % n
    ctx.ob('connectedness', connected)
