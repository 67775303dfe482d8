"""C16: normal form of graphs."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: decision tables over end orders and shift signs, closed forms and loop transitions'
RULE = ('Edge reversal is compared field by field with its definition; edge orientation is decided for every case of end order and shift sign '
        '(exhaustive). The edge list, vertex list, incidence table and directed edge list are put in closed form or reduced to the '
        'transitions of their loops and compared with their definitions.')
PROP = {
    'title': 'Graphs store each edge once, canonically oriented and indexed both ways',
    'statement': 'Reversing an edge swaps its ends and negates its shift. The canonical orientation has the smaller end first, and a '
                 'non-negative shift on loops; a graph keeps the distinct canonical edges of its input in sorted order. Its vertices are '
                 'all ends of edges, and the incidence list of a vertex has, for each stored edge, every one of its two directions that starts there.',
    'quantifier': {'over': ['inputs'], 'text': 'all edge lists'},
    'why_tests_cant': 'Tests build a few fixed graphs; loops, multiple edges and end orders combine freely.',
    'anchors': {'files': ['src/pgraphs.rs'], 'mechanism': 'edge reversal and canonical orientation; graph construction; vertex, incidence and directed edge queries'},
}
HEAD, TAIL, SHIFT = 0, 1, 2


def parts_of(t, what):
    if t.op == 'agg' and t.args[0] != 'array':
        return list(t.args[2:5])
    if t.op == 'call' and t.args[0] == 'Edge::new':
        return list(t.args[1:4])
    p = to_poly(t)
    if len(p) == 1:
        (m, k), = p.items()
        if len(m) == 1 and m[0][1] == 1 and k == -1:
            e = m[0][0]
            return [E.getfield(e, TAIL), E.getfield(e, HEAD), canon(neg(E.getfield(e, SHIFT)))]
    if t.op in ('arg', 'idx', 'fld', 'call', 'bv'):
        return [E.getfield(t, i) for i in range(3)]
    raise Und('%s: %s' % (what, show(t)))


def run(ctx):
    CTX[0] = ctx
    inf = dict(inline_if=lambda g: g.file.endswith('pgraphs.rs') and g.kind != 'Closure' and g.path.find('Edge') >= 0)

    def reverse():
        f = pyfn(ctx, 'pgraphs::Edge', 'Neg', 'neg')
        w = ctx.where(f)
        p = the_return(ctx.summary(f, **inf))
        h, t, s = (canon(x) for x in parts_of(p.ret, 'reversed edge'))
        expect(h, A(0, TAIL), 'the head of a reversed edge', w)
        expect(t, A(0, HEAD), 'the tail of a reversed edge', w)
        expect(s, neg(A(0, SHIFT)), 'the shift of a reversed edge', w)
        return 'three fields'
    ctx.ob('reversed edge', reverse)

    def new():
        f = ctx.fn('pgraphs::Edge::new', public=True)
        w = ctx.where(f)
        p = the_return(ctx.summary(f))
        for i, x in enumerate(parts_of(p.ret, 'new edge')):
            expect(canon(x), A(i), 'field %d of a new edge' % i, w)
        return 'three fields'
    ctx.ob('fields of a new edge', new)

    def orient():
        f = ctx.fn('pgraphs::Edge::canonical', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **inf)
        h, t, sh = A(0, HEAD), A(0, TAIL), A(0, SHIFT)
        same = [canon(h), canon(t), canon(sh)]
        rev = [canon(t), canon(h), canon(neg(sh))]
        n = 0
        B = lambda q, x: mk('call', 'LabelVector::is_' + q, x)
        for o in (-1, 0, 1):            # head compared with tail
            for sg in (-1, 0, 1):
                bools = {B('negative', sh): int(sg < 0), B('positive', sh): int(sg > 0), B('zero', sh): int(sg == 0),
                         B('negative', neg(sh)): int(sg > 0), B('positive', neg(sh)): int(sg < 0)}
                c = Cases(order={(h, t): o}, bools=bools)
                # comparison of the label with zero or its negative
                z = mk('call', 'LabelVector::zero')
                c.order.update({(canon(sh), z): sg, (z, canon(sh)): -sg})
                r = c.outcome(s)
                if not isinstance(r, T):
                    raise Bad('orientation of an edge ends in a %s' % r, w)
                got = [canon(x) for x in parts_of(r, 'canonical edge')]
                case = 'head %s tail, shift %s' % ({-1: 'before', 0: 'equal to', 1: 'after'}[o], {-1: 'negative', 0: 'zero', 1: 'positive'}[sg])
                if o < 0 or o == 0 and sg > 0:
                    ok = [same]
                elif o > 0 or o == 0 and sg < 0:
                    ok = [rev]
                else:
                    ok = [same, rev, [same[1], same[0], same[2]], [same[0], same[1], rev[2]]]
                if o == 0:
                    got2 = [canon(subst(x, {canon(t): canon(h)})) for x in got]
                    ok = [[canon(subst(x, {canon(t): canon(h)})) for x in y] for y in ok]
                else:
                    got2 = got
                if not any(all(a is b for a, b in zip(got2, y)) for y in ok):
                    if all(opaque_in(x) is None for x in got):
                        raise Bad('an edge (%s) becomes %s' % (case, ', '.join(show(x) for x in got)), w)
                    raise Und('%s: %s' % (case, show(r)))
                n += 1
        return '%d cases' % n
    ctx.ob('canonical orientation', orient)

    def edges():
        f = ctx.fn('pgraphs::Graph::new', public=True)
        w = ctx.where(f)
        p = the_return(ctx.summary(f))
        t = p.ret
        if t.op != 'agg':
            raise Und('graph %s' % show(t))
        es = t.args[2]
        b = mk('bv', 1)
        inp = A(0)
        want = mk('sorted', mk('toset', mk('comp', 'map', canon(t_len(inp)), b, (((), gc('Edge::canonical', E.getidx(inp, b))),))))
        x = es
        srt = set()
        while x.op in ('sorted', 'toset', 'collect'):
            srt.add(x.op)
            x = x.args[-1]
        y = want.args[0].args[0]
        if x is canon(y):
            if 'toset' not in srt:
                raise Bad('edges given twice are kept twice', w)
            return show(es)
        if x.op == 'comp' and x.args[0] == 'filter' and x.args[1] is y.args[1] and all(v is y.args[3][0][1] for c, v in x.args[3]):
            a = uncovered([list(c) for c, v in x.args[3]])
            if a:
                raise Bad('an edge is left out when %s' % ', '.join('%s = %s' % (show(t_), v_) for t_, v_ in a), w)
        gexpect(x, y, 'the edges of a graph', w)
        return show(es)
    ctx.ob('edges of a new graph', edges)

    def verts():
        f = ctx.fn('pgraphs::Graph::vertices', public=True)
        w = ctx.where(f)
        s = ctx.summary(f)
        n = 0
        b = mk('bv', 1)
        es = A(0, 0)
        want = canon(mk('toset', mk('comp', 'flat', canon(t_len(es)), b, (((), mk('agg', 'array', None, E.getfield(E.getidx(es, b), 0), E.getfield(E.getidx(es, b), 1))),))))
        for p in s.returns():
            t = p.ret
            if any(x.op == 'cell0' for x in subterms(t)):
                continue
            x = t
            ops = []
            while x.op in ('sorted', 'toset', 'collect'):
                ops.append(x.op)
                x = x.args[-1]
            if 'toset' not in ops and x.op == 'comp':
                raise Bad('vertices are listed once per edge', w)
            if x is not want.args[0]:
                gexpect(mk('toset', x), want, 'the vertices', w, known=(A(0, 0),))
            n += 1
        if not n:
            raise Und('no computing path')
        return '%d computing paths' % n
    ctx.ob('vertices are the ends of edges', verts)

    def incid():
        f = ctx.fn('pgraphs::Graph::incidences', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **inf)
        L = phis(s)
        es = A(0, 0)
        found = {}
        for p, key, new in backs(s):
            for m, x in new.items():
                if x is m or x.op != 'minsert' or not isinstance(L.get(m), T):
                    continue
                if x.args[0] is not m and not (x.args[0].op == 'minsert' and x.args[0].args[0] is m):
                    continue
                found.setdefault(m, []).append((p, x))
        if not found:
            raise Und('no table is filled')
        if len(found) > 1:
            raise Und('several tables')
        (M, us), = found.items()
        dirs = {}
        for p, x in us:
            todo = [x]
            y = x
            while y.args[0] is not M and y.args[0].op == 'minsert':
                y = y.args[0]
                todo.append(y)
            if len(todo) > 1:
                raise Und('several entries in one step')
            k, v = x.args[1], x.args[2]
            if v.op == 'push':
                old, e = v.args
                if old.op == 'mget' and old.args == (M, k) or old.op in ('ite', 'mgetor', 'with'):
                    pass
                elif old.op == 'agg' and len(old.args) == 2 or old.op == 'emptyvec':
                    if has(p, mk('contains', M, k), 1):
                        raise Bad('the edges entered before are dropped', w)
                else:
                    raise Und('entry %s' % show(v))
            elif v.op == 'agg' and v.args[0] == 'array' and len(v.args) == 3:
                e = v.args[2]
                if has(p, mk('contains', M, k), 1):
                    raise Bad('the edges entered before are dropped', w)
                if not has(p, mk('contains', M, k), 0):
                    if not any(contains(t_, lambda z: z.op in ('contains', 'mget', 'mgetor') and k in z.args[1:]) for t_, _ in p.facts()):
                        raise Bad('the edges entered before are dropped when %s' % ('; '.join('%s = %s' % (show(t_), v_) for t_, v_ in p.facts()[-1:])), w)
                    raise Und('entry %s' % show(v))
            else:
                if has(p, mk('contains', M, k), 0) and (v.op == 'emptyvec' or v.op == 'agg' and len(v.args) == 2):
                    raise Bad('the first edge at a vertex is not entered', w)
                raise Und('entry %s' % show(v))
            h, t, sh = (canon(z) for z in parts_of(canon(e), 'entered edge'))
            i = index_of(mk('agg', 'tuple', None, h, t, sh), es)
            over_all(i, es, 'edges', w)
            src = E.getidx(es, i)
            fwd = [canon(E.getfield(src, z)) for z in range(3)]
            rev = [fwd[1], fwd[0], canon(neg(fwd[2]))]
            if [h, t, sh] == fwd:
                d = 'forward'
            elif [h, t, sh] == rev:
                d = 'reverse'
            elif all(opaque_in(z) is None for z in (h, t, sh)):
                raise Bad('an edge is entered as %s, %s, %s' % (show(h), show(t), show(sh)), w)
            else:
                raise Und('entered edge %s' % show(e))
            if k is not h:
                expect(k, h, 'the vertex an edge is entered for', w)
            cond = [(t_, v_) for t_, v_ in p.facts() if not (t_.op == 'contains' and t_.args[0] is M) and contains(t_, lambda z: z is i)]
            dirs.setdefault(d, []).append((p, cond))
        for d in ('forward', 'reverse'):
            if d not in dirs:
                raise Bad('the %s direction of edges is never entered' % d, w)
            cs = [c for p, c in dirs[d]]
            conds = {t_ for c in cs for t_, v_ in c}
            for t_ in conds:
                vals = {v_ for c in cs for u, v_ in c if u is t_}
                if all(any(u is t_ for u, _ in c) for c in cs) and len(vals) == 1:
                    raise Bad('the %s direction is entered only under the condition %s = %s' % (d, show(t_), vals.pop()), w)
            a = uncovered(cs)
            if a:
                raise Bad('the %s direction is not entered when %s' % (d, ', '.join('%s = %s' % (show(t_), v_) for t_, v_ in a)), w)
        # the answer
        for p in s.returns():
            t = p.ret
            if any(x.op == 'cell0' for x in subterms(t)):
                continue
            if t.op != 'mget':
                raise Und('answer %s' % show(t))
            expect(t.args[1], A(1), 'the vertex looked up', w)
        return '%d transitions, both directions' % len(us)
    ctx.ob('incidence table', incid)

    def directed():
        f = ctx.fn('pgraphs::Graph::directed_edges', public=True)
        w = ctx.where(f)
        p = the_return(ctx.summary(f, **NC))
        b = mk('bv', 1)
        want = mk('comp', 'flat', canon(t_len(V())), b, (((), INC(E.getidx(V(), b))),))
        gexpect(p.ret, want, 'the directed edges', w)
        return show(p.ret)
    ctx.ob('directed edges', directed)
