"""C31: stability predicates."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR to loop transition summaries; seen-set rule'
RULE = ('The loop of each predicate is reduced to its transitions: every element must be tested against and added to the set of keys seen '
        'so far, the set must be fresh for each comparison class, the loop must range over all elements, the key must be exactly the one '
        'of the definition (closed form), and the answers on a repeated key and on exhaustion must be the defined ones.')
PROP = {
    'title': 'Stability tests compare all vertices and edges by position',
    'statement': 'A net is reported stable exactly when no two vertices have equal normalised barycentric positions, and locally stable '
                 'exactly when no two incident edges at one vertex have equal edge vectors. Second-order collisions are reported exactly when '
                 'two vertices agree in normalised position and in the multiset of edge vectors, and the lookup of an edge by its vector '
                 'answers exactly when a single edge at the vertex has that vector.',
    'quantifier': {'over': ['inputs'], 'text': 'all graphs'},
    'why_tests_cant': 'Tests call the predicates on a few named nets; collisions of three or more edges, loops and mirrored vertices are not among them.',
    'anchors': {'files': ['src/pgraphs.rs'], 'mechanism': 'seen-set loops of the stability predicates; unique edge vector table'},
}


def run(ctx):
    CTX[0] = ctx
    def stable():
        f = ctx.fn('pgraphs::Graph::is_stable', public=True)
        return distinct(ctx, f, ctx.summary(f, **NC), lambda v: [gc('Graph::position_normalized', G, v)], 0, 1, ['vertices'], [lambda: V()])
    ctx.ob('stable: vertices at the same place', stable)

    def local():
        f = ctx.fn('pgraphs::Graph::is_locally_stable', public=True)
        return distinct(ctx, f, ctx.summary(f, **NC), lambda v, e: [gc('Graph::edge_vector', G, e)], 0, 1, ['vertices', 'edges at a vertex'],
                        [lambda: V(), lambda v: INC(v)])
    ctx.ob('locally stable: edges with the same vector', local)

    def second():
        f = ctx.fn('pgraphs::Graph::has_second_order_collisions', public=True)
        b = mk('bv', 1)

        def want(v):
            ds = mk('comp', 'map', canon(t_len(INC(v))), b, (((), gc('Graph::edge_vector', G, E.getidx(INC(v), b))),))
            return [mk('sorted', ds), gc('Graph::position_normalized', G, v)]
        return distinct(ctx, f, ctx.summary(f, **NC), want, 1, 0, ['vertices'], [lambda: V()])
    ctx.ob('second-order collisions: same place and edge vectors', second)

    def unique():
        f = ctx.fn('pgraphs::edges_by_unique_deltas')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        ph = phis(s)
        n = 0
        tests = {t for p in s.backs() for t, v in p.facts() if t.op == 'contains' and t.args[0].op == 'phi'}
        if not tests:
            # plain insertion without looking for repetitions
            for p, key, new in backs(s):
                if any(x.op == 'minsert' and x.args[0] is m and ph[m].op == 'emptymap' and 'edge_vector' in show(x.args[1]) for m, x in new.items()):
                    raise Bad('edges with the same vector replace each other', w)
            raise Und('no test for repeated vectors')
        if len({t.args[0] for t in tests}) != 1 or len(tests) != 1:
            raise Und('several tests')
        t = first(tests)
        S, K = t.args
        e0 = index_of(K, V())
        over_all(e0, V(), 'vertices', w)
        v = E.getidx(V(), e0)
        e1 = index_of(K, INC(v))
        over_all(e1, INC(v), 'edges at a vertex', w)
        e = E.getidx(INC(v), e1)
        gexpect(K, gc('Graph::edge_vector', G, e), 'the vector of an edge', w)
        if ph[S].op == 'phi':
            raise Bad('the vectors seen are shared between vertices', w)
        if ph[S].op not in ('emptyset', 'emptymap'):
            raise Und('seen set starts as %s' % show(ph[S]))
        Ms = {m for p, key, new in backs(s) if key == S.args[0] for m, x in new.items() if x.op in ('minsert', 'mremove') and x.args[0] is m}
        if len(Ms) != 1:
            raise Und('%d tables' % len(Ms))
        M = Ms.pop()
        if M is S:
            raise Bad('the third edge with the same vector is entered again', w) if any(
                new.get(M, M).op == 'mremove' for p, key, new in backs(s)) else Und('one table')
        for p, key, new in backs(s):
            if key != S.args[0]:
                continue
            n += 1
            m, x = new.get(M, M), new.get(S, S)
            if has(p, t, 1):
                if x is not S and not (x.op == 'sinsert' and x.args[0] is S):
                    raise Bad('the vectors seen become %s' % show(x), w)
                if m is M:
                    raise Bad('an edge whose vector occurs again stays in the table', w)
                if m.op == 'minsert':
                    raise Bad('an edge whose vector occurs again is entered', w)
                if m.op != 'mremove' or m.args[0] is not M:
                    raise Und('table becomes %s' % show(m))
                gexpect(m.args[1], K, 'the vector removed', w)
            elif has(p, t, 0):
                if x is S:
                    raise Bad('the vector of an edge is not remembered', w)
                if x.op != 'sinsert' or x.args[0] is not S:
                    raise Und('seen set becomes %s' % show(x))
                gexpect(x.args[1], K, 'the vector remembered', w)
                if m is M:
                    raise Bad('an edge with a new vector is not entered', w)
                if m.op != 'minsert' or m.args[0] is not M:
                    raise Und('table becomes %s' % show(m))
                gexpect(m.args[1], K, 'the vector entered', w)
                gexpect(m.args[2], e, 'the edge entered', w)
            else:
                raise Bad('an edge is passed over', w)
        r = the_return(s).ret
        b = mk('bv', 1)
        want = canon(mk('tomap', mk('comp', 'map', canon(t_len(V())), b, (((), mk('agg', 'tuple', None, E.getidx(V(), b), M)),))))
        gexpect(r, want, 'the table for all vertices', w)
        return '%d transitions' % n
    ctx.ob('edges by unique vector', unique)

    def lookup():
        f = ctx.fn('pgraphs::Graph::edge_by_unique_delta', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        n = 0
        for p in s.returns():
            r = p.ret
            if r.op != 'agg' or r.args[1] not in (0, 1):
                raise Und('answer %s' % show(r))
            tabs = {x.args[0] for t, v in p.facts() for x in subterms(t) if x.op == 'contains' and x.args[1] is A(1)}
            tabs &= {x for x in tabs if x.op in ('cell0', 'call')}
            tabs = {x for x in tabs if x.op == 'call'} or tabs
            if len(tabs) != 1:
                raise Und('%d tables' % len(tabs))
            tb = tabs.pop()
            row = mk('mget', tb, A(1))
            present = has(p, mk('contains', tb, A(1)), 1) and has(p, mk('contains', row, A(2)), 1)
            if r.args[1] == 1:
                if not present:
                    raise Und('answer without lookup')
                gexpect(r.args[2], mk('mget', row, A(2)), 'the edge found', w, calls=calls_in(r))
            elif present:
                raise Bad('no edge is found although there is one', w)
            n += 1
        return '%d answers' % n
    ctx.ob('lookup of an edge by its vector', lookup)
