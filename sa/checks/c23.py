"""C23: coordination sequences."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: initial and next state of the iterator, elements and conditions of the set it builds'
RULE = ('The state made by the constructor must be the start vertex with zero shift and an empty previous shell. In the step every element '
        'inserted must be a neighbour (end vertex, sum of shifts) of an element of the current shell, for all elements and all incidences; it is left out '
        'only when it is in the current, previous or new shell; the shells move on by one and the answer is the size of the new one.')
PROP = {
    'title': 'Coordination sequence counts the shells of the infinite net',
    'statement': 'The coordination sequence of a vertex starts from its copy with zero shift. Each step yields the number of vertex copies that are '
                 'neighbours of the current shell, reached by adding the shift of an edge to that of its start, and lie neither in the '
                 'current nor in the previous shell.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all periodic graphs, start vertices and numbers of steps'},
    'why_tests_cant': 'Tests compare the first few terms for a few small nets.',
    'anchors': {'files': ['src/pgraphs.rs'], 'mechanism': 'coordination sequence constructor; coordination sequence iterator step'},
}


def single(t):
    """the element of a set with one element"""
    if t.op == 'agg' and t.args[0] == 'setlit' and len(t.args) == 3:
        return t.args[2]
    if t.op == 'sinsert' and t.args[0].op == 'emptyset':
        return t.args[1]
    if t.op == 'collect':
        return single(t.args[-1])
    return None


def pairof(t):
    return list(t.args[2:]) if t.op == 'agg' and t.args[0] == 'tuple' and len(t.args) == 4 else None


def run(ctx):
    CTX[0] = ctx
    new = ctx.fn('pgraphs::Graph::coordination_sequence', public=True)
    roles = {}

    def start():
        w = ctx.where(new)
        s = ctx.summary(new, **infile('pgraphs.rs'), **NC)
        p = the_return(s)
        t = p.ret
        if t.op != 'agg':
            raise Und('state %s' % show(t))
        fs = list(t.args[2:])
        for i, x in enumerate(fs):
            if x is G:
                roles['graph'] = i
            elif x.op == 'emptyset':
                roles['last'] = i
            elif single(x) is not None:
                roles['this'] = i
                e = pairof(single(x))
                if e is None:
                    raise Und('start %s' % show(x))
                expect(e[0], A(1), 'the start vertex', w)
                expect(e[1], mk('call', 'LabelVector::zero'), 'the shift of the start vertex', w)
        if len(fs) != 3 or len(roles) != 3:
            if 'this' in roles and len(fs) == 3 and all(single(x) is not None or x is G for x in fs):
                raise Bad('the previous shell is not empty at the start', w)
            if len(fs) == 3 and sum(x.op == 'emptyset' for x in fs) == 2:
                raise Bad('the start vertex is in no shell', w)
            raise Und('state %s' % show(t))
        return show(t)
    ctx.ob('start of the sequence', start)

    def step():
        if len(roles) != 3:
            raise Und('state not known')
        f = pyfn(ctx, r'CoordinationSequence', 'Iterator', 'next')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        fld = {k: A(0, i) for k, i in roles.items()}
        THIS, LAST, GR = (canon(fld[k]) for k in ('this', 'last', 'graph'))
        n = 0
        # elements inserted
        keys = set()
        ins = []
        for p, key, nw in backs(s):
            for m, x in nw.items():
                if x.op == 'sinsert' and x.args[0] is m:
                    ins.append((p, key, m, x.args[1]))
                    keys.add((key, m))
        if not ins:
            sets = [x for p in s.returns() for x in subterms(canon(p.heap(('A', 0)))) if x.op in ('comp', 'scollect')]
            raise Und('no elements inserted')
        if len(keys) != 1:
            raise Und('several sets are built')
        key, S = keys.pop()
        for W in {i[3]: 0 for i in ins}:
            e = pairof(W)
            if e is None:
                raise Und('element %s' % show(W))
            i = index_of(W, THIS) if contains(W, lambda z: z.op == 'idx' and z.args[0] is THIS) else None
            if i is None:
                if contains(W, lambda z: z.op == 'idx' and z.args[0] is LAST):
                    raise Bad('neighbours of the previous shell are taken', w)
                raise Und('element %s' % show(W))
            over_all(i, THIS, 'elements of the current shell', w)
            x = E.getidx(THIS, i)
            inc = INC(E.getfield(x, 0), GR)
            j = index_of(W, inc)
            over_all(j, inc, 'incidences', w)
            ed = E.getidx(inc, j)
            gexpect(e[0], E.getfield(ed, 1), 'the vertex of a neighbour', w, known=e)
            sh = canon(mk('add', 'i', E.getfield(x, 1), E.getfield(ed, 2)))
            if canon(e[1]) is not sh:
                if calls_in(e[1]) - {'Graph::incidences'}:
                    raise Und('shift %s' % show(e[1]))
                if opaque_in(e[1], ('Graph::incidences',)) is None:
                    raise Bad('the shift of a neighbour is %s' % show(e[1]), w)
                raise Und('shift %s' % show(e[1]))
        if len({i[3] for i in ins}) != 1:
            raise Und('several elements')
        # conditions
        cT, cL, cS = (mk('contains', q, W) for q in (THIS, LAST, S))
        taken, left = [], []
        for p, k, nw in backs(s):
            if k != key:
                continue
            fs = [(t, v) for t, v in p.facts() if contains(t, lambda z: z is W or z.op == 'ix' and z.args[0] == key)]
            (taken if nw.get(S) is not S else left).append((p, fs))
        for p, fs in taken:
            for c, what in ((cT, 'current'), (cL, 'previous')):
                if (c, 0) in fs:
                    continue
                if (c, 1) in fs:
                    raise Bad('an element of the %s shell is taken' % what, w)
                if all(t in (cT, cL, cS) for t, v in fs):
                    raise Bad('a neighbour is taken without asking whether it is in the %s shell' % what, w)
                raise Und('conditions %s' % '; '.join(show(t) for t, v in fs))
            n += 1
        for p, fs in left:
            if any(v == 1 and t in (cT, cL, cS) for t, v in fs):
                n += 1
                continue
            if fs and all(not contains(t, lambda z: z.op == 'call' and z.args[0] not in ('Graph::incidences', 'LabelVector::zero', 'LabelVector::is_zero')) for t, v in fs):
                raise Bad('a neighbour is left out when %s' % '; '.join('%s = %s' % (show(t), v) for t, v in fs), w)
            raise Und('a neighbour is left out')
        ini = phis(s)
        S0 = S
        for _ in range(4):
            if S0.op == 'phi':
                S0 = ini.get(S0, S0.args[3])
        if S0.op != 'emptyset':
            if S0 in (THIS, LAST):
                raise Bad('the new shell starts with the elements of another', w)
            raise Und('new shell starts as %s' % show(S0))
        # next state
        for p in s.returns():
            h = p.heap(('A', 0))
            t2, l2, g2 = (canon(E.getfield(h, roles[k])) for k in ('this', 'last', 'graph'))
            if t2.op != 'phi':
                raise Bad('the current shell becomes %s' % show(t2), w) if t2 in (THIS, LAST) else Und('current shell %s' % show(t2))
            if l2 is not THIS:
                if l2 in (LAST, t2) or l2.op == 'emptyset':
                    raise Bad('the previous shell becomes %s' % show(l2), w)
                if not contains(l2, lambda z: z is THIS) or l2.op == 'upd' and l2.args[0] == 'HashSet::retain' and l2.args[2] is LAST:
                    raise Bad('the previous shell becomes %s' % show(l2), w)
                raise Und('previous shell %s' % show(l2))
            if g2 is not GR:
                raise Und('graph changes')
            if p.ret.op == 'agg' and p.ret.args[1] == 0:
                raise Bad('the sequence ends when %s' % '; '.join('%s = %s' % (show(t), v) for t, v in p.facts()), w) if p.facts() else Bad('the sequence ends', w)
            v = E.getfield(p.ret, 0)
            if canon(v) is not canon(t_len(t2)):
                if contains(v, lambda z: z.op == 'call'):
                    raise Und('answer %s' % show(v))
                raise Bad('the term is %s' % show(v), w)
            n += 1
        return '%d obligations' % n
    ctx.ob('step of the sequence', step)
