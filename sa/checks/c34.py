"""C34: generated groups are closed and contain every element once."""
from ..graphs import *
from .. import evalt

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: worklist rule on the loop-carried result, the set of known elements and the exit conditions'
RULE = ('The result must start with the identity and grow only by reduced products of an element of the result and a generator; for every element and every generator the product is added exactly when it is not known, '
        'everything added becomes known, and the loop may end only when every element was multiplied with every generator.')
PROP = {
    'title': 'Generated groups are closed and contain every element once',
    'statement': 'The operations generated by a list of generators contain the identity and, with every operation, its products with all generators, each reduced modulo lattice translations; '
                 'no reduced operation is listed twice and none is listed that is not such a product.',
    'quantifier': {'over': ['inputs'], 'text': 'all finite sets of generators that generate finitely many operations modulo translations'},
    'why_tests_cant': 'Tests generate a few small groups; a closure that stops early or skips a generator shows only for groups that need longer words.',
    'anchors': {'files': ['src/spacegroups/basics.rs'], 'mechanism': 'generate: worklist over products with the generators, set of known operations'},
}

INL = lambda g: g.file.endswith('basics.rs')


def factors(t):
    """(left, right) of a product of two maps"""
    if t.op == 'npoly' and len(t.args) == 1:
        fs, k = t.args[0]
        if k == 1 and len(fs) == 2:
            return fs
    if t.op == 'call' and t.args[0].split('::')[-1] == 'mul' and len(t.args) == 3:
        return t.args[1:]


def run(ctx):
    CTX[0] = ctx

    def closure():
        f = ctx.fn('spacegroups::basics::generate')
        s = ctx.summary(f, inline_if=INL)
        w = ctx.where(f)
        L = phis(s)
        rs = s.returns()
        if not rs:
            raise Bad('never returns', w)
        if len({r.ret for r in rs}) != 1 or rs[0].ret not in L:
            raise Und('result %s' % show(rs[0].ret))
        res = rs[0].ret
        # start
        init = L[res]
        dims = [canon(mk('call', 'AffineMap::dim', E.getidx(A(0), INT(0))))]
        ident = mk('call', 'AffineMap::identity', dims[0])
        if init.op == 'agg' and init.args[0] == 'array':
            if len(init.args) == 2:
                raise Bad('the result starts without any operation', w)
            if init.args[2] is not ident:
                if all(x.op == 'call' and x.args[0].endswith('AffineMap::identity') for x in init.args[2:]):
                    gexpect(init.args[2], ident, 'the first operation', w, calls=('AffineMap::identity', 'AffineMap::dim'))
                raise Und('the result starts with %s' % show(init))
            if len(init.args) > 3:
                raise Und('the result starts with %s' % show(init))
        else:
            raise Und('the result starts with %s' % show(init))
        chain = {res}
        ch = True
        while ch:
            ch = False
            for q, i in L.items():
                if i in chain and q not in chain:
                    chain.add(q)
                    ch = True
        # growth
        grown = []
        counters = set()
        for p, key, new in backs(s):
            for ph, x in new.items():
                if ph not in chain:
                    continue
                if x.op == 'push' and x.args[0] in chain:
                    grown.append((p, key, ph, x.args[1], new))
                elif x.op in ('vextend', 'phi') or x is ph:
                    pass
                else:
                    raise Und('result %s' % show(x))
        if not grown:
            raise Und('the result does not grow in a loop')
        keys = {k for _, k, _, _, _ in grown}
        if len(keys) != 1:
            raise Und('%d loops add to the result' % len(keys))
        key = keys.pop()
        xs = {x for _, _, _, x, _ in grown}
        if len(xs) != 1:
            raise Und('%d kinds of operations added' % len(xs))
        X = xs.pop()
        prod = X
        if X.op == 'call' and X.args[0].endswith('mod_z'):
            prod = X.args[1]
        elif factors(X):
            raise Bad('products are added without being reduced modulo translations', w)
        fs = factors(prod)
        if fs is None:
            raise Und('operation added %s' % show(X))
        G_, E_ = [], []
        for y in fs:
            if y.op == 'idx' and y.args[0] is A(0):
                G_.append(y)
            elif y.op == 'idx' and y.args[0] in chain:
                E_.append(y)
            else:
                raise Und('factor %s' % show(y))
        if len(G_) == 2:
            raise Bad('only products of two generators are added', w)
        if len(E_) == 2:
            raise Und('products of two elements')
        over_all(G_[0].args[1], A(0), 'generators', w)
        i = E_[0].args[1]
        # every round: known or added
        n = 0
        for p, k, new in backs(s):
            if k != key:
                continue
            ph = next((q for q in new if q in chain), None)
            if ph is None:
                continue
            added = new[ph] is not ph
            member = [(t, v) for t, v in p.facts() if t.op == 'contains' and t.args[1] is X]
            other = [(t, v) for t, v in own_facts(p, key) if not any(t is m for m, _ in member)]
            known = [v for t, v in member]
            if added:
                if not known:
                    raise (Und if other else Bad)(*(('condition %s' % show(other[0][0]),) if other else ('operations are added that may be known already', w)))
                if known[0] == 1:
                    raise Bad('an operation is added when it is known', w)
                sets = [t.args[0] for t, _ in member]
                for z in sets:
                    if z not in chain and z not in new and not contains(z, lambda y: y.op == 'phi'):
                        raise Bad('an added operation does not become known', w)
                    if z in new and z not in chain:
                        y = new[z]
                        if y is z:
                            raise Bad('an added operation does not become known', w)
                        if not (y.op == 'sinsert' and y.args[1] is X):
                            if y.op == 'sinsert' and factors(y.args[1]) and X.op == 'call':
                                raise Bad('the known operations are not reduced', w)
                            raise Und('known operations %s' % show(y))
            elif not known:
                if any(contains(t, lambda z: z.op == 'call' and 'identity' in z.args[0]) for t, v in other):
                    raise Und('products with the identity')
                if other:
                    raise Bad('a product is not added when %s' % '; '.join('%s = %s' % (show(t), v) for t, v in other[:2]), w)
                sized = [(t, v) for t, v in p.facts() if contains(t, lambda z: z.op == 'len' and any(contains(z, lambda y: y is m) for m in new))]
                if sized and all(x is m for m, x in new.items()):
                    raise Bad('a product is left out when %s = %s' % (show(sized[0][0]), sized[0][1]), w)
                raise Und('a product is not added on some way')
            elif known[0] == 0:
                if other:
                    raise Bad('a new product is not added when %s' % '; '.join('%s = %s' % (show(t), v) for t, v in other[:2]), w)
                raise Bad('a new product is not added', w)
            n += 1
        for p, k, new in backs(s):
            if k != key:
                for t, v in own_facts(p, key):
                    if v in (0, 1) and not (t.op == 'lt'):
                        raise Bad('the remaining generators are skipped when %s = %s' % (show(t), v), w)
        # the position in the worklist and the end
        if i in L:
            if L[i] is not INT(0):
                if L[i].op == 'int':
                    raise Bad('the first %s operations are not multiplied' % show(L[i]), w)
                raise Und('position %s' % show(L[i]))
            steps = {canon(mk('sub', 'i', new[i], i)) for p, k, new in backs(s) if i in new and new[i] is not i}
            if steps != {INT(1)}:
                if all(x.op == 'int' for x in steps):
                    raise Bad('operations are skipped (step %s)' % ', '.join(show(x) for x in steps), w)
                raise Und('steps')
            for r in rs:
                fs_ = [(t, v) for t, v in r.facts() if contains(t, lambda z: z.op == 'phi')]
                n_ = canon(t_len(res))
                for t, v in fs_:
                    rest = [show(u) + ' = ' + str(x) for u, x in fs_ if u is not t]
                    if t.op == 'lt' and t.args[-2] is i and t.args[-1] is n_:
                        if v == 0:
                            break
                        raise Bad('the closure ends before the last operation is multiplied%s' % (' (%s)' % rest[0] if rest else ''), w)
                else:
                    for t, v in fs_:
                        if contains(t, lambda z: z is i) and not contains(t, lambda z: z in chain) and opaque_in(t, phis=(i,)) is None:
                            raise Bad('multiplication ends when %s = %s' % (show(t), v), w)
                        if contains(t, lambda z: z is n_) and not contains(t, lambda z: z is i) and opaque_in(t, phis=(res,)) is None:
                            raise Bad('the closure ends when %s = %s' % (show(t), v), w)
                    if fs_:
                        raise Und('end of the loop %s = %s' % (show(fs_[0][0]), fs_[0][1]))
                if not fs_:
                    raise Bad('the closure may end after the first round', w)
        elif i.op == 'ix':
            b = canon(i.args[1])
            if b.op == 'int' or not contains(b, lambda z: z in chain):
                raise Bad('only the operations known before the loop are multiplied', w)
            raise Und('position %s' % show(i))
        else:
            raise Und('position %s' % show(i))
        return '%d ways through a product; added %s' % (n, show(X))
    ctx.ob('closure under the generators', closure)
