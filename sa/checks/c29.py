"""C29: reduced lattice bases, Dirichlet vectors, shifts into the Dirichlet domain, bases of rational lattices."""
import itertools
import math
import random
from fractions import Fraction as Q
from ..graphs import *
from .. import evalt
from ..evalt import NoEval
from ..geom import det as gdet, mat, minv
from ..sweep import Sweep

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR; transition relations of the reduction loops (summaries of one round, condition and exit) checked inductively against integral equivalence, decrease and the reduction inequalities on exact instances'
RULE = ('Every reduction loop is an obligation on one arbitrary round and on its exit: a round replaces the vectors by others spanning the same lattice and makes no norm sum larger, '
        'a loop is left only with vectors that satisfy the reduction inequalities, and the vectors handed on are those of the definition. The scalar product is an arbitrary positive definite form.')
PROP = {
    'title': 'Lattice reduction yields reduced bases and Dirichlet vectors of the same lattice',
    'statement': 'Reducing a planar or spatial lattice basis under any positive definite form yields vectors of the same lattice, pairwise obtuse, among which are all vectors defining the Dirichlet domain; '
                 'the reduced basis takes them shortest first, keeps only independent ones and makes them obtuse to the first. '
                 'Shifts into the Dirichlet domain are lattice vectors and end in the closed domain, and the basis of a rational lattice generates exactly the unit lattice and the given vectors.',
    'quantifier': {'over': ['inputs'], 'text': 'all bases of dimension one to three, all positive definite forms, all points and all rational vectors'},
    'why_tests_cant': 'The tests reduce one planar and one spatial basis under the unit form; whether a loop stops too early depends on the form, and its rounds on unboundedly many bases.',
    'anchors': {'files': ['src/spacegroups/lattices.rs', 'src/spacegroups/types.rs'],
                'mechanism': 'Lagrange and Selling reduction; Dirichlet vectors; reduced basis; shift into the Dirichlet domain; basis of a rational lattice; rounding of rationals'},
}
FILE = 'lattices.rs'


def form(G):
    def dot(x, y):
        return sum((x[i] * G[i][j] * y[j] for i in range(len(x)) for j in range(len(y))), Q(0))
    return dot


def rnd(x):
    """nearest integer, halves away from zero"""
    x = Q(x)
    r = Q(math.floor(abs(x) + Q(1, 2)))
    return r if x >= 0 else -r


def vsum(*vs):
    return [sum(xs, Q(0)) for xs in zip(*vs)]


def vneg(v):
    return [-x for x in v]


def posdef(n, rng):
    while True:
        B = [[Q(rng.randint(-3, 3)) for _ in range(n)] for _ in range(n)]
        if gdet(mat(B)) != 0:
            return [[sum(B[k][i] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def sylvester(G):
    return all(gdet(mat([r[:k] for r in G[:k]])) > 0 for k in range(1, len(G) + 1))


def unimodular(vs, n):
    """do the vectors generate the lattice of integer vectors?"""
    if any(x.denominator != 1 for v in vs for x in v):
        return False
    g = 0
    for c in itertools.combinations(vs, n):
        g = math.gcd(g, int(gdet(mat(c))))
    return g == 1


def run(ctx):
    CTX[0] = ctx
    here = lambda *keep: (lambda g: g.file.endswith(FILE) and g.kind != 'Closure' and g.name not in keep)

    def hook(dot, dotarg, lists=None):
        def h(t, env, bvs):
            go = lambda x: evalt.ev(x, env, bvs)
            if t.op == 'apply' and len(t.args) == 3 and (t.args[0] is dotarg):
                x, y = go(t.args[1]), go(t.args[2])
                if not isinstance(x, list) or not isinstance(y, list) or len(x) != len(y):
                    raise NoEval('scalar product of %r, %r' % (x, y))
                return dot(x, y)
            if t.op == 'div' and t.args[0] == 'p':
                b = go(t.args[2])
                if b == 0:
                    raise NoEval('division by zero')
                return go(t.args[1]) / b
            if t.op == 'call' and t.args[0] in ('Coord::round', 'Ratio::round'):
                return rnd(go(t.args[1]))
            if t.op == 'call' and t.args[0] == 'Coord::div_rounded':
                b = go(t.args[2])
                if b == 0:
                    raise NoEval('division by zero')
                return rnd(go(t.args[1]) / b)
            if lists is not None:
                return lists(t, go)
            return NotImplemented
        return h

    def pub(name, *keep):
        f = ctx.fn('lattices::' + name, public=True)
        return f, ctx.summary(f, inline_if=here(*keep)), ctx.where(f)

    # ---------------------------------------------------------------- rounding
    def coords():
        n = 0
        for name, want in (('round', mk('call', 'Ratio::round', A(0))),
                           ('div_rounded', mk('call', 'Ratio::round', mk('div', 'q', A(0), A(1))))):
            fs = [f for f in ctx.lib.fns if f.name == name and f.kind != 'Closure' and f.path.startswith('<num_rational::Ratio<')
                  and f.path.endswith('types::Coord>::' + name)]
            for f in fs:
                s = ctx.summary(f)
                r = the_return(s).ret

                def h(t, env, bvs):
                    if t.op == 'call' and t.args[0] in ('Ratio::round', 'Coord::round'):
                        return rnd(evalt.ev(t.args[1], env, bvs))
                    if t.op == 'call' and t.args[0] in ('Ratio::floor', 'Ratio::ceil', 'Ratio::trunc'):
                        g = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[t.args[0].split('::')[1]]
                        return Q(g(evalt.ev(t.args[1], env, bvs)))
                    return NotImplemented
                for a in range(-9, 10):
                    for b in (1, 2, 3, 4, -2, -5):
                        x = Q(a, b if name == 'round' else 1)
                        e = evalt.Env(1, bind={A(0): x, A(1): Q(b)})
                        e.strict = True
                        e.hook = h
                        got = evalt.ev(r, e)
                        true = x if name == 'round' else x / b
                        if got.denominator != 1 or abs(got - true) > Q(1, 2):
                            raise Bad('%s of %s gives %s' % (name, true, got), ctx.where(f))
                        n += 1
        if not n:
            raise Und('no rounding of rational coordinates')
        return '%d values' % n
    ctx.ob('rounding of rationals', coords)

    # ---------------------------------------------------------------- Dirichlet vectors
    def paths_for(s, n):
        ln = t_len_of(A(0))
        out = []
        for p in s.paths:
            ok = True
            for t, v in p.facts():
                if t is ln:
                    ok = ok and (v == n if isinstance(v, int) else n not in v[1])
            if ok:
                out.append(p)
        return out

    def loop_of(sw, w):
        """the loop over rounds: the outermost one that is left at will"""
        tops = [k for k in sw.keys() if isinstance(k[-1], int)]
        tops = [k for k in tops if all(sw.at[p][k][0] == min(v[0] for c, v in sw.at[p].items() if isinstance(c[-1], int)) for p in sw.paths if k in sw.at[p])]
        if len(tops) != 1:
            raise Und('%d outer loops' % len(tops))
        return tops[0]

    def starts(sw, key):
        """states at the first round"""
        res = []
        for p in sw.paths:
            if key not in sw.at[p]:
                continue
            try:
                if not sw.holds(p, {}):
                    continue
            except NoEval:
                pass
            st = sw.init(p, key, {})
            if st not in res:
                res.append(st)
        if len(res) != 1:
            raise Und('%d first states' % len(res))
        return res[0]

    def constants(sw, key):
        """values of the loop that never change"""
        out = {}
        for p in sw.paths:
            if key in sw.at[p]:
                for cp, ph in sw.at[p][key][2].items():
                    if ph in s_inv(sw):
                        try:
                            if sw.holds(p, {}):
                                out[cp] = sw.ev(canon(p.norm(ph)), {})
                        except NoEval:
                            pass
        return out

    def s_inv(sw):
        return sw.s.inv

    def leave(sw, key, st):
        res = []
        for p in sw.paths:
            if p.kind != 'return' or key not in sw.at[p]:
                continue
            if sw.paths and not sw.holds(p, sw.bindings(p, key, st, {}), only=lambda t: True):
                continue
            b = sw.bindings(p, key, st, {})
            b = sw.through(p, key, b)
            sw.settled(p, key, b)
            if sw.holds(p, b):
                r = sw.ev(p.ret, b)
                if r not in res:
                    res.append(r)
        if len(res) > 1:
            raise Und('%d results' % len(res))
        return res[0] if res else None

    def vectors(st, n):
        out = []

        def go(x):
            if isinstance(x, list) and len(x) == n and all(isinstance(y, Q) for y in x):
                out.append(x)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    go(y)
        for x in st.values():
            go(x)
        return out

    def reduced(r, n, dot):
        """is this list, up to signs, that of the Dirichlet vectors of the integer lattice?"""
        key = lambda v: max(v, vneg(v))
        have = sorted(key(v) for v in r)
        for c in itertools.combinations(r, n):
            if not unimodular(c, n):
                continue
            for signs in itertools.product((1, -1), repeat=n - 1):
                vs = [c[0]] + [[e * x for x in v] for e, v in zip(signs, c[1:])]
                sup = vs + [vneg(vsum(*vs))]
                if all(dot(x, y) <= 0 for x, y in itertools.combinations(sup, 2)):
                    sums = [vsum(*[vs[i] for i in sub]) for k in range(1, n + 1) for sub in itertools.combinations(range(n), k)]
                    if sorted(key(v) for v in sums) == have:
                        return True
        return False

    def show_(v):
        return '[%s]' % ', '.join(str(x) for x in v) if isinstance(v, list) else str(v)

    def dirichlet(n):
        f, s, w = pub('dirichlet_vectors')
        ps = paths_for(s, n)
        if not any(p.kind == 'return' for p in ps):
            raise Und('no result in dimension %d' % n)
        if not any(p.kind == 'back' and isinstance(p.raw_ret[-1], int) for p in ps):
            raise Und('no loop in dimension %d' % n)
        rng = random.Random(5)
        seen = exits = rounds = 0

        def forms():
            e = [[Q(int(i == j)) for j in range(n)] for i in range(n)]
            if n == 2:
                for a in range(1, 5):
                    for b in range(-a, a + 1):
                        for c in range(1, 6):
                            G = [[Q(a), Q(b, 2)], [Q(b, 2), Q(c)]]
                            if sylvester(G):
                                yield G, e
                for a in (2, 4, 6):
                    for b in range(a + 1, 2 * a):
                        for x in (b, -b):
                            yield [[Q(a), Q(x, 2)], [Q(x, 2), Q(a)]], e
                for x in (-3, -2, -1, 1, 2, 3):
                    for c in (1, 2, 4, 9):
                        G = [[Q(1), Q(x)], [Q(x), Q(c)]]
                        if sylvester(G):
                            yield G, e
            else:
                for k in range(80):
                    q = {p: Q(rng.choice((0, 0, 1, 1, 2, 3))) for p in itertools.combinations(range(4), 2)}
                    if k % 2:
                        q[rng.choice(sorted(q))] = Q(-1, 2)
                    G = [[None] * 3 for _ in range(3)]
                    for i in range(3):
                        for j in range(3):
                            G[i][j] = -q[min(i, j), max(i, j)] if i != j else sum(v for p, v in q.items() if i in p)
                    if sylvester(G):
                        yield G, e
            for k in range(30):
                G = posdef(n, rng)
                while True:
                    b = [[Q(rng.randint(-2, 2)) for _ in range(n)] for _ in range(n)]
                    if abs(gdet(mat(b))) == 1:
                        break
                yield G, b

        for G, basis in forms():
            dot = form(G)
            sw = Sweep(s, ps, hook(dot, A(1)), {A(0): basis, A(2): Q(0)})
            key = loop_of(sw, w)
            first = starts(sw, key)
            kept = constants(sw, key)
            if not unimodular(vectors(first, n), n) and unimodular(vectors(first, n) + vectors(kept, n), n):
                first = dict(first)
                first.update({('kept', cp): v for cp, v in kept.items()})
            if not unimodular(vectors(first, n), n):
                if vectors(first, n) and n <= len(vectors(first, n)):
                    raise Bad('the reduction of %s starts with %s, which does not span the lattice' % (show_(basis), vectors(first, n)), w)
                raise Und('first state')
            states = [(first, 0)]
            done = []
            quiet = 0
            while states:
                st, depth = states.pop(0)
                if any(st == d for d in done):
                    continue
                done.append(st)
                out = leave(sw, key, st)
                new = sw.step(key, st, {})
                seen += 1
                if out is None and new is None:
                    raise Und('a state with neither a round nor an exit')
                if out is not None and new is not None:
                    raise Und('a state with both a round and an exit')
                if out is not None:
                    exits += 1
                    if not isinstance(out, list) or any(not isinstance(v, list) or len(v) != n for v in out):
                        raise Und('result')
                    if not reduced(out, n, dot):
                        raise Bad('with the form %s the reduction stops at %s and returns %s: not the vectors of a reduced basis' % (
                            [[str(x) for x in r] for r in G], [[str(x) for x in v] for v in vectors(st, n)], [[str(x) for x in v] for v in out]), w)
                    continue
                rounds += 1
                a, b = vectors(st, n), vectors(new, n)
                if len(a) != len(b):
                    raise Und('vectors of a state')
                if not unimodular(b, n):
                    raise Bad('a round of the reduction replaces %s by %s: another lattice' % ([[str(x) for x in v] for v in a], [[str(x) for x in v] for v in b]), w)
                na, nb = sum(dot(v, v) for v in a), sum(dot(v, v) for v in b)
                if nb > na:
                    raise Bad('a round of the reduction makes the vectors longer: %s becomes %s' % ([[str(x) for x in v] for v in a], [[str(x) for x in v] for v in b]), w)
                if new == st:
                    raise Bad('a round of the reduction changes nothing and the loop goes on at %s' % [[str(x) for x in v] for v in a], w)
                if depth < 1:
                    states.append((new, depth + 1))
                elif nb == na and depth < 4:
                    # a round without progress must be followed by progress or the exit
                    if depth == 3:
                        raise Bad('rounds of the reduction go on without any vector getting shorter, at %s' % [[str(x) for x in v] for v in a], w)
                    states.append((new, depth + 1))
        if not exits or not rounds:
            raise Und('no rounds or no exits')
        return '%d states, %d rounds, %d exits' % (seen, rounds, exits)
    ctx.ob('planar reduction', lambda: dirichlet(2))
    ctx.ob('spatial reduction', lambda: dirichlet(3))

    def linear():
        f, s, w = pub('dirichlet_vectors')
        n = 0
        for d, basis in ((1, [[Q(3)]]), (0, [])):
            ps = [p for p in paths_for(s, d) if p.kind == 'return']
            sw = Sweep(s, ps, hook(form([[Q(2)]]), A(1)), {A(0): basis, A(2): Q(0)})
            r = sw.result()
            if sorted(max(v, vneg(v)) for v in r) != sorted(basis):
                raise Bad('the Dirichlet vectors of %s are %s' % (basis, r), w)
            n += 1
        return '%d bases' % n
    ctx.ob('bases of dimension one', linear)

    # ---------------------------------------------------------------- reduced basis
    def basis_():
        f, s, w = pub('reduced_lattice_basis', 'rank', 'dirichlet_vectors', 'positive_direction')
        rng = random.Random(3)
        keys = {k for p in s.paths for e in p.events if e[0] == 'loop' for k in [e[1]] if isinstance(k[-1], int)}
        if len(keys) != 1:
            raise Und('loops')
        key = keys.pop()
        src = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'sortedby'}
        if not src:
            srt = any(x.op == 'sortedby' for p in s.paths for e in p.events if e[0] == 'back' for v in e[2].values() for x in subterms(p.norm(v)))
            ix = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'ix' and x.args[0] == key}
            if not srt and any(y.op == 'call' and y.args[0] == 'dirichlet_vectors' for x in ix for y in subterms(x)) \
                    and not any(y.op in ('upd', 'sorted') or y.op == 'call' and y.args[0] != 'dirichlet_vectors' for x in ix for y in subterms(x)):
                raise Bad('the Dirichlet vectors are taken unsorted', w)
            raise Und('sorted vectors')
        if len(src) != 1:
            raise Und('sorted vectors')
        src = src.pop()
        dv = src.args[0]
        if not (dv.op == 'call' and dv.args[0] == 'dirichlet_vectors' and dv.args[1] is A(0)):
            raise Und('source %s' % show(dv))
        n = 0
        for dim in (2, 3):
            for k in range(60):
                dot = form(posdef(dim, rng))
                while True:
                    full = [[Q(rng.randint(-2, 2)) for _ in range(dim)] for _ in range(dim)]
                    if gdet(mat(full)) != 0:
                        break
                m = k % dim
                a = full[:m]
                kind = k % 3
                if kind == 0 and m:
                    x = vsum(*[[Q(rng.choice((-1, 1, 2))) * y for y in v] for v in a])
                else:
                    x = full[m]
                if kind == 2:
                    x = vneg(x)
                if all(y == 0 for y in x):
                    continue

                def lists(t, go):
                    if t is src:
                        return [x]
                    if t.op == 'call' and t.args[0] == 'rank':
                        vs = go(t.args[1])
                        return Q(rankof(vs))
                    return NotImplemented
                sw = Sweep(s, s.paths, hook(dot, A(1), lists), {A(0): full, A(2): Q(0)})
                cps = {cp for p in s.paths if key in sw.at[p] for cp in sw.at[p][key][1]}
                if len(cps) != 1:
                    raise Und('state')
                cp = cps.pop()
                if any(sw.init(p, key, {}).get(cp) != [] for p in s.paths if key in sw.at[p]):
                    raise Bad('the basis does not start empty', w)
                ixs = sw.index(key)
                b = {i: Q(0) for i in ixs}
                st = {cp: a}
                outs = []
                for p in s.paths:
                    if key not in sw.at[p] or p.kind not in ('back', 'return'):
                        continue
                    bb = sw.bindings(p, key, st, b)
                    if p.kind == 'return' and not any(contains(t, lambda y: y in ixs) for t, v in p.facts()):
                        continue
                    if sw.holds(p, bb):
                        o = ('next', sw.after(p, key, bb)[cp]) if p.kind == 'back' else ('end', sw.ev(p.ret, bb))
                        if o not in outs:
                            outs.append(o)
                if len(outs) != 1:
                    raise Und('%d ways for one vector' % len(outs))
                kind_, val = outs[0]
                if kind_ == 'end':
                    if not (isinstance(val, tuple) or isinstance(val, list)):
                        raise Und('result %r' % (val,))
                    got = some_of(val)
                    if got is None:
                        raise Bad('no basis is returned although vectors are left', w)
                    val = got
                indep = rankof(a + [x]) == len(a) + 1
                tell = 'from %s and the vector %s' % ([[str(y) for y in v] for v in a], [str(y) for y in x])
                if not indep:
                    if kind_ == 'end' or val != a:
                        raise Bad('%s, which depends on them, the basis becomes %s' % (tell, [[str(y) for y in v] for v in val]), w)
                else:
                    if len(val) != len(a) + 1 or val[:-1] != a:
                        raise Bad('%s the basis becomes %s' % (tell, [[str(y) for y in v] for v in val]), w)
                    if val[-1] not in (x, vneg(x)):
                        raise Bad('%s the basis gets the vector %s' % (tell, [str(y) for y in val[-1]]), w)
                    if a and dot(a[0], val[-1]) > 0:
                        raise Bad('%s the new vector is not obtuse to the first' % tell, w)
                    if (kind_ == 'end') != (len(val) == dim):
                        raise Bad('%s the search %s with %d of %d vectors' % (tell, 'ends' if kind_ == 'end' else 'goes on', len(val), dim), w)
                n += 1
        # without enough vectors there is no basis
        for p in s.returns():
            if not any(contains(t, lambda y: y.op == 'ix' and y.args[0] == key) for t, v in p.facts()):
                if p.ret.op == 'agg' and p.ret.args[1] == 1:
                    raise Bad('a basis is returned after all vectors were tried in vain', w)
        return '%d rounds' % n
    ctx.ob('reduced basis', basis_)

    def order():
        f, s0, w = pub('reduced_lattice_basis', 'rank', 'dirichlet_vectors')
        src = {x for p in s0.paths for t, v in p.facts() for x in subterms(t) if x.op == 'sortedby'}
        if len(src) != 1:
            raise Und('sorted vectors')
        c = src.pop().args[1]
        if not (c.op == 'agg' and isinstance(c.args[0], tuple) and c.args[0][0] == 'closure'):
            raise Und('order')
        g = ctx.lib.by_id[c.args[0][1]]
        s = ctx.summary(g, inline_if=here())
        caps = [i for i, x in enumerate(c.args[2:]) if x is A(1)]
        if len(caps) != 1:
            raise Und('captures')
        d = E.getfield(A(0), caps[0], None)
        rng = random.Random(9)
        finds = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'ix'}
        n = 0

        def first(v):
            return next((i for i, y in enumerate(v) if y), None)

        def fact(t, val, e):
            if t.op == 'discr' and t.args[0].op == 'cmp':
                x = ordv(evalt.ev(t.args[0], e))
                norm = lambda y: y - 256 if y > 127 else y
                return x == norm(val) if isinstance(val, int) else x not in {norm(y) for y in val[1]}
            return evalt.fact_val(t, val, e)

        def compare(v, u, dot):
            e = evalt.Env(1, bind={A(1): v, A(2): u})
            for x in finds:
                if not (isinstance(x.args[0], tuple) and x.args[0][-1] in ('find', 'position')):
                    raise Und('loop in the order')
                arg = [a for a, val in ((A(1), v), (A(2), u)) if contains(x.args[1], lambda y: y is a)]
                if len(arg) != 1:
                    raise Und('search in the order')
                e.bind[x] = Q(first(v if arg[0] is A(1) else u))
            e.strict = True
            e.hook = hook(dot, d)
            best = []
            for p in s.returns():
                if all(fact(t, val, e) for t, val in p.facts()):
                    best.append((len(p.facts()), p))
            if not best:
                raise Und('no case of the order')
            m = max(k for k, p in best)
            rs = {ordv(evalt.ev(p.ret, e)) for k, p in best if k == m}
            if len(rs) != 1:
                raise Und('cases of the order')
            return rs.pop()
        for dim in (2, 3):
            pool = [[Q(x) for x in v] for v in itertools.product((-1, 0, 1, 2), repeat=dim) if any(v)]
            for k in range(60):
                dot = form(posdef(dim, rng) if k % 2 else [[Q(int(i == j)) for j in range(dim)] for i in range(dim)])
                v, u = rng.choice(pool), rng.choice(pool)
                if v == vneg(u):
                    continue
                r = compare(v, u, dot)
                nv, nu = dot(v, v), dot(u, u)
                if nv != nu and (r < 0) != (nv < nu):
                    raise Bad('vectors of square length %s and %s are sorted the wrong way round' % (nv, nu), ctx.where(g))
                if compare(u, v, dot) != -r:
                    raise Bad('the order of the vectors %s and %s is not antisymmetric' % ([str(y) for y in v], [str(y) for y in u]), ctx.where(g))
                n += 1
        return '%d pairs' % n
    ctx.ob('order of the vectors', order)

    def ranks():
        fs = [f for f in ctx.lib.fns if f.file.endswith(FILE) and f.name == 'rank' and f.kind != 'Closure']
        if len(fs) != 1:
            raise Und('no function rank')
        s = ctx.summary(fs[0])

        def lists(t, go):
            if t.op == 'upd' and t.args[0] == 'extend_basis':
                return list(go(t.args[3])) + [go(t.args[2])]
            return NotImplemented
        vs = [[Q(1), Q(2)], [Q(3), Q(0)], [Q(0), Q(1)]]
        for m in range(4):
            r = Sweep(s, s.paths, hook(form([[Q(1)]]), A(9), lists), {A(0): vs[:m]}).result()
            if r != m:
                raise Bad('the rank is found from %s of %d vectors' % (r, m), ctx.where(fs[0]))
        return '4 lists'
    ctx.ob('rank', ranks)

    # ---------------------------------------------------------------- shift into the Dirichlet domain
    def shift():
        f, s, w = pub('shift_for_dirichlet_domain')
        rng = random.Random(8)
        n = exits = 0
        for k in range(120):
            dim = 2 + k % 2
            G = [[Q(2), Q(-1), Q(0)], [Q(-1), Q(3), Q(-1)], [Q(0), Q(-1), Q(2)]]
            G = [r[:dim] for r in G[:dim]] if k % 3 else [[Q(int(i == j)) for j in range(dim)] for i in range(dim)]
            dot = form(G)
            e = [[Q(int(i == j)) for j in range(dim)] for i in range(dim)]
            vs = [vsum(*[e[i] for i in sub]) for m in range(1, dim + 1) for sub in itertools.combinations(range(dim), m)]
            span = 1 if k % 4 else 3
            p0 = [Q(rng.randint(-4 * span, 4 * span), 8) if k % 5 else Q(rng.randint(-2, 2), 2) for _ in range(dim)]
            sw = Sweep(s, s.paths, hook(dot, A(2)), {A(0): p0, A(1): vs, A(3): Q(0)})
            key = loop_of(sw, w)
            first = starts(sw, key)
            vecs = vectors(first, dim)
            if len(vecs) != 1 or any(len(x) != dim for x in vecs):
                raise Und('state')
            cp = next(c for c, x in first.items() if isinstance(x, list))
            inside = lambda sh: all(abs(2 * dot(vsum(p0, sh), v)) <= dot(v, v) for v in vs)
            # the shift may have any value of the lattice
            st = dict(first)
            base = vecs[0]
            for extra in ([Q(0)] * dim, [Q(rng.randint(-1, 1)) for _ in range(dim)]):
                st = dict(first)
                st[cp] = vsum(base, extra)
                tell = 'for the point %s and the shift %s' % ([str(x) for x in p0], [str(x) for x in st[cp]])
                for depth in range(2):
                    out = leave(sw, key, st)
                    new = sw.step(key, st, {})
                    n += 1
                    if (out is None) == (new is None):
                        raise Und('a state with %s' % ('neither' if out is None else 'both'))
                    if out is not None:
                        exits += 1
                        q = [x - y for x, y in zip(out, st[cp])]
                        if extra == [Q(0)] * dim and any(x.denominator != 1 for x in out) or any(x.denominator != 1 for x in q):
                            raise Bad('%s the result %s is not a lattice vector' % (tell, [str(x) for x in out]), w)
                        if not inside(out):
                            raise Bad('%s the search ends with %s outside the Dirichlet domain' % (tell, [str(x) for x in out]), w)
                        break
                    if any((x - y).denominator != 1 for x, y in zip(new[cp], st[cp])):
                        raise Bad('%s a round shifts by %s, not a lattice vector' % (tell, [str(x - y) for x, y in zip(new[cp], st[cp])]), w)
                    if new[cp] != st[cp]:
                        a, b = (dot(vsum(p0, x), vsum(p0, x)) for x in (st[cp], new[cp]))
                        if b >= a:
                            raise Bad('%s a round does not bring the point closer: shift %s' % (tell, [str(x) for x in new[cp]]), w)
                    elif new == st:
                        raise Bad('%s the search goes on without changing anything' % tell, w)
                    st = new
        if not exits:
            raise Und('no exits')
        return '%d states, %d exits' % (n, exits)
    ctx.ob('shift into the Dirichlet domain', shift)

    # ---------------------------------------------------------------- rational lattices
    def rational():
        f, s, w = pub('rational_lattice_basis')
        rng = random.Random(4)

        def lists(t, go):
            if t.op == 'upd' and t.args[0] == 'extend_basis' and t.args[1] == 0:
                return list(go(t.args[3])) + [go(t.args[2])]
            if t.op == 'call' and t.args[0] in ('Ratio::denom', 'Ratio::numer'):
                v = go(t.args[1])
                return Q(v.denominator if t.args[0] == 'Ratio::denom' else v.numerator)
            if t.op == 'call' and t.args[0] == 'Integer::gcd':
                return Q(math.gcd(int(go(t.args[1])), int(go(t.args[2]))))
            if t.op == 'call' and t.args[0] == 'Integer::lcm':
                return Q(math.lcm(int(go(t.args[1])), int(go(t.args[2]))))
            if t.op == 'call' and t.args[0] == 'ToPrimitive::to_i32':
                x = go(t.args[1])
                return ('some', x) if x.denominator == 1 else 'none'
            if t.op == 'fld' and t.args[-1].op == 'call' and t.args[-1].args[0] == 'ToPrimitive::to_i32':
                return go(t.args[-1].args[1])
            if t.op == 'discr' and t.args[0].op == 'call' and t.args[0].args[0] == 'ToPrimitive::to_i32':
                return Q(1)
            if t.op == 'call' and t.args[0] == 'Ratio::is_integer':
                return go(t.args[1]).denominator == 1
            if t.op == 'call' and t.args[0] == 'Ratio::to_integer':
                return Q(math.trunc(go(t.args[1])))
            return NotImplemented
        n = 0
        for k in range(25):
            dim = 1 + k % 3
            vs = [[Q(rng.randint(-7, 7), rng.choice((1, 2, 3, 4, 6))) for _ in range(dim)] for _ in range(1 + k % 4)]
            sw = Sweep(s, s.paths, hook(form([[Q(1)]]), A(9), lists), {A(0): vs})
            for p in s.panics():
                b = {}
                try:
                    if not sw.holds(p, b):
                        continue
                    keys = [kk for m, kk in sw.inner(p, None)]
                    if not keys:
                        continue
                    b = sw.through(p, None, b, stop=keys[-1])
                    last = keys[-1]
                    ixs = sw.index(last)
                    b = sw.bindings(p, last, sw.init(p, last, b), b)
                    for i in range(int(sw.ev(next(iter(ixs)).args[1], b)) if ixs else 0):
                        for x in ixs:
                            b[x] = Q(i)
                        for c in range(dim):
                            bb = dict(b)
                            for t, v in p.facts():
                                for y in subterms(t):
                                    if y.op == 'bv':
                                        bb[y] = Q(c)
                            if all(evalt.fact_val(t, v, sw.env(bb)) for t, v in p.facts()):
                                raise Bad('for the vectors %s the search for a basis panics: a scaled coordinate is not an integer' % [[str(x) for x in v] for v in vs], w)
                except (NoEval, Und, StopIteration):
                    continue
            r = sw.result()
            unit = [[Q(int(i == j)) for j in range(dim)] for i in range(dim)]
            want = unit + vs
            key = lambda v: max(v, vneg(v))
            miss = [v for v in want if key(v) not in [key(x) for x in r]]
            more = [v for v in r if key(v) not in [key(x) for x in want]]
            if miss or more:
                raise Bad('the lattice generated by %s and the unit lattice is generated from %s' % ([[str(x) for x in v] for v in vs], [[str(x) for x in v] for v in r]), w)
            n += 1
        return '%d lattices' % n
    ctx.ob('basis of a rational lattice', rational)


def some_of(v):
    """payload of an evaluated Some, None for None"""
    if isinstance(v, tuple) and len(v) >= 3 and v[1] == 1:
        return v[2]
    if isinstance(v, tuple) and v and v[0] == 'agg':
        return v[-1] if v[2] == 1 else None
    if isinstance(v, tuple):
        return v[-1] if len(v) > 1 else None
    return None


def ordv(v):
    v = getattr(v, 'value', v)
    return int(v)


def rankof(vs):
    a = [list(v) for v in vs]
    r = 0
    for c in range(len(a[0]) if a else 0):
        k = next((i for i in range(r, len(a)) if a[i][c]), None)
        if k is None:
            continue
        a[r], a[k] = a[k], a[r]
        for i in range(r + 1, len(a)):
            q = a[i][c] / a[r][c]
            a[i] = [x - q * y for x, y in zip(a[i], a[r])]
        r += 1
    return r


def t_len_of(x):
    from ..models import t_len
    return canon(t_len(x))
