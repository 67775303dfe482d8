"""C36: operators of planar and spatial groups are classified by order, handedness, axis and sense; planar bases fit the system."""
import itertools
import random
from fractions import Fraction
from ..graphs import *
from .. import evalt, geom, sweep
from ..geom import Geo, Mat, Panic
from .c35 import Prim, lattice

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: case analysis of the classification in closed form, loops replayed on the summary for operators of all crystallographic point groups'
RULE = ('The summary of the classification is evaluated on the operators of all point groups in up to three dimensions in several settings: order, handedness, axis and sense must be those of the definition. '
        'The system and basis chosen for a planar group, and the conventional cell for its lattice, must have the defining relation to the operators; a construction that fails is reported.')
PROP = {
    'title': 'Symmetry operators are classified by order, handedness, axis and sense',
    'statement': 'An operator is given the least power up to six that is the identity as its order (none if there is none), as handedness the sign of its determinant, as axis the positively directed vector it fixes up to its handedness if that is unique, and a turning sense. '
                 'A planar group is oblique, rectangular, square or hexagonal according to its highest order and its reflections, with a right-handed basis along its mirrors, of equivalent vectors if there is a rotation of order three or four; '
                 'its cell has all its translations, and the conventional cell spans the lattice up to the centering reported.',
    'quantifier': {'over': ['inputs'], 'text': 'all finite-order operators and planar groups in every rational setting'},
    'why_tests_cant': 'A dozen operators and four groups are tested, and for the groups only the name of the system.',
    'anchors': {'files': ['src/spacegroups/finder.rs'], 'mechanism': 'OperatorDetails::from, crystal_system_and_basis_2d, primitive_cell, normalized_basis_2d'},
}
F = Fraction
SYSTEMS = ('Oblique', 'Rectangular', 'Square', 'Hexagonal')


def rank_rows(rows, n):
    out = []
    for v in rows:
        v = list(v)
        for b in out:
            c = next(i for i in range(n) if b[i] != 0)
            if v[c] != 0:
                f = v[c] / b[c]
                v = [x - f * y for x, y in zip(v, b)]
        if any(v):
            out.append(v)
    return out


def null_cols(m):
    """basis of the solutions of m x = 0"""
    n = m.c
    rows = [list(r) for r in m]
    piv = []
    k = 0
    for c in range(n):
        p = next((i for i in range(k, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        rows[k] = [x / rows[k][c] for x in rows[k]]
        for i in range(len(rows)):
            if i != k and rows[i][c] != 0:
                rows[i] = [x - rows[i][c] * y for x, y in zip(rows[i], rows[k])]
        piv.append(c)
        k += 1
    out = []
    for c in range(n):
        if c not in piv:
            v = [F(0)] * n
            v[c] = F(1)
            for i, q in enumerate(piv):
                v[q] = -rows[i][c]
            out.append(v)
    return out


def parse_op(t):
    """reference reading of an operator text without shifts"""
    rows = []
    names = 'xyz'
    parts_ = t.replace(' ', '').split(',')
    for p in parts_:
        row = [F(0)] * len(parts_)
        sh = F(0)
        i = 0
        while i < len(p):
            s = 1
            if p[i] in '+-':
                s = -1 if p[i] == '-' else 1
                i += 1
            j = i
            while j < len(p) and (p[j].isdigit() or p[j] == '/'):
                j += 1
            k = F(p[i:j]) if j > i else F(1)
            i = j
            if i < len(p) and p[i] in names:
                row[names.index(p[i])] += s * k
                i += 1
            elif j > 0:
                sh += s * k
        rows.append((row, sh))
    return [r for r, _ in rows], [s for _, s in rows]


class Fin(Prim):
    def __init__(self, ctx, scale=1, details=None):
        super().__init__(ctx)
        self.scale = F(scale)           # null vectors are determined up to a factor only
        self.details = details

    def hook_(self, t, env, bvs):
        if t.op == 'upd' and len(t.args) == 4 and t.args[0].split('::')[-1] == 'extend_basis':
            # over a field: the row is added when it is independent
            v = [x for x in evalt.lst(evalt.ev(t.args[2], env, bvs), env)]
            bs = [list(b) for b in evalt.lst(evalt.ev(t.args[3], env, bvs), env)]
            return bs + [v] if len(rank_rows(bs + [v], len(v))) > len(rank_rows(bs, len(v))) else bs
        if t.op == 'fld':
            v = evalt.ev(t.args[2], env, bvs)
            if isinstance(v, dict):
                return v[t.args[0]]
        if t.op == 'discr':
            v = evalt.ev(t.args[0], env, bvs)
            if isinstance(v, tuple) and len(v) >= 2 and isinstance(v[0], str) and v[0][0] == '@' and isinstance(v[1], int):
                return F(v[1])
        if t.op == 'eq':
            a, b = (evalt.ev(x, env, bvs) for x in t.args[:2])
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not isinstance(a, Mat) and not isinstance(b, Mat):
                return int(list(a) == list(b))
        return super().hook_(t, env, bvs)

    def call(self, n, a, go, env):
        n = '::'.join(n.split('::')[-2:])
        if n == 'LinearAlgebra::null_space' and len(a) == 1:
            vs = null_cols(go(a[0]))
            if not vs:
                return ('@Option', 0)
            return ('@Option', 1, geom.mat([[self.scale * v[i] for v in vs] for i in range(len(vs[0]))]))
        if n == 'Matrix::get_col' and len(a) == 2:
            m, i = go(a[0]), evalt.nat(go(a[1]))
            return [r[i] for r in m]
        if n == 'OperatorDetails::from' and self.details and len(a) == 1:
            return self.details(go(a[0]))
        if n.endswith('reduced_lattice_basis') and len(a) == 3:
            vs = [list(x) for x in evalt.lst(go(a[0]), env)]
            return ('@Option', 1, reduced2(vs))
        if n.endswith('parse_operator') and len(a) == 1:
            t = a[0]
            if t.op != 'str':
                t = go(t)
            t = t.args[0] if isinstance(t, T) else t
            if isinstance(t, str):
                m, s = parse_op(t)
                return ('@Result', 0, (F(len(m)), (m, s)))
        if n in ('Iterator::max', 'Iterator::min') and len(a) == 1:
            l = evalt.lst(go(a[0]), env)
            return ('@Option', 1, (max if n[-1] == 'x' else min)(l)) if l else ('@Option', 0)
        if n == 'Coord::promote' and len(a) == 1:
            return go(a[0])
        if n in ('Coord::epsilon', 'Zero::zero'):
            return F(0)
        if n == 'One::one':
            return F(1)
        return super().call(n, a, go, env)


def reduced2(vs):
    """a reduced basis of the planar lattice of the vectors, for the ordinary product of coordinates"""
    b = lattice(vs)
    d = lambda v, w: sum(x * y for x, y in zip(v, w))
    a, c = b
    while True:
        if d(a, a) > d(c, c):
            a, c = c, a
        k = F(round(d(a, c) / d(a, a)))
        if k == 0:
            break
        c = [y - k * x for x, y in zip(a, c)]
        if d(c, c) >= d(a, a):
            break
    out = []
    if d(a, c) > 0:
        c = [-x for x in c]
    return [a, c]


# ------------------------------------------------------------------ point groups

def closure(gens):
    n = gens[0].r
    out = [geom.ident(n)]
    i = 0
    while i < len(out):
        for g in gens:
            x = geom.mmul(out[i], g)
            if x not in out:
                out.append(x)
        i += 1
    return out


def M(*rows):
    return geom.mat([[F(x) for x in r] for r in rows])


def conj(ops, b):
    i = geom.minv(b)
    return [geom.mmul(geom.mmul(b, m), i) for m in ops]


def unimod(r, n):
    m = geom.ident(n)
    for _ in range(r.randint(1, 3)):
        i, j = r.sample(range(n), 2) if n > 1 else (0, 0)
        if i == j:
            break
        e = [list(q) for q in geom.ident(n)]
        e[i][j] = F(r.choice([1, -1]))
        m = geom.mmul(m, geom.mat(e))
    return m


PLANE = {
    'p1': [M((1, 0), (0, 1))], 'p2': [M((-1, 0), (0, -1))], 'm': [M((1, 0), (0, -1))], 'm_': [M((-1, 0), (0, 1))],
    '2mm': [M((1, 0), (0, -1)), M((-1, 0), (0, 1))], 'cm': [M((0, 1), (1, 0))], 'c2mm': [M((0, 1), (1, 0)), M((-1, 0), (0, -1))],
    '4': [M((0, -1), (1, 0))], '4mm': [M((0, -1), (1, 0)), M((1, 0), (0, -1))],
    '3': [M((0, -1), (1, -1))], '3m1': [M((0, -1), (1, -1)), M((0, -1), (-1, 0))], '31m': [M((0, -1), (1, -1)), M((0, 1), (1, 0))],
    '6': [M((1, -1), (1, 0))], '6mm': [M((1, -1), (1, 0)), M((0, 1), (1, 0))],
}
SYSTEM = {'p1': 0, 'p2': 0, 'm': 1, 'm_': 1, '2mm': 1, 'cm': 1, 'c2mm': 1, '4': 2, '4mm': 2, '3': 3, '3m1': 3, '31m': 3, '6': 3, '6mm': 3}


def order_of(m):
    x = m
    for k in range(1, 7):
        if x == geom.ident(m.r):
            return k
        x = geom.mmul(x, m)
    return 0


def axis_of(m):
    n = m.r
    s = -1 if n % 2 and geom.det(m) < 0 else 1
    z = null_cols(geom.mmap(lambda a, b: a - s * b, m, geom.ident(n)))
    if len(z) != 1:
        return None
    v = z[0]
    f = next(x for x in v if x)
    return [x / f for x in v]


def sense_of(m):
    n, o = m.r, order_of(m)
    if n == 2:
        return geom.det(m) > 0 and (o in (1, 2) or m[0][1] >= 0)
    a = axis_of(m)
    if n == 1 and o in (1, 2) or o in (1, 2) or a is None:
        return True
    for k in range(n):
        v = [F(int(i == k)) for i in range(n)]
        w = [x[0] for x in geom.mmul(m, geom.col(v))]
        d = geom.det(geom.mat([[a[i], v[i], w[i]] for i in range(n)]))
        if d != 0:
            return d > 0
    return True


def operators(tier):
    r = random.Random(11)
    out = [M((1,)), M((-1,)), M((2,))]
    for g in PLANE.values():
        ops = closure(g)
        out += ops
        out += conj(ops, unimod(r, 2))
    out += [M((1, 1), (0, 1)), M((2, 1), (1, 1)), M((1, 1), (1, 0))]
    cub = closure([M((0, -1, 0), (1, 0, 0), (0, 0, 1)), M((0, 0, 1), (1, 0, 0), (0, 1, 0)), M((-1, 0, 0), (0, -1, 0), (0, 0, -1))])
    hexa = closure([M((1, -1, 0), (1, 0, 0), (0, 0, 1)), M((0, 1, 0), (1, 0, 0), (0, 0, -1)), M((-1, 0, 0), (0, -1, 0), (0, 0, -1))])
    out += cub + hexa
    for _ in range(1 if tier == 'quick' else 8):
        out += conj(cub, unimod(r, 3)) + conj(hexa, unimod(r, 3))
    out += [M((1, 1, 0), (0, 1, 0), (0, 0, 1)), M((2, 1, 0), (1, 1, 0), (0, 0, 1))]
    res = []
    for m in out:
        if m not in res:
            res.append(m)
    return res


def fm(m):
    return '[%s]' % ' / '.join(' '.join(str(x) for x in r) for r in m)


def cols(v):
    """columns of a list of column matrices (or of lists)"""
    return [[x[0] for x in c] if isinstance(c, Mat) else list(c) for c in v]


def run(ctx):
    CTX[0] = ctx
    own = lambda g: g.file.endswith('finder.rs')

    def fields():
        a = [d for p, d in ctx.lib.adts.items() if p.endswith('finder::OperatorDetails')]
        if len(a) != 1:
            raise Und('no record of operator details')
        names = [f['name'] for f in a[0]['variants'][0]['fields']]
        want = ('matrix', 'dimension', 'axis', 'order', 'is_orientation_preserving', 'is_clockwise')
        if sorted(names) != sorted(want):
            raise Und('fields of the operator details')
        return names

    def facts_of(m):
        ax = axis_of(m)
        return dict(matrix=m, dimension=F(m.r), axis=('@Option', 0) if ax is None else ('@Option', 1, ax), order=F(order_of(m)),
                    is_orientation_preserving=int(geom.det(m) >= 0), is_clockwise=int(sense_of(m)))

    def sweepv(s, sh, **args):
        try:
            return sweep.Sweep(s, hook=sh.hook, args={A(i): v for i, v in enumerate(args.values())}, limit=200, early=True).result()
        except evalt.NoEval as e:
            raise Und('not evaluated: %s' % e)

    def details():
        f = ctx.fn('finder::OperatorDetails::from')
        names = fields()
        s = ctx.summary(f, inline_if=own)
        w = ctx.where(f)
        n = 0
        for m in operators(ctx.tier):
            for sc in (1, -2):
                if sc != 1 and (m.r == 3 and n % 3):
                    continue
                try:
                    v = sweepv(s, Fin(ctx, sc), m=m)
                except Panic:
                    raise Bad('the classification of the operator %s fails' % fm(m), w)
                if not (isinstance(v, tuple) and len(v) == 2 + len(names)):
                    raise Und('result %r' % (v,))
                got = dict(zip(names, v[2:]))
                want = facts_of(m)
                if got['matrix'] != m or got['dimension'] != m.r:
                    raise Bad('the operator %s is kept as %s of dimension %s' % (fm(m), fm(got['matrix']), got['dimension']), w)
                if got['order'] != want['order']:
                    raise Bad('the operator %s has the order %s and is given %s' % (fm(m), want['order'], got['order']), w)
                if bool(got['is_orientation_preserving']) != bool(want['is_orientation_preserving']):
                    raise Bad('the operator %s with determinant %s is taken to %s orientation' % (fm(m), geom.det(m), 'keep' if got['is_orientation_preserving'] else 'reverse'), w)
                ga = got['axis']
                ga = None if ga[1] == 0 else list(ga[2])
                wa = axis_of(m)
                ok = (ga is None) == (wa is None)
                if ok and wa is not None:
                    q = next((x / y for x, y in zip(ga, wa) if y), None) if len(ga) == len(wa) else None
                    ok = q is not None and q > 0 and all(x == q * y for x, y in zip(ga, wa))
                if not ok:
                    raise Bad('the operator %s has the axis %s and is given %s' % (fm(m), wa and fm([wa]), ga and fm([ga])), w)
                if want['order'] != 0 and bool(got['is_clockwise']) != bool(want['is_clockwise']):
                    raise Bad('the operator %s of order %s is classified as turning %s' % (fm(m), want['order'], 'clockwise' if got['is_clockwise'] else 'counterclockwise'), w)
                n += 1
        ctx.counts['operators'] = n
        return '%d operators' % n

    def system():
        f = ctx.fn('finder::crystal_system_and_basis_2d')
        names = fields()
        s = ctx.summary(f, inline_if=lambda g: own(g) and not g.short.endswith('OperatorDetails::from'))
        w = ctx.where(f)

        def det_(m):
            d = facts_of(m)
            return {i: d[k] for i, k in enumerate(names)}
        r = random.Random(3)
        n = 0
        variants = [p['name'] for q, a in ctx.lib.adts.items() if q.endswith('types::CrystalSystem') for p in a['variants']]
        for name, gens in PLANE.items():
            base = closure(gens)
            for k in range(6 if ctx.tier == 'quick' else 30):
                ops = conj(base, geom.ident(2) if k == 0 else unimod(r, 2))
                if k % 3 == 1:
                    r.shuffle(ops)
                if k % 3 == 2:
                    ops = [m for m in ops for _ in range(2)]        # a centred setting repeats the linear parts
                sh = Fin(ctx, details=det_)
                desc = '%s: %s' % (name, ', '.join(fm(m) for m in ops))
                try:
                    v = sweepv(s, sh, ops=ops)
                except Panic:
                    raise Bad('the choice of a basis fails for the group %s' % desc, w)
                if not (isinstance(v, tuple) and len(v) == 2):
                    raise Und('result %r' % (v,))
                cs, b = v
                if not (isinstance(cs, tuple) and isinstance(cs[0], str) and isinstance(cs[1], int)):
                    raise Und('system %r' % (cs,))
                if variants[cs[1]] != SYSTEMS[SYSTEM[name]]:
                    raise Bad('the group %s is taken to be %s' % (desc, variants[cs[1]]), w)
                x, y = cols(b)
                d = x[0] * y[1] - x[1] * y[0]
                bs = '(%s %s), (%s %s)' % tuple(str(q) for q in x + y)
                if d == 0:
                    raise Bad('the basis %s of the group %s is degenerate' % (bs, desc), w)
                if d < 0:
                    raise Bad('the basis %s of the group %s is left-handed' % (bs, desc), w)
                act = lambda m, v: [q[0] for q in geom.mmul(m, geom.col(v))]
                mir = [m for m in base and ops if geom.det(m) < 0]
                neg = lambda v: [-q for q in v]
                if SYSTEM[name] == 1:
                    for m in mir:
                        for v in (x, y):
                            if act(m, v) not in (v, neg(v)):
                                raise Bad('the vector %s of the basis is not along the mirrors of the group %s' % (fm([v]), desc), w)
                if SYSTEM[name] in (2, 3):
                    o = 4 if SYSTEM[name] == 2 else 3
                    if not any(order_of(m) == o and act(m, x) in (y, neg(y)) for m in ops if geom.det(m) > 0):
                        raise Bad('the second vector of the basis %s is not the image of the first under a rotation of order %d (up to the sign) of the group %s' % (bs, o, desc), w)
                    if mir and not any(act(m, x) == x for m in mir):
                        raise Bad('the basis %s does not start with a mirror direction of the group %s' % (bs, desc), w)
                n += 1
        ctx.counts['planar groups'] = n
        return '%d groups' % n

    def cell():
        f = ctx.fn('finder::primitive_cell')
        s = ctx.summary(f, inline_if=own)
        w = ctx.where(f)
        n = 0
        h = F(1, 2)
        for d, ts in ((2, []), (3, []), (2, [[h, h]]), (3, [[h, h, F(0)]]), (3, [[F(1, 3), F(2, 3), F(2, 3)], [F(2, 3), F(1, 3), F(1, 3)]]),
                      (3, [[F(0), h, h], [h, F(0), h], [h, h, F(0)]])):
            V = lambda t: Geo('V', geom.col(t))
            neg = geom.mmap(lambda x: -x, geom.ident(d))
            ops = [geom.affine(geom.ident(d), V([F(0)] * d)), geom.affine(neg, V([F(1, 4)] * d))] + [geom.affine(geom.ident(d), V(t)) for t in ts] + [geom.affine(neg, V(t)) for t in ts]
            try:
                v = sweepv(s, Fin(ctx), ops=ops)
            except Panic:
                raise Bad('the cell cannot be found for translations %s' % '; '.join(' '.join(str(x) for x in t) for t in ts), w)
            C = geom.mat(cols(v))
            B = geom.mat(lattice([[F(int(i == j)) for j in range(d)] for i in range(d)] + ts))
            q = geom.mmul(C, geom.minv(B)) if C.r == C.c == d and geom.det(C) != 0 else None
            if q is None or any(x.denominator != 1 for r_ in q for x in r_) or abs(geom.det(q)) != 1:
                raise Bad('the cell found is %s, and the pure translations are %s' % (fm(C), '; '.join(' '.join(str(x) for x in t) for t in ts) or 'none'), w)
            n += 1
        return '%d lattices' % n

    def conventional():
        f = ctx.fn('finder::normalized_basis_2d')
        s = ctx.summary(f, inline_if=own)
        w = ctx.where(f)
        variants = [p['name'] for q, a in ctx.lib.adts.items() if q.endswith('types::CrystalSystem') for p in a['variants']]
        cents = [p['name'] for q, a in ctx.lib.adts.items() if q.endswith('types::Centering') for p in a['variants']]
        n = 0
        h, t3 = F(1, 2), F(1, 3)
        cases = [('Oblique', b, True) for b in ([[F(1), F(0)], [F(0), F(1)]], [[h, h], [F(0), F(1)]], [[F(1), F(2)], [F(1, 5), F(3)]])]
        for p, q in ((F(1), F(1)), (h, F(1)), (F(3), F(1)), (F(1), F(2)), (F(1, 4), F(1)), (F(1), F(5))):
            cases.append(('Rectangular', [[p, F(0)], [F(0), q]], True))
            cases.append(('Rectangular', [[F(0), q], [p, F(0)]], True))
            cases.append(('Rectangular', [[p / 2, q / 2], [p, F(0)]], False))
            cases.append(('Rectangular', [[p / 2, q / 2], [-p / 2, q / 2]], False))
        cases += [('Square', [[F(1), F(0)], [F(0), F(1)]], True), ('Square', [[h, h], [h, -h]], True)]
        cases += [('Hexagonal', [[F(1), F(0)], [F(0), F(1)]], True), ('Hexagonal', [[2 * t3, t3], [t3, 2 * t3]], True), ('Hexagonal', [[t3, 2 * t3], [F(0), F(1)]], True)]
        for cs, b, prim in cases:
            desc = '%s lattice of (%s)' % (cs.lower(), '), ('.join(' '.join(str(x) for x in v) for v in b))
            try:
                v = sweepv(s, Fin(ctx), cs=('@CrystalSystem', variants.index(cs)), b=[geom.col(x) for x in b])
            except Panic:
                raise Bad('no conventional cell is found for the %s' % desc, w)
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and isinstance(v[1][1], int)):
                raise Und('result %r' % (v,))
            C = cols(v[0])
            cen = cents[v[1][1]]
            if cen != ('Primitive2d' if prim else 'Centered2d'):
                raise Bad('the %s is called %s' % (desc, cen), w)
            L = C if prim else C + [[(x + y) / 2 for x, y in zip(*C)]]
            cs_ = '(%s)' % '), ('.join(' '.join(str(x) for x in u) for u in C)
            if len(C) != 2 or C[0][0] * C[1][1] == C[0][1] * C[1][0]:
                raise Bad('the conventional cell %s of the %s is degenerate' % (cs_, desc), w)
            q = geom.mmul(geom.mat(lattice(L)), geom.minv(geom.mat(b)))
            if any(x.denominator != 1 for r_ in q for x in r_) or abs(geom.det(q)) != 1:
                raise Bad('the conventional cell %s does not span the %s' % (cs_, desc), w)
            if cs == 'Rectangular' and any(u[0] != 0 and u[1] != 0 for u in C):
                raise Bad('the conventional cell %s of the %s is not along the axes' % (cs_, desc), w)
            if cs == 'Square' and C[1] not in ([-C[0][1], C[0][0]], [C[0][1], -C[0][0]]) or \
               cs == 'Hexagonal' and C[1] not in ([-C[0][1], C[0][0] - C[0][1]], [C[0][1] - C[0][0], -C[0][0]]):
                raise Bad('the vectors %s of the %s are not related by a rotation' % (cs_, desc), w)
            n += 1
        return '%d lattices' % n

    ctx.ob('order, handedness, axis and sense', details)
    ctx.ob('crystal system and basis of planar groups', system)
    ctx.ob('translations of the primitive cell', cell)
    ctx.ob('conventional cells of planar lattices', conventional)
