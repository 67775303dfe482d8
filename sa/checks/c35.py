"""C35: the primitive setting of a group has all its translations as lattice and all its operations once."""
import random
from fractions import Fraction
from ..graphs import *
from .. import evalt, geom, sweep
from ..geom import Geo, Mat, Panic
from .c30 import Maps

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: translations, cell, coordinate change and operations in closed form, compared with the definition on instances of the closed form'
RULE = ('The vectors handed to the lattice basis, the coordinate change and the listed operations are closed forms over the given operations; on groups with and without centering translations the cell must span the lattice of '
        'the unit vectors and all pure translations, the coordinate change must be the one to that cell, and the operations must be the reduced images of all given ones, each once. The construction may not fail.')
PROP = {
    'title': 'The primitive setting keeps every translation and every operation',
    'statement': 'The primitive setting of a group has a cell that spans exactly the lattice of the unit translations and of all pure translations of the group, also when the group has no centering; its coordinate change is the one to that cell, '
                 'and its operations are the images of all given operations under the change, reduced modulo translations, each listed once.',
    'quantifier': {'over': ['inputs'], 'text': 'all lists of operations of space groups in any setting and dimension'},
    'why_tests_cant': 'One test constructs the setting of one planar group.',
    'anchors': {'files': ['src/spacegroups/basics.rs'], 'mechanism': 'PrimitiveSetting::new: pure translations, rational lattice basis, change of coordinates, reduced operations'},
}


def lattice(vecs):
    """rows of a basis of the integer span of rational vectors (echelon form)"""
    rows = [list(v) for v in vecs]
    out = []
    n = len(rows[0])
    for c in range(n):
        while True:
            nz = sorted((r for r in rows if r[c] != 0), key=lambda r: abs(r[c]))
            if not nz:
                break
            p = nz[0]
            rest = nz[1:]
            if not rest:
                out.append(p)
                rows = [r for r in rows if r is not p]
                break
            for r in rest:
                k = (r[c] / p[c]).__floor__()
                for j in range(n):
                    r[j] -= k * p[j]
    return out


def reduced(a):
    return Geo('A', a.p[0], Geo('V', geom.mmap(lambda x: x - x.__floor__(), a.p[1].p[0])))


class Prim(Maps):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.fixed = {}         # terms that do not depend on a loop
        self.vals = {}

    def hook(self, t, env, bvs):
        if t.op in ('call', 'comp', 'npoly', 'collect'):
            f = self.fixed.get(t)
            if f is None:
                f = self.fixed[t] = not any(x.op in ('phi', 'ix') for x in subterms(t)) and not geom.freebv(t)
            if f:
                if t not in self.vals:
                    v = self.hook_(t, env, bvs)
                    if v is NotImplemented:
                        return v
                    self.vals[t] = v
                return self.vals[t]
        return self.hook_(t, env, bvs)

    def hook_(self, t, env, bvs):
        if t.op in ('contains', 'sinsert'):
            v, x = (evalt.ev(y, env, bvs) for y in t.args[:2])
            if isinstance(v, (frozenset, list)):
                if isinstance(x, Mat) or isinstance(x, Geo):
                    return int(x in v) if t.op == 'contains' else frozenset(v) | {x}
        return super().hook(t, env, bvs)

    def call(self, n, a, go, env):
        n = '::'.join(n.split('::')[-2:])
        if n.endswith('rational_lattice_basis') and len(a) == 1:
            vs = [list(v) for v in evalt.lst(go(a[0]), env)]
            if not vs:
                raise Panic('lattice of no vectors')
            d = len(vs[0])
            return lattice(vs + [[Fraction(int(i == j)) for j in range(d)] for i in range(d)])
        if n in ('ModZ::mod_z', 'AffineMap::mod_z') and len(a) == 1:
            g = go(a[0])
            if isinstance(g, Geo) and g.k == 'A':
                return reduced(g)
        if n in ('Vector::zero', 'Point::origin') and len(a) == 1:
            return Geo(n[0], geom.col([Fraction(0)] * evalt.nat(go(a[0]))))
        if n in ('Vector::into_iter', 'Vector::iter') and len(a) == 1:
            g = go(a[0])
            if isinstance(g, Geo) and g.k == 'V':
                return [r[0] for r in g.p[0]]
        if n in ('Vector::is_zero', 'Zero::is_zero') and len(a) == 1:
            g = go(a[0])
            if isinstance(g, Geo) and g.k == 'V':
                return int(all(r[0] == 0 for r in g.p[0]))
        if n == 'Vector::new' and len(a) == 1:
            return Geo('V', geom.col(evalt.lst(go(a[0]), env)))
        if n in ('AffineMap::identity',) and len(a) == 1:
            d = evalt.nat(go(a[0]))
            return geom.affine(geom.ident(d), Geo('V', geom.col([Fraction(0)] * d)))
        if n in ('CoordinateMap::to_basis', 'CoordinateMap::from_basis') and len(a) == 1:
            vs = [v.p[0] for v in evalt.lst(go(a[0]), env)]
            if not vs or any(v.r != len(vs) for v in vs):
                raise Panic('cell')
            m = geom.Mat(sum((v[i] for v in vs), ()) for i in range(len(vs)))
            c = geom.cmap(geom.affine(m, Geo('V', geom.col([Fraction(0)] * len(vs)))))
            return Geo('C', c.p[1], c.p[0]) if n.endswith('to_basis') else c
        return super().call(n, a, go, env)


def groups(seed, count):
    r = random.Random(seed)
    F = Fraction
    out = []
    for k in range(count):
        d = 2 if k % 3 == 0 else 3
        perms = []
        while len(perms) < 1 + k % 3:
            q = list(range(d))
            r.shuffle(q)
            sg = [r.choice([1, -1]) for _ in q]
            m = geom.mat([[F(sg[i] if q[i] == j else 0) for j in range(d)] for i in range(d)])
            if m != geom.ident(d) or k % 5 == 0:
                perms.append(m)
        ts = []
        if k % 2:
            ts = [[r.choice([F(0), F(1, 2), F(1, 2)]) for _ in range(d)]]
        elif k % 4 == 0:
            ts = [[F(1, 3), F(2, 3)] + [F(r.randint(0, 2), 3)] * (d - 2)]
        if k % 7 == 3:
            ts += [[F(0)] * (d - 1) + [F(1, 4)]]
        V = lambda t: Geo('V', geom.col(t))
        ident = geom.ident(d)
        ops = [geom.affine(ident, V([F(0)] * d))]
        for t in ts:
            ops.append(geom.affine(ident, V(t)))
            if r.random() < .5:
                ops.append(geom.affine(ident, V([(x + x) - (x + x).__floor__() for x in t])))
        for m in perms:
            s = [r.choice([F(0), F(0), F(1, 2), F(1, 4)]) for _ in range(d)]
            ops.append(geom.affine(m, V(s)))
            for t in ts:
                ops.append(geom.affine(m, V([(a + b) - (a + b).__floor__() for a, b in zip(s, t)])))
        if r.random() < .6:
            x = ops[1:]
            r.shuffle(x)
            ops = ops[:1] + x
        if r.random() < .2:
            r.shuffle(ops)
        out.append(ops)
    return out


def large():
    """all signed permutations with a face centring"""
    import itertools
    F = Fraction
    h = F(1, 2)
    out = []
    for q in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            m = geom.mat([[F(sg[i] if q[i] == j else 0) for j in range(3)] for i in range(3)])
            for t in ((0, 0, 0), (0, h, h), (h, 0, h), (h, h, 0)):
                out.append(geom.affine(m, Geo('V', geom.col([F(x) for x in t]))))
    return out


def super_(ns, seed):
    """all translations of a cell that is ns times as large, with an inversion and its images"""
    import itertools
    F = Fraction
    r = random.Random(seed)
    d = len(ns)
    V = lambda t: Geo('V', geom.col(t))
    ts = [[F(i, n) for i, n in zip(q, ns)] for q in itertools.product(*[range(n) for n in ns])]
    ops = [geom.affine(geom.ident(d), V(t)) for t in ts] + [geom.affine(geom.mmap(lambda x: -x, geom.ident(d)), V(t)) for t in ts]
    x = ops[1:]
    r.shuffle(x)
    return ops[:1] + x


def shown(ops):
    if len(ops) > 12:
        return shown(ops[:6]) + '; ... (%d)' % len(ops)
    return '; '.join('[%s | %s]' % (' / '.join(' '.join(str(y) for y in q) for q in a.p[0]), ' '.join(str(x[0]) for x in a.p[1].p[0])) for a in ops)


def run(ctx):
    CTX[0] = ctx

    def setting():
        f = ctx.fn('PrimitiveSetting::new', public=False)
        s = ctx.summary(f, inline_if=lambda g: g.file.endswith('basics.rs'))
        w = ctx.where(f)
        n = 0
        for ops in [large(), super_((3, 2, 2), 1), super_((5, 4), 2), super_((1, 7, 1), 3)] + groups(5, 40 if ctx.tier == 'quick' else 400):
            sh = Prim(ctx)
            d = ops[0].dim()
            try:
                v = sweep.Sweep(s, hook=sh.hook, args={A(0): list(ops)}, limit=200, early=True).result()
            except evalt.NoEval as e:
                raise Und('not evaluated: %s' % e)
            except Panic:
                raise Bad('the construction fails for the operations %s' % shown(ops), w)
            if not (isinstance(v, tuple) and isinstance(v[0], str)):
                raise Und('result %r' % (v,))
            fs = list(v[2:])
            cell = [x for x in fs if isinstance(x, list) and x and all(isinstance(y, Geo) and y.k == 'V' for y in x)]
            listed = [x for x in fs if isinstance(x, list) and x and all(isinstance(y, Geo) and y.k == 'A' for y in x)]
            to = [x for x in fs if isinstance(x, Geo) and x.k == 'C']
            if any(isinstance(x, list) and not x for x in fs):
                raise Bad('the cell or the list of operations is empty for %s' % shown(ops), w)
            if len(cell) != 1 or len(listed) != 1 or len(to) != 1:
                raise Und('parts of the setting')
            cell, listed, to = cell[0], listed[0], to[0]
            unit = [[Fraction(int(i == j)) for j in range(d)] for i in range(d)]
            pure = [[x[0] for x in a.p[1].p[0]] for a in ops if a.p[0] == geom.ident(d)]
            B = geom.mat(lattice(unit + pure))
            C = geom.mat([[x[0] for x in y.p[0]] for y in cell])
            q = geom.mmul(C, geom.minv(B)) if C.r == d == C.c else None
            if q is None or any(x.denominator != 1 for r_ in q for x in r_) or abs(geom.det(q)) != 1:
                raise Bad('the cell is %s for the operations %s, whose pure translations span a lattice with basis %s'
                          % ('; '.join(' '.join(str(x) for x in r_) for r_ in C), shown(ops), '; '.join(' '.join(str(x) for x in r_) for r_ in B)), w)
            want = geom.cmap(geom.affine(geom.minv(geom.transp(C)), Geo('V', geom.col([Fraction(0)] * d))))
            if to != want:
                raise Bad('the coordinate change does not lead to the cell for the operations %s' % shown(ops), w)
            img = []
            for a in ops:
                x = reduced(geom.mul(want, a))
                if x not in img:
                    img.append(x)
            for x in img:
                if x not in listed:
                    raise Bad('the operations %s are given, and %s is missing in the primitive setting' % (shown(ops), shown([x])), w)
            for x in listed:
                if x not in img:
                    raise Bad('the operations %s are given, and %s is listed in the primitive setting' % (shown(ops), shown([x])), w)
            if len(set(listed)) != len(listed):
                raise Bad('an operation is listed twice for %s' % shown(ops), w)
            n += 1
        ctx.counts['instances'] = n
        return '%d groups' % n

    ctx.ob('cell, change of coordinates and operations', setting)
