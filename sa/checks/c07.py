"""C07: vectors, points, scalar products, affine maps and coordinate maps obey their algebra."""
import re

from .. import evalt, geom
from ..evalt import NoEval
from ..geom import Geo, Gen, Panic, Shapes, Mat, pairk
from ..mir import strip_generics
from ..rules import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: every operation summarised in closed form over its operands and compared with its textbook definition on exact instances of the summary'
RULE = ('Every public operation on vectors, points, scalar products, affine maps and coordinate maps is summarised as a closed form in its operands (all of its own file inlined) and compared with the mathematical definition on exact rational instances in one to three dimensions. '
        'Operations that call others are compared through the definition of those others, so the comparison is compositional.')
PROP = {
    'title': 'Geometric operations and coordinate changes obey their algebra',
    'statement': 'Applying a product of maps is applying one after the other; points feel the shift of an affine map and vectors only its linear part; a map composed with its inverse is the identity, and only singular maps have none. '
                 'A change of coordinates maps points, vectors, symmetry operations (by conjugation) and metrics (so that scalar products are preserved) consistently, and always carries the matching inverse.',
    'quantifier': {'over': ['inputs'], 'text': 'all dimensions, all vectors, points, metrics and maps'},
    'why_tests_cant': 'The laws quantify over all maps; tests use a few rotations of the plane whose inverse is their transpose and whose shifts often vanish.',
    'anchors': {'files': ['src/arithmetic/geometry.rs'],
                'mechanism': 'AffineMap new, inverse, products; CoordinateMap new, inverse, from_basis, to_basis, products; ScalarProduct from, apply; arithmetic of Vector and Point'},
}
TRIES = 100


def kind_of(ty):
    """kinds of value an argument of this type can take"""
    t = ty
    while t.startswith('&'):
        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    m = re.match(r'^\[(.*)\]$', t)
    if m:
        return [('list', x) for x in kind_of(m.group(1))]
    b = strip_generics(t).split('::')[-1]
    if b in geom.NAMES:
        return [geom.NAMES[b]]
    if b == 'Matrix':
        return ['M']
    if b == 'T':
        return ['T']
    if b == 'usize':
        return ['n']
    if t == '(usize, usize)':
        return ['nn']
    if b == 'Vec':
        return [('list', x) for x in kind_of(re.match(r'.*?<(.*)>$', t).group(1))]
    return None


SUMS = {'V': {'add': 'V', 'sub': 'V', 'mul': 'T', 'div': 'T'}, 'P': {'add': 'V', 'sub': 'V'}, 'A': {'mul': 'APV'}, 'C': {'mul': 'CPVSA'}}


def make(g, k, args, f):
    """an instance for an argument of kind k"""
    if isinstance(k, tuple):
        if k[1] == 'T':
            return [g.q() for _ in range(g.n)]
        if k[1] == 'V':
            m = g.reg(g.n)
            if g.r.random() < .2:
                m = g.m(g.n, g.n)
            return [geom.vec(geom.Mat((r[j],) for r in m)) for j in range(g.n)]
        raise NoEval('list of %s' % k[1])
    if k == 'nn':
        return (Fraction_(g.r.randrange(g.n)), Fraction_(g.r.randrange(g.n)))
    if k == 'n':
        if args:
            lim = int(args[0]) if isnum(args[0]) else args[0].dim()
            return Fraction_(g.r.randrange(lim + (f.name == 'unit')))
        return Fraction_(g.n)
    return g.value(k)


def isnum(x):
    return geom.isnum(x)


from fractions import Fraction as Fraction_


def meaning(f, ty, a):
    """the mathematical definition of the operation, None when it has none here"""
    n = f.name
    if n.endswith('_assign'):
        n = n[:-7]
    if n == 'add':
        return geom.lincomb([(a[0], 1), (a[1], 1)])
    if n == 'sub':
        return geom.lincomb([(a[0], 1), (a[1], -1)])
    if n == 'neg':
        return geom.lincomb([(a[0], -1)])
    if n == 'mul':
        return geom.mul(a[0], a[1])
    if n == 'div':
        return geom.div(a[0], a[1])
    if n == 'dim':
        return Fraction_(a[0].dim())
    if n == 'index' and ty in 'VP':
        if a[1] >= a[0].dim():
            raise Panic('index')
        return a[0].p[0][int(a[1])][0]
    if n == 'index' and ty == 'S':
        return a[0].p[0][int(a[1][0])][int(a[1][1])]
    if n in ('iter', 'into_iter') and ty in 'VP':
        return [r[0] for r in a[0].p[0]]
    if n == 'zero' or n == 'origin':
        return Geo(ty, geom.col([0] * int(a[0])))
    if n == 'unit':
        if a[1] >= a[0]:
            raise Panic('index')
        return Geo(ty, geom.col([int(i == a[1]) for i in range(int(a[0]))]))
    if n in ('new', 'from', 'from_iter') and ty in 'VP' and (isinstance(a[0], list) or isinstance(a[0], Mat)):
        return Geo(ty, geom.col(a[0]) if isinstance(a[0], list) else a[0])
    if ty == 'S' and n == 'default':
        return Geo('S', geom.ident(int(a[0])))
    if ty == 'S' and n == 'from':
        return geom.scalar_product(a[0])
    if ty == 'S' and n == 'apply':
        return geom.mmul(geom.mmul(geom.transp(a[1].p[0]), a[0].p[0]), a[2].p[0])[0][0]
    if ty == 'A':
        if n == 'new':
            return geom.affine(a[0], a[1])
        if n == 'linear_matrix':
            return a[0].p[0]
        if n == 'shift':
            return a[0].p[1]
        if n == 'identity':
            return geom.affine(geom.ident(int(a[0])), geom.vec(geom.col([0] * int(a[0]))))
        if n == 'is_identity':
            return int(a[0].p[0] == geom.ident(a[0].dim()) and not any(r[0] for r in a[0].p[1].p[0]))
        if n == 'inverse':
            i = geom.ainv(a[0])
            return ('@Option', 0) if i is None else ('@Option', 1, i)
        if n == 'from':
            return geom.affine(a[0], geom.vec(geom.col([0] * a[0].r)))
    if ty == 'C':
        if n == 'new':
            return geom.cmap(a[0])
        if n == 'forward':
            return a[0].p[0]
        if n == 'identity':
            return geom.cmap(geom.affine(geom.ident(int(a[0])), geom.vec(geom.col([0] * int(a[0])))))
        if n == 'is_identity':
            x = a[0].p[0]
            return int(x.p[0] == geom.ident(x.dim()) and not any(r[0] for r in x.p[1].p[0]))
        if n == 'inverse':
            return Geo('C', a[0].p[1], a[0].p[0])
        if n == 'determinant':
            return geom.det(a[0].p[0].p[0])
        if n == 'from':
            return geom.cmap(geom.affine(a[0], geom.vec(geom.col([0] * a[0].r))))
        if n in ('from_basis', 'to_basis'):
            m = Mat(sum((v.p[0][i] for v in a[0]), ()) for i in range(len(a[0])))
            c = geom.cmap(geom.affine(m, geom.vec(geom.col([0] * m.r))))
            return c if n == 'from_basis' else Geo('C', c.p[1], c.p[0])
    return None


SIGNS = {'forward', 'inverse'}


def flat(v):
    if isinstance(v, bool):
        return Fraction_(int(v))
    if isinstance(v, int):
        return Fraction_(v)
    if isinstance(v, tuple) and not isinstance(v, Mat):
        return tuple(flat(x) for x in v)
    if isinstance(v, list):
        return [flat(x) for x in v]
    return v


def describe(v):
    if isinstance(v, Geo):
        return {'V': 'vector', 'P': 'point', 'S': 'metric', 'A': 'map', 'C': 'coordinate map'}[v.k] + '(' + ', '.join(describe(x) for x in v.p) + ')'
    if isinstance(v, Mat):
        return '[' + '; '.join(' '.join(str(x) for x in r) for r in v) + ']'
    if isinstance(v, tuple) and v and v[0] == '@Option':
        return 'none' if v[1] == 0 else describe(v[2])
    if isinstance(v, (list, tuple)):
        return '(' + ', '.join(describe(x) for x in v) + ')'
    return str(v)


def selfkind(f):
    m = re.match(r"^<&?(?:'\w+ )?(.*?) as (.*)>::\w+$", f.path)
    t = m.group(1) if m else f.path.rsplit('::', 1)[0]
    return geom.NAMES.get(strip_generics(t).split('::')[-1])


def kinds(ctx, f, ty):
    """the combinations of argument kinds the function takes"""
    tys = [ctx.lib.tstr(i) for i in f.d['inputs']]
    out = [[]]
    for i, t in enumerate(tys):
        if t in ('S', '&S') and i == 1:
            op = f.name[:-7] if f.name.endswith('_assign') else f.name
            ks = list(SUMS.get(ty, {}).get(op, ''))
        elif t == 'I':
            ks = [('list', 'T')]
        else:
            ks = kind_of(t)
        if not ks:
            return None
        out = [o + [k] for o in out for k in ks]
    return out


def compare(ctx, sh, f, ty, combo, s, mismatch=False):
    good = 0
    why = None
    w = ctx.where(f)
    mutates = ctx.lib.tstr(f.d['inputs'][0]).startswith('&mut') and ctx.lib.tstr(f.d['output']) == '()'
    for seed in range(TRIES):
        g = Gen('%s%d%s' % (f.name, seed, ctx.seed))
        args = []
        try:
            for k in combo:
                if mismatch and args and seed % 2 == 0:
                    pass
                args.append(make(g, k, args, f))
            if f.name in ('new',) and ty == 'A':
                args[0] = g.m(g.n, g.n)
            try:
                want = ('return', flat(meaning_(f, ty, args)))
            except Panic:
                want = ('panic',)
            binds = {A(i): v for i, v in enumerate(args)}
            got = sh.outcome(s, binds, ('A', 0) if mutates else None)
        except NoEval as e:
            why = e
            continue
        except (IndexError, KeyError, TypeError, AttributeError, ZeroDivisionError, ValueError) as e:
            why = NoEval(repr(e))
            continue
        if got[0] == 'return':
            got = ('return', flat(got[1]))
            if isinstance(got[1], evalt.Leaf) or has_leaf(got[1]):
                why = NoEval('open form')
                continue
        if got != want:
            if got[0] == 'return' and want[0] == 'return' and same_shape(got[1], want[1]) is False:
                why = NoEval('result of another type: %s' % describe(got[1])[:80])
                continue
            raise Bad('%s of %s gives %s instead of %s' % (
                ' '.join(re.findall('[a-z]+', f.name)), ' and '.join(describe(x) for x in args),
                'a panic' if got[0] == 'panic' else describe(got[1]), 'a panic' if want[0] == 'panic' else describe(want[1])), w)
        good += 1
    if good < 5:
        raise Und('%s: %s' % (f.short, why))
    return good


def meaning_(f, ty, args):
    r = meaning(f, ty, args)
    if r is None:
        raise NoEval('no definition')
    return r


def has_leaf(v):
    if isinstance(v, evalt.Leaf):
        return True
    if isinstance(v, Geo):
        return any(has_leaf(x) for x in v.p)
    if isinstance(v, (list, tuple)):
        return any(has_leaf(x) for x in v)
    return False


def same_shape(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Geo):
        return a.k == b.k
    return True


def run(ctx):
    sh = ctx.ob('types', lambda: Shapes(ctx))
    try:
        sh = Shapes(ctx)
    except Und:
        return
    for f in ctx.lib.fns:
        if f.kind == 'Closure' or not f.file.endswith('geometry.rs') or f.d.get('derived'):
            continue
        ty = selfkind(f)
        if ty is None:
            continue
        if f.name in ('fmt', 'mod_z', 'index_mut', 'eq', 'hash', 'cmp', 'partial_cmp', 'ne', 'clone'):
            continue
        combos = kinds(ctx, f, ty)
        if not combos:
            continue
        g = Gen('p')
        label = '%s %s (%s)' % ({'V': 'vector', 'P': 'point', 'S': 'metric', 'A': 'affine map', 'C': 'coordinate map'}[ty], f.name,
                                ', '.join(ctx.lib.tstr(i).replace('arithmetic::geometry::', '').replace('arithmetic::matrices::', '') for i in f.d['inputs']))

        def one(f=f, ty=ty, combos=combos):
            try:
                a = [make(Gen('probe'), k, [], f) if k != 'n' else Fraction_(1) for k in combos[0]]
                try:
                    known = meaning(f, ty, a) is not None
                except Panic:
                    known = True
            except (NoEval, AttributeError, TypeError, IndexError):
                known = True
            if not known:
                return 'no definition of this function'
            s = ctx.summary(f, inline_if=lambda g: g.file.endswith('geometry.rs'))
            n = sum(compare(ctx, sh, f, ty, c, s) for c in combos)
            return '%d instances of %d paths' % (n, len(s.paths))
        ctx.ob(label, one)
