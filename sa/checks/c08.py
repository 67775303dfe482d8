"""C08: operands of different shape are rejected."""
import re

from .. import evalt, geom
from ..evalt import NoEval
from ..geom import Geo, Gen, Panic, Shapes, Mat
from ..rules import *
from ..graphs import NC
from . import c07
from fractions import Fraction

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: every operation on two shaped operands summarised with its failing paths, and decided on instances of the summary with mismatched shapes'
RULE = ('Every operation that combines or addresses shaped values is summarised with all its failing paths (own file inlined). On instances with mismatched shapes or indices out of range, the summary must take a failing path; '
        'for the elimination routines, whose loops have no closed form, a failing path must exist whose conditions hold for mismatched operands.')
PROP = {
    'title': 'Operands of different shape are rejected, never truncated or padded',
    'statement': 'Combining matrices, vectors, points or maps whose shapes do not fit, or addressing a row, column or entry outside a matrix, fails visibly. No operation silently truncates, pads, or reads an element of another row.',
    'quantifier': {'over': ['inputs'], 'text': 'all operands of all shapes, all indices'},
    'why_tests_cant': 'Tests combine fitting operands except for a few; flat storage makes a missing check read a neighbouring element instead of failing.',
    'anchors': {'files': ['src/arithmetic/matrices.rs', 'src/arithmetic/geometry.rs', 'src/arithmetic/linear_algebra.rs', 'src/arithmetic/modular_solver.rs', 'src/spacegroups/lattices.rs'],
                'mechanism': 'the shape assertions of matrix, vector and map arithmetic, indexing, stacking, elimination and modular products'},
}


def frac(n):
    return Fraction(n)


def mismatched(f, ty, combo, g):
    """arguments whose shapes do not fit, or None"""
    r = g.r
    n = g.n
    k = r.choice([x for x in (1, 2, 3, 4) if x != n])
    name = f.name[:-7] if f.name.endswith('_assign') else f.name
    if ty in geom.NAMES.values():
        if name in ('index', 'index_mut'):
            v = g.value(ty)
            if ty in 'VP':
                return [v, frac(n + r.randrange(3))]
            i, j = n + r.randrange(2), r.randrange(n)
            return [v, (frac(i), frac(j)) if r.random() < .5 else (frac(j), frac(i))]
        if name == 'unit':
            return [frac(n), frac(n + r.randrange(3))]
        if ty == 'A' and name == 'new':
            m = r.choice([g.m(n, k), g.m(k, n), g.m(k, k)])
            return [m, g.value('V', n)]
        if name == 'from' and ty in 'SAC' and combo == ['M']:
            return [g.m(n, k)]
        if name in ('from_basis', 'to_basis'):
            return [[g.value('V', n) for _ in range(k)]] if r.random() < .6 else [[g.value('V', n if i else k) for i in range(max(n, 2))]]
        if name == 'apply':
            return [g.value('S', n)] + r.choice([[g.value('V', k), g.value('V', n)], [g.value('V', n), g.value('V', k)], [g.value('V', k), g.value('V', k)]])
        if len(combo) == 2 and name in ('add', 'sub', 'mul') and all(isinstance(x, str) and x in 'VPSACM' for x in combo):
            return [g.value(combo[0], n), g.value(combo[1], k)]
        return None
    if ty == 'M':
        a = g.m(n, r.choice([1, 2, 3]))
        if name in ('add', 'sub') and combo == ['M', 'M']:
            while True:
                b = g.m(r.choice([1, 2, 3]), r.choice([1, 2, 3]))
                if (b.r, b.c) != (a.r, a.c):
                    return [a, b]
        if name == 'mul' and combo == ['M', 'M']:
            return [a, g.m(r.choice([x for x in (1, 2, 3, 4) if x != a.c]), r.choice([1, 2, 3]))]
        if name in ('index', 'index_mut'):
            return [a, r.choice([(frac(r.randrange(a.r)), frac(a.c + r.randrange(2))), (frac(a.r + r.randrange(2)), frac(r.randrange(a.c)))])]
        if name == 'get_row':
            return [a, frac(a.r + r.randrange(2))]
        if name == 'get_col':
            return [a, frac(a.c + r.randrange(2))]
        if name == 'hstack':
            return [[a, g.m(r.choice([x for x in (1, 2, 3) if x != a.r]), 2)][::r.choice([1, -1])]]
        if name == 'vstack':
            return [[a, g.m(2, r.choice([x for x in (1, 2, 3) if x != a.c]))][::r.choice([1, -1])]]
        if name == 'submatrix':
            ok = ('@Range', None, frac(0), frac(1))
            c = r.random() < .5
            bad = ('@Range', None, frac(r.randrange(2)), frac((a.c if c else a.r) + 1 + r.randrange(2)))
            return [a, ok, bad] if c else [a, bad, ok]
        if name == 'unit_vector':
            return [frac(n), frac(n + r.randrange(3))]
        if name == 'new':
            c = r.choice([2, 3])
            return [frac(c), [g.q() for _ in range(c * n + r.randrange(1, c))]]
        if name == 'reshape':
            a = g.m(n, 1)
            return [a, frac(n + 1)]
        if name == 'determinant':
            return [g.m(n, k)]
    return None


def matrix_kinds(ctx, f):
    out = []
    for i, t in enumerate(f.d['inputs']):
        t = ctx.lib.tstr(t)
        if t in ('S', '&S') and i == 1:
            out.append('M')
            continue
        out.append((c07.kind_of(t) or ['?'])[0])
    return out


def fails(ctx, sh, f, ty, combo, s, tries=60):
    good = 0
    why = None
    mutates = ctx.lib.tstr(f.d['inputs'][0]).startswith('&mut') and ctx.lib.tstr(f.d['output']) == '()'
    for seed in range(tries):
        g = Gen('%s-%d-%s' % (f.name, seed, ctx.seed))
        try:
            args = mismatched(f, ty, combo, g)
            if args is None:
                return None
            binds = {A(i): v for i, v in enumerate(args)}
            if f.name == 'index_mut':
                got = ('panic',) if paths_apply(sh, s, binds) else ('return', 0)
            else:
                got = sh.outcome(s, binds, ('A', 0) if mutates else None)
        except geom.Malformed as e:
            raise Bad('%s produces a %s' % (' '.join(re.findall('[a-z]+', f.name)), e), ctx.where(f))
        except NoEval as e:
            if isinstance(e, evalt.Oob):
                good += 1
                continue
            why = e
            continue
        except (IndexError, KeyError, TypeError, AttributeError, ZeroDivisionError, ValueError) as e:
            why = NoEval(repr(e))
            continue
        if got[0] == 'return':
            raise Bad('%s accepts %s' % (' '.join(re.findall('[a-z]+', f.name)), ' and '.join(c07.describe(x) if not (isinstance(x, tuple) and x and x[0] == '@Range') else 'the range %s to %s' % (x[2], x[3]) for x in args)), ctx.where(f))
        good += 1
    if good < tries * 9 // 10:
        raise Und('%s: %s' % (f.short, why))
    return good


def paths_apply(sh, s, binds):
    """some failing path applies"""
    return any(p.kind == 'panic' and sh.applies(p, binds) for p in s.paths)


def guarded(ctx, sh, f, s, instances):
    """for every mismatched instance there is a failing path with a decidable reason"""
    for n, args in enumerate(instances):
        binds = {A(i): v for i, v in enumerate(args)}
        ok = False
        for p in s.paths:
            if p.kind != 'panic':
                continue
            fs = p.facts()
            if not fs:
                continue
            ixs = sorted({x for q, _ in fs for x in subterms(q) if x.op == 'ix'}, key=lambda x: x.id)
            if any(freeb for q, _ in fs for freeb in geom.freebv(q)):
                # inside a mapped sequence: some element
                bvs = {x for q, _ in fs for x in geom.freebv(q)}
                choice = [dict(zip(bvs, [Fraction(i)] * len(bvs))) for i in range(4)]
            else:
                choice = [{}]
            try:
                chs = [dict(c, **{}) for c in sh.choices(ixs, binds)]
            except NoEval:
                continue
            for c in chs:
                for b in choice:
                    e = dict(c)
                    e.update(b)
                    if reason(sh, fs, e):
                        ok = True
                        break
                if ok:
                    break
            if ok:
                break
        if not ok:
            raise Bad('%s has no check that rejects %s' % (' '.join(re.findall('[a-z]+', f.name)), ' and '.join(c07.describe(x) for x in args if not isinstance(x, str))), ctx.where(f))
    return '%d mismatched instances meet a failing path' % len(instances)


def reason(sh, fs, binds):
    """all decidable conditions hold, and the last one is decidable"""
    last = None
    for q, v in fs:
        try:
            env = sh.env(binds)
            r = bool(evalt.fact_val(q, v, env))
        except (NoEval, IndexError, KeyError, TypeError, AttributeError):
            last = None
            continue
        except Panic:
            return True
        if not r:
            return False
        last = r
    return bool(last)


def has_len(q, base):
    """a length of something reached from the argument"""
    return any(x.op == 'len' and base in subterms(x) for x in subterms(q))


def rows(*r):
    return [[Fraction(x) for x in q] for q in r]


def run(ctx):
    try:
        sh = Shapes(ctx)
    except Und as e:
        def types(e=e):
            raise e
        ctx.ob('types', types)
        return
    for f in ctx.lib.fns:
        if f.kind == 'Closure' or f.d.get('derived'):
            continue
        if f.file.endswith('geometry.rs'):
            ty = c07.selfkind(f)
            combos = c07.kinds(ctx, f, ty) if ty else None
            if f.name == 'index_mut' and ty:
                combos = [['?', '?']]
        elif f.file.endswith('matrices.rs') and 'Matrix' in f.path:
            ty = 'M'
            combos = [matrix_kinds(ctx, f)]
        else:
            continue
        if not ty or not combos:
            continue
        combos = [c for c in combos if probe(f, ty, c)]
        if not combos:
            continue

        def one(f=f, ty=ty, combos=combos):
            own = f.file
            if f.name == 'index_mut':
                s = ctx.summary(f, inline_if=lambda g: g.file == own or g.file.endswith('matrices.rs'))
            else:
                s = ctx.summary(f, inline_if=lambda g: g.file == own)
            try:
                n = sum(fails(ctx, sh, f, ty, c, s) or 0 for c in combos)
            except Und:
                # with the called operations at their meaning (they have their own obligations)
                s = ctx.summary(f, inline_if=lambda g: ctx.is_new(g) or g.file == own and 'Mul' in f.path and 'Mul' in g.path, **NC)
                n = sum(fails(ctx, sh, f, ty, c, s) or 0 for c in combos)
            return '%d mismatched instances of %d paths, all fail' % (n, len(s.paths))
        ctx.ob('%s (%s)' % (f.short, ', '.join(ctx.lib.tstr(i).split('::')[-1] if '<' not in ctx.lib.tstr(i) else strip(ctx.lib.tstr(i)) for i in f.d['inputs'])), one)

    infile_ = lambda *fs: (lambda g: any(g.file.endswith(x) for x in fs))
    nonsq = [[geom.mat([[1, 2, 3], [4, 5, 6]])], [geom.mat([[1, 2], [3, 4], [5, 6]])], [geom.mat([[1, 0, 0, 0]])]]

    def det():
        f = the(ctx, 'determinant', 'linear_algebra.rs')
        s = ctx.summary(f)
        return '%d' % fails(ctx, sh, f, 'M', ['M'], s)
    ctx.ob('determinant of a matrix that is not square', det)

    def inverse():
        f = the(ctx, 'inverse', 'linear_algebra.rs')
        s = ctx.summary(f, inline_if=lambda g: g.name == 'solve' and g.file.endswith('linear_algebra.rs') or g.file.endswith('matrices.rs') and g.name in ('hstack', 'shape') or ctx.is_new(g))
        return guarded(ctx, sh, f, s, nonsq)
    ctx.ob('inverse of a matrix that is not square', inverse)

    def solve():
        f = the(ctx, 'solve', 'linear_algebra.rs')
        s = ctx.summary(f, inline_if=lambda g: g.file.endswith('matrices.rs') and g.name in ('hstack', 'shape') or ctx.is_new(g))
        return guarded(ctx, sh, f, s, [[geom.mat([[1, 2], [3, 4]]), geom.mat([[1], [2], [3]])], [geom.mat([[1, 2], [3, 4], [4, 5]]), geom.mat([[1, 2]])]])
    ctx.ob('systems whose sides have different numbers of rows', solve)

    def extend():
        f = ctx.fn('extend_basis', public=True)
        s = ctx.summary(f, inline_if=lambda g: ctx.is_new(g))
        lens = [x for p in s.paths if p.kind == 'panic' for q, _ in p.facts() for x in [q] if has_len(q, A(0)) and has_len(q, A(1))]
        if not lens:
            raise Bad('extend basis has no check that compares the length of the vector with the lengths of the basis vectors', ctx.where(f))
        passed = {(q, v) for p in s.paths if p.kind != 'panic' for q, v in p.facts() if isinstance(v, int)}
        for lv, lb in ((2, 3), (3, 2), (0, 1), (4, 2)):
            hit = und = False
            for p in s.paths:
                if p.kind != 'panic':
                    continue
                for q, v in p.facts():
                    if not (has_len(q, A(0)) and has_len(q, A(1))) or (q, v) in passed:
                        continue
                    b = {}
                    for x in subterms(q):
                        if x.op == 'len' and contains(x, lambda y: y is A(0)):
                            b[x] = Fraction(lv)
                        elif x.op == 'len' and contains(x, lambda y: y is A(1)) and x.args[0] is not A(1):
                            b[x] = Fraction(lb)
                    env = evalt.Env(0, bind=b)
                    env.strict = True
                    try:
                        hit = hit or bool(evalt.fact_val(q, v, env))
                    except (NoEval, IndexError, KeyError, TypeError, AttributeError):
                        und = True
            if not hit and und:
                raise Und('condition on the lengths')
            if not hit:
                raise Bad('extend basis has no check that rejects a vector with %d entries for a basis of vectors with %d' % (lv, lb), ctx.where(f))
        return '%d failing paths compare the lengths' % len(lens)
    ctx.ob('extending a basis by a vector of another length', extend)

    def labels(d):
        f = pyfn(ctx, 'pgraphs::LabelVector%dd' % d, 'LabelVector', 'from_vec')
        s = ctx.summary(f, inline_if=lambda g: g.file.endswith('pgraphs.rs'))
        L = canon(t_len(A(0)))
        for n in range(7):
            if n == d:
                continue
            env = evalt.Env(0, bind={L: Fraction(n)})
            env.strict = True
            for p in s.paths:
                if p.kind != 'return':
                    continue
                try:
                    r = all(evalt.fact_val(q, v, env) for q, v in p.facts())
                except (NoEval, IndexError, KeyError, TypeError, AttributeError) as e:
                    raise Und(str(e))
                if r:
                    raise Bad('a label with %d components is made from a list of %d numbers' % (d, n), ctx.where(f))
        return '6 wrong lengths are rejected'
    for d in (2, 3):
        ctx.ob('labels with %d components made from lists of other lengths' % d, labels, d)

    def dirichlet():
        f = ctx.fn('dirichlet_vectors', public=True)
        s = ctx.summary(f, inline_if=lambda g: ctx.is_new(g))
        return guarded(ctx, sh, f, s, [[rows([1, 2, 3], [1, 2, 4])], [rows([1, 2], [1, 2, 4])], [rows([1, 0], [0, 1], [1, 1])]])
    ctx.ob('lattice bases of too few or too many vectors', dirichlet)

    ms = 'modular_solver.rs'
    for n, inst in (('modular_matrix_product', [[rows([1, 2], [3, 4]), rows([1], [2], [3]), Fraction(7)], [rows([1, 2, 3], [3, 4, 5]), rows([1, 2], [2, 1]), Fraction(7)]]),
                    ('integer_matrix_product', [[rows([1, 2], [3, 4]), rows([1], [2], [3])], [rows([1, 2, 3], [3, 4, 5]), rows([1, 2], [2, 1])]])):
        def product(n=n, inst=inst):
            f = ctx.fn(n, ms, public=True)
            s = ctx.summary(f, inline_if=infile_(ms))
            return guarded(ctx, sh, f, s, inst[:1])
        ctx.ob('products of matrices that do not fit: %s' % n, product)

    def modinv():
        f = ctx.fn('modular_matrix_inverse', ms, public=True)
        s = ctx.summary(f, inline_if=infile_(ms))
        return guarded(ctx, sh, f, s, [[rows([1, 2, 3], [3, 4, 5]), Fraction(7)], [rows([1, 2], [3, 4, 5]), Fraction(7)]])
    ctx.ob('modular inverse of a matrix that is not square', modinv)


def strip(t):
    from ..mir import strip_generics
    return ('&' if t.startswith('&') else '') + strip_generics(t).split('::')[-1]


def the(ctx, name, file):
    r = [f for f in ctx.lib.fns if f.name == name and f.kind != 'Closure' and f.file.endswith(file) and 'LinearAlgebra' in f.path]
    if len(r) != 1:
        raise Und('%d functions named %s' % (len(r), name))
    return r[0]


def probe(f, ty, combo):
    try:
        return mismatched(f, ty, combo, Gen('probe')) is not None
    except (NoEval, Panic):
        return True
