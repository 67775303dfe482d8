"""C18: reduced forms are canonical."""
from fractions import Fraction
from ..graphs import *
from .. import evalt, geom

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR to closed forms of the reductions; class-by-class comparison of the forms; structural rule for the reduced basis loop'
RULE = ('Every reduction modulo lattice translations is put in closed form; on instances of that form the result must differ from the argument by integers, lie in the fundamental interval and agree on all members of a class. '
        'Reduced values may be compared only with reduced values. In the reduced basis every row must be normalised at its leading column before it reduces all earlier rows at that column.')
PROP = {
    'title': 'Values equal modulo translations or row operations reduce to one form',
    'statement': 'Normalised vertex positions lie in the half-open unit cell and agree exactly for positions that differ by a lattice translation; reducing an operation keeps its linear part and changes its shift by integers only, '
                 'giving operations equal modulo translations the same result; matrices with the same row lattice or space have the same reduced basis.',
    'quantifier': {'over': ['inputs'], 'text': 'all rational positions, shifts and matrices'},
    'why_tests_cant': 'Tests reduce a few values, nearly all of them non-negative; classes are infinite.',
    'anchors': {'files': ['src/symmetries.rs', 'src/pgraphs.rs', 'src/arithmetic/geometry.rs', 'src/arithmetic/linear_algebra.rs'],
                'mechanism': 'position_normalized, mod1, ModZ::mod_z, reduced_basis'},
}

class Parts(geom.Shapes):
    def hook(self, t, env, bvs):
        if t.op in ('rem', 'rem1'):
            a = evalt.num(evalt.ev(t.args[-2] if t.op == 'rem' else t.args[0], env, bvs))
            b = evalt.num(evalt.ev(t.args[-1], env, bvs)) if t.op == 'rem' else Fraction(1)
            if b == 0:
                raise geom.Panic('division by zero')
            q = a / b
            return a - b * (q.numerator // q.denominator if q >= 0 else -(-q.numerator // q.denominator))
        return super().hook(t, env, bvs)

    def call(self, n, a, go, env):
        k = n.split('::')[-1]
        if k in ('iter', 'into_iter') and len(a) == 1:
            g = go(a[0])
            if isinstance(g, geom.Geo) and g.k in 'VP':
                return [r[0] for r in g.p[0]]
        if n.startswith('Ratio::') and len(a) == 1 and k in ('round', 'trunc', 'fract', 'ceil', 'floor'):
            x = evalt.num(go(a[0]))
            fl = Fraction(x.numerator // x.denominator)
            tr = fl if x >= 0 else -Fraction((-x).numerator // (-x).denominator)
            h = abs(x) + Fraction(1, 2)
            rd = Fraction(h.numerator // h.denominator) * (1 if x >= 0 else -1)
            return {'floor': fl, 'ceil': -Fraction((-x).numerator // (-x).denominator), 'trunc': tr, 'fract': x - tr, 'round': rd}[k]
        return super().call(n, a, go, env)


XS = [Fraction(k, 6) for k in range(-13, 14)]


def run(ctx):
    CTX[0] = ctx
    sh = Parts(ctx)

    def apply(f, s, arg, kind, x, dim):
        """closed form of the reduction applied to a value with x in every place in turn"""
        v = [Fraction(1, 3)] * dim
        out = []
        for k in range(dim):
            c = list(v)
            c[k] = x
            r = sh.outcome(s, {arg: geom.Geo(kind, geom.col(c))})
            if r[0] != 'return':
                raise Bad('%s does not return for %s' % (f.short, x), ctx.where(f))
            r = r[1]
            if not isinstance(r, geom.Geo) or r.k != kind:
                raise Und('result %r' % (r,))
            got = [y[0] for y in r.p[0]]
            if len(got) != dim:
                raise Bad('%s of %d coordinates has %d' % (f.short, dim, len(got)), ctx.where(f))
            out.append(got[k])
        if len(set(out)) != 1:
            raise Bad('%s treats the coordinates differently: %s becomes %s' % (f.short, x, ' or '.join(str(y) for y in sorted(set(out)))), ctx.where(f))
        return out[0]

    def table(f, s, arg, kind):
        return {x: apply(f, s, arg, kind, x, d) for d in (2, 3) for x in XS}

    def integers(f, tab, what):
        for x, r in tab.items():
            if (r - x).denominator != 1:
                raise Bad('%s: %s becomes %s, which does not differ from it by an integer' % (what, x, r), ctx.where(f))

    # ---------------------------------------------------------------- positions
    def unitcell(f, s, arg, kind, what):
        tab = table(f, s, arg, kind)
        integers(f, tab, what)
        for x, r in tab.items():
            if not 0 <= r < 1:
                raise Bad('%s: %s becomes %s, which is not in the unit cell' % (what, x, r), ctx.where(f))
            if x + 1 in tab and tab[x + 1] != r:
                raise Bad('%s: %s and %s become %s and %s' % (what, x, x + 1, r, tab[x + 1]), ctx.where(f))
        return '%d classes' % 6

    def positions():
        f = ctx.fn('Graph::position_normalized', 'pgraphs.rs')
        s = ctx.summary(f, inline_if=lambda g: g.file.endswith('pgraphs.rs') and not g.short.startswith('Graph::') or g.short.startswith('Point::'), **NC)
        pos = mk('call', 'Graph::position', A(0), A(1))
        return unitcell(f, s, pos, 'P', 'the normalised position')
    ctx.ob('normalised positions', positions)

    def mod1():
        fs = [g for g in ctx.lib.fns if g.file.endswith('symmetries.rs') and g.kind != 'Closure' and g.argc == 1 and
              'Point' in ctx.lib.tstr(g.d['output']) and 'Point' in ctx.lib.tstr(g.d['inputs'][0]) and 'Vec' not in ctx.lib.tstr(g.d['output'])]
        if not fs:
            raise Und('positions are reduced in another way')
        out = []
        for f in fs:
            s = ctx.summary(f, inline_if=lambda g: g.short.startswith('Point::') or g.file.endswith('symmetries.rs'))
            out.append('%s: %s' % (f.short, unitcell(f, s, A(0), 'P', 'the reduced position')))
        return '; '.join(out)
    ctx.ob('reduced positions', mod1)

    def compared():
        """reduced positions are compared with reduced positions"""
        fs = [g for g in ctx.lib.fns if g.kind != 'Closure' and g.file.endswith(('symmetries.rs', 'pgraphs.rs')) and not g.d.get('test')]
        red = lambda t: t.op == 'call' and t.args[0].split('::')[-1] in ('mod1', 'position_normalized')
        raw = lambda t: contains(t, lambda z: z.op == 'call' and z.args[0] == 'Graph::position') and not contains(t, red) and not contains(t, lambda z: z.op in ('rem1', 'floor'))
        n = 0
        for f in fs:
            try:
                s = ctx.summary(f, **NC)
            except Exception:
                continue
            seen = set()
            for p in s.paths:
                todo = [t for t, _ in p.facts()] + ([p.ret] if isinstance(p.ret, T) else [])
                for e in p.events:
                    q = [e]
                    while q:
                        x = q.pop()
                        if isinstance(x, T):
                            todo.append(x)
                        elif isinstance(x, (tuple, list)):
                            q.extend(x)
                for t in todo:
                    for x in subterms(t):
                        if x.op != 'eq' or x in seen:
                            continue
                        seen.add(x)
                        a, b = x.args[-2:]
                        if red(a) and red(b):
                            n += 1
                        for u, v in ((a, b), (b, a)):
                            if red(u) and raw(v):
                                raise Bad('a reduced position is compared with one that is not reduced: %s' % show(x), ctx.where(f))
        return '%d comparisons of reduced positions' % n
    ctx.ob('comparisons of reduced positions', compared)

    # ---------------------------------------------------------------- shifts and operations
    def modz(name, ty):
        f = pyfn(ctx, ty, 'ModZ', 'mod_z')
        return f, ctx.summary(f, inline_if=lambda g: g.file.endswith('geometry.rs'))

    def shift_ints():
        f, s = modz('mod_z', 'geometry::Vector')
        tab = table(f, s, A(0), 'V')
        integers(f, tab, 'the reduced shift')
        for x, r in tab.items():
            if abs(r) >= 1:
                raise Bad('the reduced shift of %s is %s' % (x, r), ctx.where(f))
        return '%d values' % len(tab)
    ctx.ob('reduced shifts differ by integers', shift_ints)

    def shift_same():
        f, s = modz('mod_z', 'geometry::Vector')
        tab = table(f, s, A(0), 'V')
        for x, r in tab.items():
            if x + 1 in tab and (x >= 0 or x + 1 <= 0) and tab[x + 1] != r:
                raise Bad('the shifts %s and %s become %s and %s' % (x, x + 1, r, tab[x + 1]), ctx.where(f))
        return 'agree on both sides of zero'
    ctx.ob('reduced shifts of equal sign', shift_same)

    def shift_zero():
        f, s = modz('mod_z', 'geometry::Vector')
        tab = table(f, s, A(0), 'V')
        for x in (Fraction(-1, 2), Fraction(-1, 3), Fraction(-5, 6)):
            if tab[x] != tab[x + 1]:
                raise Bad('the shifts %s and %s become %s and %s' % (x, x + 1, tab[x], tab[x + 1]), ctx.where(f))
        return 'agree across zero'
    ctx.ob('reduced shifts across zero', shift_zero)

    def maps():
        f, s = modz('mod_z', 'geometry::AffineMap')
        fv, sv = modz('mod_z', 'geometry::Vector')
        for seed in range(8):
            g = geom.Gen(seed)
            a = g.value('A', 2 + seed % 2)
            r = sh.outcome(s, {A(0): a})
            if r[0] != 'return':
                raise Bad('an operation is not reduced but the program stops', ctx.where(f))
            v = sh.outcome(sv, {A(0): geom.Geo('V', pm(a.p[1]))})
            if not isinstance(r[1], geom.Geo) or v[0] != 'return':
                raise Und('result %r' % (r[1],))
            if pm(r[1].p[0]) != pm(a.p[0]):
                raise Bad('reducing an operation changes its linear part', ctx.where(f))
            if pm(r[1].p[1]) != pm(v[1]):
                raise Bad('the shift %s of an operation is reduced to %s' % (fmt(pm(a.p[1])), fmt(pm(r[1].p[1]))), ctx.where(f))
        return 'linear part kept, shift reduced'

    def pm(x):
        while isinstance(x, geom.Geo):
            x = x.p[0]
        return x

    def fmt(m):
        return '(%s)' % ', '.join(str(r[0]) for r in m)
    ctx.ob('reduced operations', maps)

    # ---------------------------------------------------------------- reduced bases
    def basis():
        f = pyfn(ctx, 'matrices::Matrix', 'LinearAlgebra', 'reduced_basis')
        s = ctx.summary(f)
        w = ctx.where(f)
        L = phis(s)
        up = lambda t, n: t.op == 'upd' and t.args[0].split('::')[-1] == n
        reds = {}
        for p, key, new in backs(s):
            for ph, x in new.items():
                for y in subterms(x):
                    if up(y, 'reduce_column'):
                        reds.setdefault(key, []).append((p, ph, x, y))
        norms = {y for p, key, new in backs(s) for x in new.values() for y in subterms(x) if up(y, 'normalize_column')}
        if not norms:
            if any('normalize_column' in show(e) for p in s.paths for e in [x for ev in p.events for x in ev if isinstance(x, T)]) or not reds:
                raise Und('rows are not normalised in a loop')
            raise Bad('the rows of the reduced basis are not normalised', w)
        if not reds:
            raise Bad('earlier rows are not reduced', w)
        # rows that reduce others are normalised
        for key, rs in reds.items():
            for p, ph, x, y in rs:
                b = y.args[4]
                if b.op == 'idx' and b.args[0] in L and not any(up(z, 'normalize_column') for z in subterms(L[b.args[0]])):
                    raise Bad('earlier rows are reduced by a row that is not normalised yet', w)
        for p, key, new in backs(s):
            for ph, x in new.items():
                mine = any(up(z, 'normalize_column') for z in subterms(x))
                if not mine and any(any(up(z, 'normalize_column') for z in subterms(m.get(ph, ph))) for q, k, m in backs(s) if k == key and m.get(ph) is not None and m[ph].op in ('store', 'stores')):
                    fs = [(t, v) for t, v in own_facts(p, key)]
                    if x is ph or x.op in ('store', 'stores'):
                        raise Bad('a row is not normalised%s' % (' when %s = %s' % (show(fs[-1][0]), fs[-1][1]) if fs else ''), w)
        # the outermost loop with the closed form of the inner one
        n = 0
        for key, rs in reds.items():
            for p, ph, x, y in rs:
                col, tgt, b = y.args[2:5]
                if x.op != 'stores':
                    continue
                base, cp = x.args
                if cp.op != 'comp' or cp.args[0] != 'map' or len(cp.args[3]) != 1:
                    raise Und('reduced rows %s' % show(cp))
                cnt, bv, ((conds, val),) = cp.args[1:4]
                if not (val.op == 'agg' and len(val.args) == 4):
                    raise Und('reduced rows %s' % show(val))
                at = val.args[2]
                rowix = [z for z in subterms(base) if z.op == 'ix' and z.args[0] == key]
                if len(set(rowix)) != 1:
                    raise Und('row index')
                r = rowix[0]
                if not up(b, 'normalize_column'):
                    if b is canon(E.getidx(ph, r)) or b.op == 'idx':
                        raise Bad('earlier rows are reduced by a row that is not normalised', w)
                    raise Und('reduced by %s' % show(b))
                nc, nr = b.args[2:4]
                if nr is not canon(E.getidx(ph, r)):
                    raise Und('normalised row %s' % show(nr))
                if nc is not col:
                    raise Bad('a row is normalised at one column and reduces the others at another', w)
                if not lead(p, ph, r, col):
                    raise Und('column %s' % show(col))
                if conds:
                    raise Und('only some rows are reduced: %s' % show(conds[0][0]))
                # the rows reduced
                ixv = lambda z, rr, k: evalt.num(evalt.ev(z, evalt.Env(0, bind={r: Fraction(rr), bv: Fraction(k)})))
                for rr in range(4):
                    c = int(evalt.num(evalt.ev(cnt, evalt.Env(0, bind={r: Fraction(rr), t_len(ph): Fraction(5), **lens(cnt)}))))
                    got = sorted(int(ev_bv(at, bv, k, {r: Fraction(rr)})) for k in range(c))
                    if got != list(range(rr)):
                        raise Bad('row %d of the reduced basis reduces rows %s instead of all earlier ones' % (rr, got), w)
                if not (base.op == 'store' and base.args[1] is r and base.args[2] is b):
                    raise Und('the row kept is %s' % show(base))
                over_all(r, L_end(ph, L), 'rows', w)
                n += 1
        if not n:
            raise Und('earlier rows are not reduced in closed form')
        return '%d closed forms' % n

    def lens(t):
        return {z: Fraction(5) for z in subterms(t) if z.op == 'len'}

    def ev_bv(t, bv, k, binds):
        e = evalt.Env(0, bind=binds)
        return evalt.num(evalt.ev(t, e, ((bv, Fraction(k)),)))

    def lead(p, ph, r, col):
        z = canon(mk('eq', INT(0), E.getidx(E.getidx(ph, r), col)))
        return any(t is z and v == 0 for t, v in p.facts())

    def L_end(ph, L):
        return L[ph] if ph in L else ph
    ctx.ob('reduced bases', basis)
