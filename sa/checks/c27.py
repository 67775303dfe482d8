"""C27: exact solutions by modular inversion and p-adic lifting."""
import math
import random
from fractions import Fraction as Q
from ..graphs import *
from .. import evalt
from ..evalt import NoEval

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR; polynomial loop invariants modulo p and h; transition relations of elimination and lifting loops compared with their defining congruences on instances of the closed forms'
RULE = ('Every loop of the solver is an obligation on one arbitrary round: the Euclidean loops keep their congruence (polynomial identity, quotients arbitrary); a round of the elimination moves a pivot from the rows not used yet '
        'into place, scales it to one, clears every other row and uses up the row exactly when there is a pivot; entries become residues; a lifting round adds the next digits and divides the exact residual. '
        'The number of rounds must reach the bound that makes the reconstructed fraction unique.')
PROP = {
    'title': 'Exact solutions by modular inversion and p-adic lifting are correct',
    'statement': 'Modular inverses are inverses in range and are absent exactly for non-units; modular row echelon forms and matrix inverses are correct for every integer matrix, negative entries and dependent columns included. '
                 'The lifted solver keeps that the digits so far and the residual add up to the right-hand side, uses enough digits for the fraction to be unique, reconstructs numerator and denominator congruent to them, '
                 'and gives no answer when the matrix is not invertible modulo the prime.',
    'quantifier': {'over': ['inputs'], 'text': 'all integer matrices and right-hand sides within the integer range'},
    'why_tests_cant': 'Tests solve a few small positive systems with invertible leading minors; column swaps, missing pivots, signs and the digit bound depend on unboundedly many inputs.',
    'anchors': {'files': ['src/arithmetic/modular_solver.rs'], 'mechanism': 'modular inverse; echelon form; matrix inverse and products; number of p-adic steps; rational reconstruction; solve'},
}
FILE = 'modular_solver.rs'
MI, REF, MMI, MMP, IMP = 'modular_inverse', 'modular_row_echelon_form', 'modular_matrix_inverse', 'modular_matrix_product', 'integer_matrix_product'


class Free:
    """quotients as arbitrary numbers"""
    def __init__(self):
        self.q = {}

    def __call__(self, t):
        m = {}
        for y in subterms(t):
            if y.op == 'rem':
                a, b = y.args[-2:]
                m[y] = mk('sub', 'i', a, mk('mul', 'i', self.var(a, b), b))
            elif y.op == 'div':
                m[y] = self.var(*y.args[-2:])
            elif y.op in ('remeu', 'floor', 'fld', 'call'):
                raise Und('not a plain Euclidean step: %s' % show(y))
        return canon(resimp(subst(t, m))) if m else canon(t)

    def var(self, a, b):
        return self.q.setdefault((canon(a), canon(b)), mk('arg', 'q%d' % len(self.q)))


def modpoly(t, zero):
    """the polynomial t with the modulus zero"""
    return canon(resimp(subst(t, {zero: INT(0)})))


def env(b, hook=None):
    e = evalt.Env(1, bind=b)
    e.strict = True
    e.hook = hook
    return e


def listy(m):
    return [[Q(x) for x in r] for r in m]


def run(ctx):
    CTX[0] = ctx
    here = lambda *keep: (lambda g: g.file.endswith(FILE) and g.kind != 'Closure' and g.name not in keep)

    def pub(name, *keep):
        f = ctx.fn('modular_solver::' + name, public=True)
        return f, ctx.summary(f, inline_if=here(*keep)), ctx.where(f)

    def priv(name, *keep):
        fs = [f for f in ctx.lib.fns if f.file.endswith(FILE) and f.kind != 'Closure' and f.name == name]
        if len(fs) != 1:
            raise Und('no function %s' % name)
        return fs[0], ctx.summary(fs[0], inline_if=here(*keep)), ctx.where(fs[0])

    # ---------------------------------------------------------------- modular inverse
    def inverse():
        f, s, w = pub(MI)
        arg, m = A(0), A(1)
        somes = [p for p in s.returns() if p.ret.op == 'agg' and p.ret.args[1] == 1]
        nones = [p for p in s.returns() if p.ret.op == 'agg' and p.ret.args[1] == 0]
        if not somes or not nones or len(somes) + len(nones) != len(s.returns()):
            raise Und('results')
        L = phis(s)

        def one(p):
            """the loop value found to be one"""
            out = [x for t, v in p.facts() if t.op == 'eq' and v == 1 for x in L if canon(E.t_eq(x, INT(1))) is t]
            return out[0] if out else None
        rs = {one(p) for p in somes}
        if rs == {None} and any(x.op == 'phi' for p in somes for t, v in p.facts() for x in subterms(t)):
            if all(not any(canon(E.t_eq(x, INT(1))) is t for x in L) for p in somes + nones for t, v in p.facts()):
                raise Bad('an inverse is returned without testing that the gcd is one', w)
        if len(rs) != 1 or None in rs:
            raise Und('test for gcd one')
        r = rs.pop()
        key = r.args[0]
        ts = {x for p in somes for x in subterms(p.ret) if x.op == 'phi'}
        if len(ts) != 1:
            raise Und('result %s' % show(somes[0].ret))
        t = ts.pop()
        steps = [(p, new) for p, k, new in backs(s) if k == key]
        if not steps or t.args[0] != key:
            raise Und('loop')
        for p, new in steps:
            r1s = {x for x in subterms(new[r]) if x.op == 'phi'}
            t1s = {x for x in subterms(new[t]) if x.op == 'phi'}
            if len(r1s) != 1 or len(t1s) != 1:
                raise Und('step')
            r1, t1 = r1s.pop(), t1s.pop()
            init = {x: L[x] for x in (r, t, r1, t1)}
            for x, c in ((r, t), (r1, t1)):
                d = modpoly(mk('sub', 'i', init[x], mk('mul', 'i', init[c], arg)), m)
                if d is not INT(0):
                    raise Bad('before the first step %s is not congruent to %s times the argument' % (show(init[x]), show(init[c])), w)
            if {canon(init[r]), canon(init[r1])} != {arg, m}:
                raise Bad('the remainders start as %s and %s' % (show(init[r]), show(init[r1])), w)
            fr = Free()
            v = {x: fr(new[x]) for x in (r, t, r1, t1)}
            hyp = {r: mk('mul', 'i', t, arg), r1: mk('mul', 'i', t1, arg)}
            for x, c in ((r, t), (r1, t1)):
                d = modpoly(subst(mk('sub', 'i', v[x], mk('mul', 'i', v[c], arg)), hyp), m)
                if d is not INT(0):
                    raise Bad('a step loses the congruence between remainder and coefficient (%s)' % show(d), w)
            if v[r] is not r1:
                raise Und('step')
            qs = list(fr.q)
            if any(a is not r or b is not r1 for a, b in qs):
                raise Und('quotient')
            # the gcd is only known once the next remainder is zero
            for q in somes + nones:
                if not any(canon(E.t_eq(r1, INT(0))) is z and val == 1 for z, val in q.facts()):
                    raise Und('loop condition')
        for p in nones:
            if any(canon(E.t_eq(r, INT(1))) is z and val == 1 for z, val in p.facts()):
                raise Bad('no inverse is returned although the gcd is one', w)
        seen = 0
        for tv in range(-6, 7):
            b = {t: Q(tv), m: Q(7), r: Q(1)}
            hit = []
            for p in somes:
                fs = [(z, v) for z, v in p.facts() if contains(z, lambda y: y is t)]
                if all(evalt.fact_val(z, v, env(b)) for z, v in fs):
                    hit.append(evalt.ev(p.ret.args[2], env(b)))
            if len(hit) != 1:
                raise Und('%d results' % len(hit))
            if (hit[0] - tv) % 7 or not 0 <= hit[0] < 7:
                raise Bad('coefficient %d modulo 7 gives the inverse %s' % (tv, hit[0]), w)
            seen += 1
        return '%d steps, %d final coefficients' % (len(steps), seen)
    ctx.ob('modular inverse', inverse)

    # ---------------------------------------------------------------- echelon form
    def echelon():
        f, s, w = pub(REF, MI)
        L = phis(s)
        B = list(backs(s))
        prime = A(1)
        rets = {p.ret for p in s.returns() if p.ret.op == 'phi'}
        if len(rets) != 1:
            raise Und('result')
        M0 = rets.pop()
        conv = L[M0]
        counts = {}

        def count(what):
            counts[what] = counts.get(what, 0) + 1

        def base(x):
            ch = []
            while x.op in ('store', 'stores'):
                x = x.args[0]
            return x
        # matrix values of the loops inside
        mats = [M0]
        grow = True
        while grow:
            grow = False
            for x, i in L.items():
                if x not in mats and base(i) in mats:
                    mats.append(x)
                    grow = True
        nums = [x for x in L if x not in mats and x.args[0] == M0.args[0]]
        if len(nums) != 1:
            raise Und('loop values %s' % [show(x) for x in nums])
        irow = nums[0]
        if canon(L[irow]) is not INT(0):
            raise Bad('the first free row is %s' % show(L[irow]), w)

        # residues
        def residues():
            if conv.op == 'phi':
                vals = [new[conv] for p, k, new in B if conv in new]
            else:
                vals = []
                raise Und('conversion %s' % show(conv))
            for x in vals:
                if x.op != 'push' or x.args[0] is not conv:
                    raise Und('conversion %s' % show(x))
                ixs = [y for y in subterms(x) if y.op == 'ix']
                if len(set(ixs)) != 1:
                    raise Und('conversion index')
                if canon(ixs[0].args[1]) is not canon(t_len(A(0))):
                    raise Und('converted rows')
                for p in (5, 7):
                    for row in ([0, 1, -1, p, -p, 3 - 2 * p, 4 + p], ):
                        got = evalt.ev(x.args[1], env({A(0): listy([row]), prime: Q(p), ixs[0]: Q(0)}))
                        want = [Q(y % p) for y in row]
                        if got != want:
                            k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), None)
                            raise Bad('entries are not reduced to residues: %s modulo %d becomes %s' % (row[k], p, got[k]) if k is not None else 'row length changes', w)
                        count('residue')
        residues()

        def hook(p):
            def h(t, e, bvs):
                if t.op == 'call' and t.args[0] == MI:
                    x, m = evalt.ev(t.args[1], e, bvs), evalt.ev(t.args[2], e, bvs)
                    if m != p:
                        raise Bad('the pivot is inverted modulo %s' % show(t.args[2]), w)
                    if x % p == 0:
                        return ('@Option', 0)
                    return ('@Option', 1, Q(pow(int(x), -1, p)))
                if t.op == 'discr':
                    v = evalt.ev(t.args[0], e, bvs)
                    if isinstance(v, tuple) and v[0] == '@Option':
                        return Q(v[1])
                if t.op == 'agg' and t.args[0].split('::')[-1] == 'Option':
                    return ('@Option', t.args[1]) + tuple(evalt.ev(y, e, bvs) for y in t.args[2:])
                return NotImplemented
            return h
        key0 = M0.args[0]
        ixcol = {x for p, k, new in B for t, v in p.facts() for x in subterms(t) if x.op == 'ix' and x.args[0] == key0}
        if len(ixcol) != 1:
            raise Und('column index')
        ixcol = ixcol.pop()

        def common(b, M, p, r0):
            """binding shared by all rounds"""
            c = {prime: Q(p), irow: Q(r0), conv: listy(M), A(0): listy(M)}
            c.update(b)
            return c

        def inst(seed):
            rnd = random.Random(seed)
            p = rnd.choice((5, 7))
            nr, nc = 3, 4
            c0 = rnd.randrange(nc)
            r0 = rnd.randrange(nr) if c0 else 0
            M = [[Q(rnd.randrange(p)) for _ in range(nc)] for _ in range(nr)]
            for r in range(r0, nr):
                for c in range(c0):
                    M[r][c] = Q(0)
            return rnd, p, nr, nc, r0, c0, M
        # columns and rows visited
        for _ in range(1):
            rnd, p, nr, nc, r0, c0, M = inst(1)
            n = evalt.nat(evalt.ev(ixcol.args[1], env(common({m: listy(M) for m in mats}, M, p, r0))))
            if n != nc:
                raise Bad('%d of %d columns are eliminated' % (n, nc), w)

        def finds():
            """(index term of the row found, ix) of the pivot search"""
            out = set()
            for p, k, new in B:
                for t, v in p.facts():
                    if v in (0, 1):
                        for y in subterms(t):
                            if y.op == 'idx' and y.args[0].op == 'idx' and y.args[0].args[0] is M0 and canon(y.args[1]) is ixcol:
                                ixs = [z for z in subterms(y.args[0].args[1]) if z.op == 'ix' and z is not ixcol]
                                if len(set(ixs)) == 1:
                                    out.add((canon(y.args[0].args[1]), ixs[0], t))
            return out
        fs = finds()
        if len({x[:2] for x in fs}) != 1 or len(fs) != 1:
            raise Und('pivot search')
        frow, fix, ftest = next(iter(fs))
        for seed in range(40):
            rnd, p, nr, nc, r0, c0, M = inst(seed)
            b = common({m: listy(M) for m in mats}, M, p, r0)
            b[ixcol] = Q(c0)
            n = evalt.nat(evalt.ev(fix.args[1], env(b)))
            rows = sorted(int(evalt.ev(frow, env({**b, fix: Q(i)}))) for i in range(n))
            if rows != list(range(r0, nr)):
                raise Bad('pivots of column %d are searched in rows %s when rows from %d of %d are free' % (c0, rows, r0, nr), w)
            count('search')

        def test(x):
            M = [[Q(x)] * 4 for _ in range(3)]
            return evalt.fact_val(ftest, 1, env({**common({m: listy(M) for m in mats}, M, 7, 0), ixcol: Q(1), fix: Q(0)}))
        zero = bool(test(0))
        for x in range(1, 7):
            if bool(test(x)) == zero:
                raise Bad('an entry %d modulo 7 is %s as a pivot' % (x, 'not accepted'), w)

        # one round of the outer loop
        def pivotal(p):
            return any(t is ftest and v == (not zero) for t, v in p.facts())
        for p, k, new in B:
            if k != key0:
                continue
            piv = pivotal(p)
            if piv:
                if canon(new[irow]) is not canon(add(irow, INT(1))):
                    raise Bad('after a pivot the next free row is %s' % show(new[irow]), w)
                if new[M0] is M0:
                    raise Bad('a column with a pivot is not eliminated', w)
                if new[M0] not in mats:
                    raise Und('matrix %s' % show(new[M0]))
            else:
                if any(contains(t, lambda z: z is fix) for t, v in p.facts()):
                    raise Und('round %s' % show(new[M0]))
                if new[irow] is not irow:
                    raise Bad('a row is used up although its column has no pivot', w)
                if new[M0] is not M0:
                    raise Und('matrix changes without a pivot')
            count('round')

        # inner transitions
        scal = set()
        for p, k, new in B:
            for ph, x in new.items():
                if ph in mats and x.op == 'store' and x.args[0] is ph and canon(x.args[1]) is irow:
                    scal.add(ph)
        if len({x.args[0] for x in scal}) != 1:
            raise Und('scaling of the pivot row')

        def after_scaling(x):
            """the matrix value belongs to the phase after the pivot row has been scaled"""
            while x in L and x not in scal:
                x = base(L[x])
            return x in scal

        for ph in scal:
            i = L[ph]
            for seed in range(60):
                rnd, p, nr, nc, r0, c0, M = inst(seed)
                cand = [r for r in range(r0, nr) if M[r][c0]]
                if not cand:
                    continue
                r = rnd.choice(cand)
                b = common({m: listy(M) for m in mats}, M, p, r0)
                b[ixcol], b[fix] = Q(c0), Q(r - r0)
                if int(evalt.ev(frow, env(b))) != r:
                    b[fix] = next(Q(z) for z in range(nr) if int(evalt.ev(frow, env({**b, fix: Q(z)}))) == r)
                # paths that lead into this loop value
                ok = any(all(evalt.fact_val(t, v, env(b, hook(p))) for t, v in q.facts() if contains(t, lambda z: z is fix)) for q, k, new in B if ph in new)
                if not ok:
                    continue
                got = evalt.ev(i, env(b, hook(p)))
                want = listy(M)
                want[r0], want[r] = want[r], want[r0]
                if got != want:
                    raise Bad('a pivot found in row %d is not moved to row %d (%s becomes %s)' % (r, r0, fmt(M), fmt(got)), w)
                count('swap')
        if not counts.get('swap'):
            raise Und('no swap instance')

        def one_round(q, k, ph, x):
            kix = {y for t in [x] + [t for t, v in q.facts()] for y in subterms(t) if y.op == 'ix' and y.args[0] == k}
            if len(kix) > 1:
                raise Und('%d indices' % len(kix))
            kix = kix.pop() if kix else None
            scaling = ph in scal
            for seed in range(90):
                rnd, p, nr, nc, r0, c0, M = inst(seed)
                if not M[r0][c0]:
                    M[r0][c0] = Q(rnd.randrange(1, p))
                if rnd.random() < .3:
                    M[r0][rnd.randrange(c0, nc)] = Q(rnd.randrange(1, p))
                pre = listy(M)
                inv = Q(pow(int(M[r0][c0]), -1, p))
                M1 = listy(M)
                M1[r0] = [y * inv % p for y in M[r0]]
                b = common({m: (listy(M1) if after_scaling(m) or m in scal and not scaling else listy(pre)) for m in mats}, M, p, r0)
                b[ixcol], b[fix] = Q(c0), Q(0)
                e0 = lambda bb: env(bb, hook(p))
                # the pivot is in place: the search gave row r0, or the swap has been done
                order_ = sorted({y for t in [x] + [t for t, v in q.facts()] for y in subterms(t) if y.op == 'ix' and y not in (ixcol, fix)}, key=lambda y: (y is kix, y.id))
                b2 = scal_init_bind(b, q, fix, frow, M, p, r0, c0, nr, hook, x)
                if b2 is None:
                    continue
                b = b2
                rowix = [y for y in order_ if y is not kix]
                if len(rowix) > 1:
                    rowix = [y for y in rowix if contains(x, lambda z, y=y: z is y) or any(contains(t, lambda z, y=y: z is y) for t, v in q.facts())]
                yield rnd, p, nr, nc, r0, c0, pre, M1, b, kix, [y for y in rowix if y.args[0] != key0], scaling

        def scal_init_bind(b, q, fix, frow, M, p, r0, c0, nr, hook, x):
            # facts about the pivot search that select the path (found in place / found below)
            same = [(t, v) for t, v in q.facts() if contains(t, lambda z: z is fix) and not any(z.op == 'idx' for z in subterms(t))]
            for z in range(nr - r0):
                bb = {**b, fix: Q(z)}
                if all(evalt.fact_val(t, v, env(bb, hook(p))) for t, v in same):
                    if z == 0:
                        return bb
                    # the row found differs: undo the swap in the value before it
                    P = listy(M)
                    P[r0], P[r0 + z] = P[r0 + z], P[r0]
                    bb[M0] = P
                    return bb
            return None

        for q, k, new in B:
            for ph, x in new.items():
                if ph not in mats or ph is M0:
                    continue
                scaling = ph in scal
                if x is not ph and x in mats:
                    # end of an inner loop
                    if base(L[x]) is not ph:
                        raise Und('matrix %s' % show(x))
                    continue
                if x is not ph and not (x.op in ('store', 'stores') and base(x) is ph):
                    raise Und('matrix %s' % show(x))
                done = 0
                for rnd, p, nr, nc, r0, c0, pre, M1, b, kix, rowix, sc in one_round(q, k, ph, x):
                    E0 = lambda bb: env(bb, hook(p))
                    if kix is None:
                        raise Und('a loop whose rounds do not differ')
                    if scaling:
                        if x is ph:
                            raise Und('scaling keeps the matrix')
                        n = evalt.nat(evalt.ev(kix.args[1], E0(b)))
                        col = canon(x.args[2].args[1]) if x.args[2].op == 'store' else None
                        if col is None:
                            raise Und('scaled entry')
                        cols = [int(evalt.ev(col, E0({**b, kix: Q(i)}))) for i in range(n)]
                        if not set(range(c0, nc)) <= set(cols):
                            raise Bad('only columns %s of the pivot row are scaled, pivot in column %d of %d' % (cols, c0, nc), w)
                        i = rnd.randrange(n)
                        cur = listy(pre)
                        for c in cols[:i]:
                            cur[r0][c] = M1[r0][c]
                        want = listy(cur)
                        want[r0][cols[i]] = M1[r0][cols[i]]
                        got = evalt.ev(x, E0({**b, ph: cur, kix: Q(i)}))
                        if not cong(got, want, p):
                            raise Bad('scaling %s at column %d (pivot column %d, modulo %d) gives %s' % (fr(cur[r0]), cols[i], c0, p, fr(got[r0])), w)
                        count('scale')
                        done += 1
                        continue
                    # elimination
                    if len(rowix) > 1:
                        raise Und('%d row indices' % len(rowix))
                    if not rowix:
                        # the loop over the rows: rows kept as they are
                        n = evalt.nat(evalt.ev(kix.args[1], E0(b)))
                        for i in range(n):
                            bb = {**b, kix: Q(i), ph: listy(M1)}
                            own = [(t, v) for t, v in q.facts() if contains(t, lambda z: z is kix)]
                            if x is ph and all(evalt.fact_val(t, v, E0(bb)) for t, v in own):
                                if i != r0 and M1[i][c0]:
                                    raise Bad('row %d with the entry %s in pivot column %d is not cleared (pivot row %d of %s)' % (i, M1[i][c0], c0, r0, fmt(M1)), w)
                        if sorted(set(range(n)) | {r0}) != list(range(nr)):
                            raise Bad('only %d of %d rows are cleared' % (n, nr), w)
                        count('rows')
                        done += 1
                        continue
                    rix = rowix[0]
                    nrr = evalt.nat(evalt.ev(rix.args[1], E0(b)))
                    rr = rnd.randrange(nrr)
                    own = [(t, v) for t, v in q.facts() if contains(t, lambda z: z is rix) and not contains(t, lambda z: z is kix)]
                    b = {**b, rix: Q(rr)}
                    if not all(evalt.fact_val(t, v, E0(b)) for t, v in own):
                        continue
                    n = evalt.nat(evalt.ev(kix.args[1], E0(b)))
                    col, row = colterm.get(k, (None, None))
                    if col is None:
                        raise Und('cleared entry')
                    cols = [int(evalt.ev(col, E0({**b, kix: Q(i)}))) for i in range(n)]
                    i0 = int(evalt.ev(row, E0(b)))
                    if i0 == r0:
                        raise Bad('the pivot row %d is subtracted from itself' % r0, w)
                    if not set(range(c0, nc)) <= set(cols):
                        raise Bad('only columns %s are cleared, pivot in column %d of %d' % (cols, c0, nc), w)
                    full = [(y - M1[i0][c0] * z) % p for y, z in zip(M1[i0], M1[r0])]
                    i = rnd.randrange(n)
                    cur = listy(M1)
                    for c in cols[:i]:
                        cur[i0][c] = full[c]
                    want = listy(cur)
                    want[i0][cols[i]] = full[cols[i]]
                    bb = {**b, ph: cur, kix: Q(i)}
                    own = [(t, v) for t, v in q.facts() if contains(t, lambda z: z is kix)]
                    if not all(evalt.fact_val(t, v, E0(bb)) for t, v in own):
                        continue
                    got = evalt.ev(x, E0(bb))
                    if not cong(got, want, p):
                        raise Bad('clearing row %s with pivot row %s (pivot column %d, modulo %d) at column %d gives %s' % (fr(M1[i0]), fr(M1[r0]), c0, p, cols[i], fr(got[i0])), w)
                    count('clear')
                    done += 1
                if not done:
                    counts['idle'] = counts.get('idle', 0) + 1
        for need in ('scale', 'clear', 'rows', 'round'):
            if not counts.get(need):
                raise Und('no instance of ' + need)
        return ', '.join('%s %d' % kv for kv in sorted(counts.items()))

    colterm = {}

    def columns():
        f, s, w = pub(REF, MI)
        for p, k, new in backs(s):
            for ph, x in new.items():
                if x.op == 'store' and x.args[0] is ph and x.args[2].op == 'store':
                    colterm.setdefault(k, (canon(x.args[2].args[1]), canon(x.args[1])))
    try:
        columns()
    except (Bad, Und):
        pass
    ctx.ob('echelon form modulo a prime', echelon)

    # ---------------------------------------------------------------- products
    def product(name, modular):
        f, s, w = pub(name)
        p = the_return(s)
        n = 0
        for seed in range(60):
            rnd = random.Random(seed)
            r, k, c = rnd.randrange(1, 4), rnd.randrange(1, 4), rnd.randrange(1, 4)
            a = [[Q(rnd.randrange(-9, 10)) for _ in range(k)] for _ in range(r)]
            b = [[Q(rnd.randrange(-9, 10)) for _ in range(c)] for _ in range(k)]
            m = rnd.choice((5, 7))
            got = evalt.ev(p.ret, env({A(0): a, A(1): b, A(2): Q(m)}))
            want = [[sum(a[i][l] * b[l][j] for l in range(k)) for j in range(c)] for i in range(r)]
            if [len(x) for x in got] != [c] * r:
                raise Bad('a %d x %d times %d x %d product has rows of %s entries' % (r, k, k, c, [len(x) for x in got]), w)
            if not modular and got != want:
                raise Bad('%s times %s is %s' % (fmt(a), fmt(b), fmt(got)), w)
            if modular:
                if not cong(got, want, m):
                    raise Bad('%s times %s modulo %d is %s' % (fmt(a), fmt(b), m, fmt(got)), w)
                if any(abs(y) >= m for x in got for y in x):
                    raise Bad('an entry of a product modulo %d is not reduced: %s times %s is %s' % (m, fmt(a), fmt(b), fmt(got)), w)
            n += 1
        return '%d instances of the closed form' % n
    ctx.ob('product modulo a prime', product, MMP, True)
    ctx.ob('integer product', product, IMP, False)

    # ---------------------------------------------------------------- matrix inverse
    def matinv():
        f, s, w = pub(MMI, REF)
        cs = {x for p in s.paths for t in ([t for t, v in p.facts()] + ([p.ret] if p.kind == 'return' else [])) for x in subterms(t) if x.op == 'call' and x.args[0] == REF}
        if len(cs) != 1:
            raise Und('%d eliminations' % len(cs))
        C = cs.pop()
        if canon(C.args[2]) is not A(1):
            raise Bad('eliminates modulo %s' % show(C.args[2]), w)
        count = 0
        for seed in range(20):
            rnd = random.Random(seed)
            n = rnd.randrange(1, 4)
            m = [[Q(rnd.randrange(-4, 9)) for _ in range(n)] for _ in range(n)]
            got = evalt.ev(C.args[1], env({A(0): m}))
            want = [m[i] + [Q(i == j) for j in range(n)] for i in range(n)]
            if got != want:
                raise Bad('the matrix eliminated for %s is %s' % (fmt(m), fmt(got)), w)
        somes = [p for p in s.returns() if p.ret.op == 'agg' and p.ret.args[1] == 1]
        nones = [p for p in s.returns() if p.ret.op == 'agg' and p.ret.args[1] == 0]
        if not somes:
            raise Und('results')
        for seed in range(80):
            rnd = random.Random(seed)
            n = rnd.randrange(1, 4)
            m = [[Q(rnd.randrange(-4, 9)) for _ in range(n)] for _ in range(n)]
            e = [[Q(i == j) for j in range(n)] + [Q(rnd.randrange(7)) for _ in range(n)] for i in range(n)]
            bad = seed % 2
            if bad:
                # echelon forms of singular matrices: a column without pivot
                i, j = rnd.randrange(n), rnd.randrange(n)
                e[i][j] = Q(rnd.choice([x for x in (0, 1, 2, 3) if x != e[i][j]]))
            b = {A(0): m, A(1): Q(7), C: e}
            refused = False
            for p in nones:
                ixs = sorted({x for t, v in p.facts() for x in subterms(t) if x.op == 'ix'}, key=lambda x: x.id)
                for bb in choices(ixs, b):
                    if all(evalt.fact_val(t, v, env(bb)) for t, v in p.facts()):
                        refused = True
            if refused and not bad:
                raise Bad('no inverse although the elimination gives %s' % fmt(e), w)
            if not refused and bad:
                raise Bad('an inverse is returned although the elimination gives %s' % fmt(e), w)
            if not bad:
                got = [evalt.ev(p.ret.args[2], env(b)) for p in somes if all(evalt.fact_val(t, v, env(b)) for t, v in p.facts() if not any(x.op == 'ix' for x in subterms(t)))]
                if len(got) != 1:
                    raise Und('%d results' % len(got))
                if got[0] != [r[n:] for r in e]:
                    raise Bad('the inverse read from %s is %s' % (fmt(e), fmt(got[0])), w)
            count += 1
        return '%d instances of the closed form' % count
    ctx.ob('inverse modulo a prime', matinv)

    # ---------------------------------------------------------------- number of steps
    def steps():
        f, s, w = priv('number_of_p_adic_steps_needed')
        p = the_return(s)

        def num(x):
            return float(evalt.num(x))

        def cmpdir(cl):
            """+1 when the comparison function orders ascending"""
            fs = [g for g in ctx.lib.fns if g.kind == 'Closure' and any(str(g.id) == str(z) for z in (cl.args[0] if isinstance(cl.args[0], tuple) else (cl.args[0],)))]
            if len(fs) != 1:
                return 1
            r = ctx.summary(fs[0]).returns()
            if len(r) == 1:
                t = r[0].ret
                if t.op in ('cmp', 'call'):
                    xs = [canon(x) for x in t.args[-2:]]
                    if [y.args[0] for x in xs for y in subterms(x) if y.op == 'arg'] == [2, 1]:
                        return -1
            return 1

        def h(t, e, bvs):
            go = lambda x: evalt.ev(x, e, bvs)
            if t.op == 'call':
                n = t.args[0]
                a = t.args[1:]
                try:
                    if n == 'f64::ln':
                        return Q(math.log(num(go(a[0]))))
                    if n == 'f64::sqrt':
                        return Q(math.sqrt(num(go(a[0]))))
                    if n in ('f64::powf', 'f64::powi'):
                        return Q(math.pow(num(go(a[0])), num(go(a[1]))))
                    if n == 'f64::ceil':
                        return Q(math.ceil(num(go(a[0]))))
                    if n == 'f64::floor':
                        return Q(math.floor(num(go(a[0]))))
                    if n == 'f64::round':
                        return Q(math.floor(num(go(a[0])) + .5))
                    if n == 'f64::abs':
                        return abs(evalt.num(go(a[0])))
                    if n in ('f64::max', 'f64::min'):
                        return (max if n[-1] == 'x' else min)(evalt.num(go(a[0])), evalt.num(go(a[1])))
                    if n in ('f64::log2', 'f64::log10'):
                        return Q(math.log(num(go(a[0])), 2 if n[-1] == '2' else 10))
                    if n in ('Iterator::max_by', 'Iterator::min_by'):
                        l = evalt.lst(go(a[0]), e)
                        d = cmpdir(a[1]) * (1 if 'max' in n else -1)
                        return ('@Option', 1, (max if d > 0 else min)(l)) if l else ('@Option', 0)
                except ValueError:
                    raise NoEval('undefined')
                raise NoEval('call ' + n)
            if t.op == 'discr':
                v = go(t.args[0])
                if isinstance(v, tuple) and v[0] == '@Option':
                    return Q(v[1])
            if t.op == 'tofloat':
                return go(t.args[-1])
            if t.op == 'cast':
                return Q(int(evalt.num(go(t.args[-1]))))
            if t.op == 'sortedby':
                return sorted(evalt.lst(go(t.args[0]), e), reverse=cmpdir(t.args[1]) < 0)
            return NotImplemented
        n = 0
        for seed in range(120):
            rnd = random.Random(seed)
            k, c = rnd.randrange(1, 4), rnd.randrange(1, 3)
            sc = [rnd.choice((3, 30, 900)) for _ in range(k + c)]
            a = [[Q(rnd.randrange(-sc[j], sc[j] + 1) or 1) for j in range(k)] for _ in range(k)]
            b = [[Q(rnd.randrange(-sc[k + j], sc[k + j] + 1) or 1) for j in range(c)] for _ in range(k)]
            pr = rnd.choice((7, 11))
            got = evalt.num(evalt.ev(p.ret, env({A(0): a, A(1): b, A(2): Q(pr)}, h)))
            norm = lambda m, j: math.sqrt(float(sum(r[j] ** 2 for r in m)))
            ln = sorted([math.log(norm(a, j)) for j in range(k)] + [max(math.log(norm(b, j)) for j in range(c))])
            delta = sum(ln[1:])
            phi = math.log((1 + math.sqrt(5)) / 2)
            need = math.ceil(2 * (delta + phi) / math.log(pr) - 1e-9)
            if got < need:
                raise Bad('%s steps modulo powers of %d, but fractions with Hadamard bound %.6g need %d (matrix %s, right-hand side %s)' % (got, pr, math.exp(delta), need, fmt(a), fmt(b)), w)
            n += 1
        return '%d instances of the closed form' % n
    ctx.ob('number of digits', steps)

    # ---------------------------------------------------------------- reconstruction
    def reconstruct():
        f, s, w = priv('rational_reconstruction')
        S, H = A(0), A(1)
        L = phis(s)
        p = the_return(s)
        t = p.ret
        if t.op != 'call' or t.args[0] != 'Ratio::new':
            raise Und('result %s' % show(t))
        num, den = (canon(x) for x in t.args[1:3])
        if den.op != 'phi':
            raise Und('denominator %s' % show(den))
        v1, key = den, den.args[0]
        guard = [x for z, v in p.facts() for x in subterms(z) if x.op == 'phi' and x.args[0] == key]
        nf = [x for x in dict.fromkeys(y for y in subterms(num) if y.op == 'phi')]
        u1 = [x for x in nf if x in guard]
        sg = [x for x in nf if x not in guard]
        if len(u1) != 1 or len(sg) > 1:
            raise Und('numerator %s' % show(num))
        u1 = u1[0]
        steps_ = [new for q, k, new in backs(s) if k == key]
        if not steps_:
            raise Und('loop')
        new = steps_[0]
        us = {x for x in subterms(new[u1]) if x.op == 'phi'} - {u1}
        vs = {x for x in subterms(new[v1]) if x.op == 'phi'} - {v1, u1} - us
        if len(us) != 1 or len(vs) != 1:
            raise Und('step')
        u, v = us.pop(), vs.pop()
        sign = sg[0] if sg else None
        if sign is not None and canon(L[sign]) not in (INT(1), INT(-1)):
            raise Bad('the sign starts as %s' % show(L[sign]), w)
        fails = []
        for flip in (1, -1):
            why = None
            for sv in ((1, -1) if sign is not None else (1,)):
                hyp = {u1: mk('mul', 'i', INT(sv), mk('mul', 'i', v1, S)), u: mk('mul', 'i', INT(sv * flip), mk('mul', 'i', v, S))}
                if sign is not None:
                    hyp[sign] = INT(sv)
                z = modpoly(subst(mk('sub', 'i', num, mk('mul', 'i', den, S)), hyp), H)
                if z is not INT(0):
                    why = 'the fraction returned is not congruent to the digits'
                for nw in steps_:
                    fr_ = Free()
                    val = {x: fr_(nw.get(x, x)) for x in (u, u1, v, v1) + ((sign,) if sign is not None else ())}
                    s2 = canon(resimp(subst(val[sign], {sign: INT(sv)}))) if sign is not None else INT(1)
                    if s2 not in (INT(1), INT(-1)):
                        raise Und('sign %s' % show(s2))
                    for x, c, k in ((u1, v1, 1), (u, v, flip)):
                        z = modpoly(subst(mk('sub', 'i', val[x], mk('mul', 'i', mk('mul', 'i', INT(k), s2), mk('mul', 'i', val[c], S))), hyp), H)
                        if z is not INT(0):
                            why = why or 'a step loses the congruence between numerator, denominator and digits (%s)' % show(z)
                    if val[u] is not canon(subst(u1, {})) and val[u] is not u1:
                        raise Und('step')
            ini = {x: canon(L[x]) for x in (u, u1, v, v1)}
            s0 = L[sign] if sign is not None else INT(1)
            for x, c, k in ((u1, v1, 1), (u, v, flip)):
                z = modpoly(mk('sub', 'i', ini[x], mk('mul', 'i', mk('mul', 'i', INT(k), s0), mk('mul', 'i', ini[c], S))), H)
                if z is not INT(0):
                    why = why or 'before the first step numerator, denominator and digits are not congruent'
            if why is None:
                break
            fails.append(why)
        else:
            raise Bad(fails[0], w)
        if canon(L[v1]) not in (INT(1), INT(-1)):
            raise Bad('the denominator starts as %s' % show(L[v1]), w)
        # stops at the first remainder whose square is at most the modulus
        ups = 0
        for seed in range(200):
            rnd = random.Random(seed)
            hv = rnd.randrange(1, 400)
            x = rnd.choice((math.isqrt(hv) + 1, max(math.isqrt(hv - 1), 0), rnd.randrange(0, 60))) * rnd.choice((1, -1))
            b = {u1: Q(x), H: Q(hv), u: Q(x + 3), v: Q(0), v1: Q(1)}
            if sign is not None:
                b[sign] = Q(1)
            stop = all(evalt.fact_val(z, val, env(b)) for z, val in p.facts())
            if x * x > hv and stop:
                raise Bad('stops at numerator %d modulo %d, whose square is still larger' % (x, hv), w)
            if x * x < hv and not stop:
                raise Bad('goes on at numerator %d modulo %d, whose square is already smaller' % (x, hv), w)
            ups += 1
        return '%d steps, %d stopping cases' % (len(steps_), ups)
    ctx.ob('reconstruction of fractions', reconstruct)

    # ---------------------------------------------------------------- lifting
    def lift():
        NS = 'number_of_p_adic_steps_needed'
        RR = 'rational_reconstruction'
        f, s, w = pub('solve', MMI, MMP, IMP, NS, RR)
        a, b0 = A(0), A(1)
        invs = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'call' and x.args[0] == MMI}
        if len(invs) != 1:
            raise Und('%d inversions' % len(invs))
        I = invs.pop()
        if canon(I.args[1]) is not a:
            raise Bad('inverts %s' % show(I.args[1]), w)
        P = canon(I.args[2])
        if P.op != 'int':
            raise Und('prime %s' % show(P))
        pv = P.args[0]
        if pv < 3 or any(pv % d == 0 for d in range(2, math.isqrt(pv) + 1)):
            raise Bad('%d is not an odd prime' % pv, w)
        if (pv - 1) ** 2 >= 2 ** 63:
            raise Bad('products modulo %d overflow' % pv, w)
        for p in s.returns():
            r = p.ret
            if r.op != 'agg':
                raise Und('result')
            d = [v for t, v in p.facts() if t.op == 'discr' and t.args[0] is I]
            if r.args[1] == 0 and d and d[0] == 1:
                raise Bad('no solution although the matrix is invertible modulo the prime', w)
            if r.args[1] == 1 and d and d[0] == 0:
                raise Und('a solution without an inverse')
        B = list(backs(s))
        L = phis(s)
        C = canon(E.getfield(I, 0, 1))
        somes = [p for p in s.returns() if p.ret.args[1] == 1]
        if len(somes) != 1:
            raise Und('%d results' % len(somes))
        R = somes[0].ret.args[2]
        rr = [x for x in subterms(R) if x.op == 'call' and x.args[0] == RR]
        if len(set(rr)) != 1:
            raise Und('reconstruction')
        rr = rr[0]
        # the digits and the residual
        prods = {x for p, k, new in B for y in new.values() for x in subterms(y) if x.op == 'call' and x.args[0] == MMP}
        if len(prods) > 1:
            prods = {x for x in prods if contains(x.args[1], lambda z: z is I)}
        if len(prods) != 1:
            raise Und('%d digit products' % len(prods))
        X = prods.pop()
        if canon(X.args[1]) is not C or canon(X.args[3]) is not P:
            raise Bad('the next digits are %s' % show(X), w)
        res = canon(X.args[2])
        if res.op != 'phi':
            raise Bad('the digits are always computed from %s' % show(res), w) if res is b0 else Und('residual %s' % show(res))
        if canon(L[res]) is not b0:
            raise Bad('the residual starts as %s' % show(L[res]), w)
        key = res.args[0]
        rounds = [(p, new) for p, k, new in B if k == key]
        ixs = {x for p, new in rounds for t, v in p.facts() for x in subterms(t) if x.op == 'ix' and x.args[0] == key}
        # powers and digits
        inner = lambda x, ph: x in L and root(x) is ph

        def root(x):
            while x in L and x.args[0] != key:
                x = L[x]
            return x
        pw = sm = None
        for x in {x for p, new in rounds for x in new}:
            if x is res:
                continue
            vals = {new[x] for p, new in rounds}
            if len(vals) == 1 and canon(mk('mul', 'i', x, P)) in vals:
                pw = x
            elif all(v in L and root(v) is x for v in vals):
                sm = x
        if pw is None:
            cand = [x for x in {x for p, new in rounds for x in new} if x is not res and L[x] is INT(1)]
            if len(cand) == 1:
                bad = [new[cand[0]] for p, new in rounds if new[cand[0]] is not canon(mk('mul', 'i', cand[0], P))]
                raise Bad('the power of the prime becomes %s' % show(bad[0]), w)
            raise Und('power of the prime')
        if canon(L[pw]) is not INT(1):
            raise Bad('the power of the prime starts as %s' % show(L[pw]), w)
        if sm is None:
            raise Und('digits')
        n = 0
        shape = lambda r, c: [[Q(0)] * c for _ in range(r)]
        for (r, c) in ((1, 1), (2, 1), (2, 3)):
            if evalt.ev(L[sm], env({b0: [[Q(5)] * c for _ in range(r)]})) != shape(r, c):
                raise Bad('the sum of digits does not start as a %d x %d zero matrix' % (r, c), w)

        def entry_updates(ph0):
            """(path, loop key, phi, row, col, value) of the element updates below ph0"""
            out = []
            for p, k, new in B:
                for ph, x in new.items():
                    if k != key and ph in L and root(ph) is ph0 and x.op == 'store':
                        if x.args[0] is not ph or x.args[2].op != 'store' or canon(x.args[2].args[0]) is not canon(E.getidx(ph, x.args[1])):
                            raise Und('update %s' % show(x))
                        out.append((p, k, ph, canon(x.args[1]), canon(x.args[2].args[1]), canon(x.args[2].args[2])))
            return out

        def indices(i, j, M, what):
            nonlocal n
            for (r, c) in ((1, 1), (2, 1), (2, 3), (3, 2)):
                for t, want in ((i, r), (j, c)):
                    xs = [x for x in subterms(t) if x.op == 'ix']
                    if len(set(xs)) != 1:
                        raise Und('index of ' + what)
                    e = {b0: shape(r, c), res: shape(r, c), M: shape(r, c), sm: shape(r, c), a: shape(r, r)}
                    for ph in L:
                        if root(ph) in (res, sm):
                            e[ph] = shape(r, c)
                    k = evalt.nat(evalt.ev(xs[0].args[1], env(e)))
                    got = sorted(int(evalt.ev(t, env({**e, xs[0]: Q(z)}))) for z in range(k))
                    if got != list(range(want)):
                        raise Bad('%s: indices %s of a %d x %d matrix' % (what, got, r, c), w)
            n += 1
        us = entry_updates(sm)
        if not us:
            raise Und('no digit is added')
        for p, k, ph, i, j, v in us:
            want = canon(mk('add', 'i', E.getidx(E.getidx(ph, i), j), mk('mul', 'i', pw, E.getidx(E.getidx(X, i), j))))
            if v is not want:
                expect(atoms(v, want)[0], atoms(v, want)[1], 'the sum of digits', w)
            indices(i, j, ph, 'sum of digits')
        # residual
        divided = 0
        skipping = []
        for p, new in rounds:
            y = new[res]
            if y is res:
                skipping.append(p)
                continue
            if y in L and root(y) is res:
                continue
            raise Und('residual %s' % show(y))
        ur = entry_updates(res)
        if not ur:
            raise Bad('the residual is never updated', w)
        for p, k, ph, i, j, v in ur:
            AX = mk('call', IMP, a, X)
            cur = E.getidx(E.getidx(ph, i), j)
            want = canon(mk('div', 'i', mk('sub', 'i', cur, E.getidx(E.getidx(AX, i), j)), P))
            if v is not want:
                x, y, d = (canon(resimp(subst(z, {P: INT(3)}))) for z in atoms(v, want, canon(mk('sub', 'i', cur, E.getidx(E.getidx(AX, i), j)))))
                # the residual is exactly divisible
                expect(x, y, 'the residual', w, facts=[(mk('remeu', d, INT(3)), 0)])
            indices(i, j, ph, 'residual')
        steps_ = {x for p in s.paths for t in [t for t, v in p.facts()] + ([p.ret] if p.kind == 'return' else []) for x in subterms(t) if x.op == 'call' and x.args[0] == NS}
        ns = mk('call', NS, a, b0, P)
        if canon(ns) not in {canon(x) for x in steps_}:
            for x in steps_:
                raise Bad('the number of steps is that of %s' % show(x), w)
            raise Und('number of steps')
        ix = {x for x in ixs if canon(x.args[1]) is canon(ns)}
        if len(ixs) != 1 or not ix:
            if len(ixs) == 1:
                y = next(iter(ixs))
                expect(y.args[1], ns, 'the number of lifting steps', w, calls=(NS,))
            raise Und('lifting loop')
        ix = ix.pop()
        for p in skipping:
            for N in (1, 2, 3, 5):
                for i in range(N):
                    b = {ix: Q(i), canon(ns): Q(N)}
                    own = [(t, v) for t, v in p.facts() if contains(t, lambda z: z is ix)]
                    if own and all(evalt.fact_val(t, v, env(b)) for t, v in own) and i + 1 < N:
                        raise Bad('the residual is not updated in step %d of %d' % (i + 1, N), w)
                    if not own:
                        raise Und('the residual is sometimes kept')
        # result
        entry_s = [x for x in subterms(rr.args[1]) if x.op == 'phi']
        if set(entry_s) != {sm}:
            raise Und('reconstructs %s' % show(rr.args[1]))
        h = canon(rr.args[2])
        for N in (1, 2, 3):
            z = evalt.ev(h, env({canon(ns): Q(N), pw: Q(pv ** N), P: Q(pv)}, None))
            if z != pv ** N:
                raise Bad('after %d steps the fraction is reconstructed modulo %s' % (N, show(h)), w)

        def h2(t, e, bvs):
            if t.op == 'call' and t.args[0] == RR:
                return ('@rr', evalt.ev(t.args[1], e, bvs))
            return NotImplemented
        for (r, c) in ((1, 1), (2, 1), (2, 3)):
            m = [[Q(10 * i + j + 1) for j in range(c)] for i in range(r)]
            got = evalt.ev(R, env({sm: m, b0: shape(r, c), canon(ns): Q(2)}, h2))
            if got != [[('@rr', y) for y in x] for x in m]:
                raise Bad('the solutions are not reconstructed entry by entry', w)
        return 'prime %d, %d updates' % (pv, n)
    ctx.ob('lifting', lift)


def atoms(*ts):
    """loop values and element lookups to plain atoms"""
    m = {}
    out = []
    for t in ts:
        def go(z):
            if z.op in ('idx', 'phi', 'call', 'fld'):
                m.setdefault(z, mk('arg', 'a%d' % len(m)))
                return
            for y in z.args:
                walk(y)

        def walk(y):
            if isinstance(y, T):
                go(y)
            elif isinstance(y, tuple):
                for q in y:
                    walk(q)
        walk(t)
    return [canon(resimp(subst(t, m))) for t in ts]


def choices(ixs, b):
    out = [dict(b)]
    for x in ixs:
        nxt = []
        for c in out:
            try:
                n = evalt.nat(evalt.ev(x.args[1], env(c)))
            except NoEval:
                return []
            nxt += [{**c, x: Q(i)} for i in range(n)]
        out = nxt
    return out


def cong(a, b, p):
    return [len(x) for x in a] == [len(x) for x in b] and all((x - y) % p == 0 for r, q in zip(a, b) for x, y in zip(r, q)) and \
        all(-p < x < p for r in a for x in r) if max((abs(y) for r in b for y in r), default=0) < p else \
        [len(x) for x in a] == [len(x) for x in b] and all((x - y) % p == 0 for r, q in zip(a, b) for x, y in zip(r, q))


def fr(r):
    return '[' + ', '.join(str(x) for x in r) + ']'


def fmt(m):
    return '[' + ', '.join(fr(r) for r in m) + ']'
