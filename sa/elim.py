"""Row elimination: obligations shared by C25 and C26."""
import itertools
from .rules import *
from .matnf import *
from .poly import to_poly

LA = 'linear_algebra.rs'
KS = mk('arg', 'K')


def la_inline(g):
    return g.file.endswith(LA) and g.kind != 'Closure' and g.name not in ('gcdx', 'extend_basis')


def fnum(t):
    """float constants that are small integers"""
    m = {}
    import struct
    for y in subterms(t):
        if y.op == 'float':
            try:
                v = struct.unpack('<d', struct.pack('<Q', int(y.args[0])))[0]
            except Exception:
                continue
            if v == int(v) and abs(v) < 100:
                m[y] = INT(int(v))
    return canon(resimp(subst(t, m))) if m else canon(t)


FIELDS = (('exact rationals', 'Ratio'), ('floats', 'f64'))
INTS = (('i32', 'i32'), ('i64', 'i64'))


def entries(ctx, f, p, arg, what):
    """[(which, index, entry)] for an index below col, col itself, any later index"""
    col = A(0)
    L = canon(t_len(A(1)))
    F = fnum(p.heap(('A', arg)))
    bad = [x for x in subterms(F) if x.op == 'phi']
    if bad:
        raise Und('%s: loop value %s' % (what, show(bad[0])))
    pos = {KS, col}
    out = []
    at = lambda d: canon(add(col, d))
    for w, es in (('before', ((at(sub_(INT(-1), KS)),), (at(INT(-1)), at(sub_(INT(-2), KS))), (at(INT(-1)), at(INT(-2)), at(sub_(INT(-3), KS))))), ('at', ((col,),)),
                  ('after', ((at(add(INT(1), KS)),), (at(INT(1)), at(add(INT(2), KS))), (at(INT(1)), at(INT(2)), at(add(INT(3), KS)))))):
        for cls in es:
            xs = [(w, e, entry(F, e, {KS}, L)) for e in cls]
            if all(x[2] is not None for x in xs):
                out += [(w, e, deep(x, {KS}, L)) for w, e, x in xs]
                break
        else:
            raise Und('%s: entry of %s' % (what, show(F)))
    return out


def coeffs(t, atoms):
    """t as a linear form in atoms: ([coefficient polys], rest)"""
    from .poly import from_poly
    p = to_poly(canon(t))
    cs = [dict() for _ in atoms]
    rest = {}
    for m, k in p.items():
        hit = [(i, a) for i, a in enumerate(atoms) if any(x is a for x, e in m)]
        if not hit:
            rest[m] = k
        elif len(hit) == 1 and dict(m)[hit[0][1]] == 1:
            i, a = hit[0]
            mm = tuple((x, e) for x, e in m if x is not a)
            cs[i][mm] = cs[i].get(mm, 0) + k
        else:
            raise Und('not linear: %s' % show(t))
    return [from_poly(c) for c in cs], from_poly(rest)


def zero_or(t, what, where, bind=None, facts=(), want=INT(0)):
    expect(canon(t), want, what, where, bind=bind, facts=facts)


def int_clear(ctx, f, inl):
    """summary data of the integer column clearing: coefficient matrices of the two new rows"""
    s = ctx.summary(f, inline_if=inl)
    res = []
    for p in s.returns():
        ev = entries(ctx, f, p, 1, 'the cleared row')
        eb = entries(ctx, f, p, 2, 'the pivot row')
        res.append((p, ev, eb))
    if not res:
        raise Bad('never returns', ctx.where(f))
    return s, res


def gcd_parts(p, terms_):
    """the gcdx call used: (call term, coefficient names by argument role)"""
    gs = {x for t in terms_ for x in subterms(t) if x.op == 'call' and x.args[0].endswith('gcdx')}
    if len(gs) != 1:
        raise Und('%d uses of the extended gcd' % len(gs))
    return gs.pop()


def gbind(g, extra=()):
    """instances: the five results of gcdx(a, b) for concrete a, b, and concrete rows"""
    import random

    def bind(seed):
        r = random.Random(seed)
        from fractions import Fraction as Q
        x = y = 0
        while x == 0 or y == 0:
            x, y = r.randrange(-12, 13), r.randrange(-12, 13)
        a, an, c, cn, d, dn = x, y, 1, 0, 0, 1
        while an:
            q = abs(a) // abs(an) * (1 if (a >= 0) == (an >= 0) else -1)
            a, an, c, cn, d, dn = an, a - q * an, cn, c - q * cn, dn, d - q * dn
        b = {canon(g): (Q(a), Q(c), Q(d), Q(cn), Q(dn)), canon(g.args[1]): Q(x), canon(g.args[2]): Q(y)}
        for k, v in enumerate((a, c, d, cn, dn)):
            b[canon(E.getfield(g, k))] = Q(v)
        return b
    return bind


def gcdx_obs(ctx):
    f = ctx.fn('linear_algebra::gcdx', public=True)
    s = ctx.summary(f)
    rs = s.returns()
    if len(rs) != 1:
        raise Und('%d return paths' % len(rs))
    p = rs[0]
    r = p.raw_ret
    if r.op != 'agg' or len(r.args) != 7:
        raise Und('result %s' % show(r))
    ph = list(r.args[2:])
    if not all(x.op == 'phi' for x in ph) or len({x.args[0] for x in ph}) != 1:
        raise Und('result is not made of loop variables: %s' % show(r))
    key = ph[0].args[0]
    phis = p.st.loops[key]
    zero = [t for t, v in p.facts() if t.op == 'eq' and v == 1 and INT(0) in t.args]
    nxt = None
    for t in zero:
        x = t.args[1] if t.args[0] is INT(0) else t.args[0]
        if x.op == 'phi' and x.args[0] == key:
            nxt = x
    if nxt is None:
        raise Und('the loop does not end when a remainder is zero')
    a, c, d, cn, dn = ph
    a0, b0 = A(0), A(1)
    # (remainder, coefficients) pairs
    lin_ = {a: add(mk('mul', 'i', c, a0), mk('mul', 'i', d, b0)), nxt: add(mk('mul', 'i', cn, a0), mk('mul', 'i', dn, b0))}
    w = ctx.where(f)
    init = {x: x.args[3] for x in (a, c, d, cn, dn, nxt)}
    for x, e in lin_.items():
        expect(canon(init[x]), canon(subst(e, init)), 'the combination for %s before the first step' % ('the gcd' if x is a else 'the next remainder'), w)
    det = canon(mk('sub', 'i', mk('mul', 'i', c, dn), mk('mul', 'i', d, cn)))
    d0 = canon(subst(det, init))
    AT = {x: mk('arg', 'z%d' % i) for i, x in enumerate((a, c, d, cn, dn, nxt))}
    if d0 not in (INT(1), INT(-1)):
        raise Bad('the coefficient determinant starts at %s' % show(d0), w)
    n = 0
    for bp in s.backs():
        ev = [e for e in bp.events if e[0] == 'back' and e[1] == key]
        if not ev:
            continue
        new = {}
        for cp, v in ev[0][2].items():
            x = phis.get(cp)
            if x is not None:
                new[x] = canon(v)
        for x in (a, c, d, cn, dn, nxt):
            new.setdefault(x, x)
        # quotients are arbitrary numbers
        qs = {}

        def free(t):
            m = {}
            for y in subterms(t):
                if y.op in ('div', 'remeu') or y.op == 'call':
                    m[y] = qs.setdefault(y, mk('arg', 'q%d' % len(qs)))
            return canon(subst(t, m))
        vals = {x: free(v) for x, v in new.items()}
        hyp = {a: lin_[a], nxt: lin_[nxt]}
        for x in (a, nxt):
            if any(y.op == 'rem' for y in subterms(vals[x])):
                # a - (a / b) * b = a % b
                m = {}
                for y in subterms(vals[x]):
                    if y.op == 'rem':
                        q = next((z for z in qs if z.op == 'div' and z.args[1:] == y.args[1:]), None)
                        if q is None:
                            raise Und('remainder without its quotient')
                        m[y] = mk('sub', 'i', y.args[1], mk('mul', 'i', qs[q], y.args[2]))
                vals[x] = canon(resimp(subst(vals[x], m)))
        for x, e in lin_.items():
            got = canon(subst(vals[x], hyp))
            want = canon(subst(e, vals))
            # coefficients appear only as c,d,cn,dn: substitute the hypothesis in the coefficient updates too
            want = canon(subst(want, hyp))
            got, want = (canon(subst(z, AT)) for z in (got, want))
            expect(got, want, 'the combination for %s after a step' % ('the gcd' if x is a else 'the next remainder'), w)
        dnew = canon(subst(det, vals))
        neg_ = canon(mk('neg', 'i', det))
        if dnew is not det and dnew is not neg_:
            dnew, neg_ = (canon(subst(z, AT)) for z in (dnew, neg_))
            expect(dnew, neg_, 'the coefficient determinant after a step', w)
        n += 1
    if not n:
        raise Und('no loop step')
    return '%d loop steps, invariants a = r*x + s*y and r*u - s*t = +-1' % n


def unit_det(ctx, name, ty, signed):
    """the two new rows are a unimodular (signed: determinant one) combination of the two old ones, with a zero at the column"""
    f = pyfn(ctx, ty, 'Scalar', 'clear_column')
    s, res = int_clear(ctx, f, la_inline)
    w = ctx.where(f)
    for p, ev, eb in res:
        at = [i for i, x in enumerate(ev) if x[0] == 'at'][0]
        if [x[1] for x in ev] != [x[1] for x in eb]:
            raise Und('the two rows are updated over different ranges')
        g = gcd_parts(p, [x[2] for x in ev[at:] + eb[at:]])
        x, y = g.args[1:3]
        vc, bc = canon(E.getidx(A(1), A(0))), canon(E.getidx(A(2), A(0)))
        if {canon(x), canon(y)} != {vc, bc}:
            raise Bad('the extended gcd is taken of %s and %s' % (show(x), show(y)), w)
        G = [canon(E.getfield(g, k)) for k in range(5)]
        bind = gbind(g)
        FA = {G[i]: mk('arg', 'rstu'[i - 1]) for i in range(1, 5)}
        ab = lambda t: canon(resimp(subst(canon(t), FA)))

        def cbind(seed):
            b = bind(seed)
            for k, v in FA.items():
                b[v] = b[k]
            return b
        for (which, e, vv), (_, _, bb) in list(zip(ev, eb))[at + 1:] + [(ev[at], eb[at])]:
            e1 = ev[at][1]
            X, Y = canon(E.getidx(A(1), e)), canon(E.getidx(A(2), e))
            if e is e1 and (vv in (INT(0),) or bb is G[0]):
                continue
            (va, vb), vr = coeffs(vv, [X, Y])
            (ba, bb_), br = coeffs(bb, [X, Y])
            if vr is not INT(0) or br is not INT(0):
                raise Bad('the new rows are not combinations of the old ones: %s, %s' % (show(vv), show(bb)), w)
            det = canon(mk('sub', 'i', mk('mul', 'i', va, bb_), mk('mul', 'i', vb, ba)))
            unit = canon(mk('sub', 'i', mk('mul', 'i', G[1], G[4]), mk('mul', 'i', G[2], G[3])))
            sq = canon(mk('mul', 'i', unit, unit))
            n1 = lambda z: canon(mk('neg', 'i', z))
            if signed:
                if det is not sq and det is not INT(1):
                    expect(ab(det), ab(sq), 'the determinant of the combination', w, bind=cbind)
            elif det not in (sq, unit, n1(sq), n1(unit), INT(1), INT(-1)):
                expect(ab(mk('mul', 'i', det, det)), INT(1), 'the square of the determinant of the combination', w, bind=cbind)
            # the cleared entry: coefficients are a multiple of the relation t*x + u*y = 0
            tx, uy = (G[3], G[4])
            cx, cy = (va, vb) if canon(x) is vc else (vb, va)
            z = canon(mk('sub', 'i', mk('mul', 'i', cx, uy), mk('mul', 'i', cy, tx)))
            if z is not INT(0):
                expect(ab(z), INT(0), 'the entry left in the cleared column (up to a factor)', w, bind=cbind)
    return '%d paths' % len(res)


def pivots(ctx, f, s):
    """(v, bs, i, pv, pb) of the basis extension loop"""
    keys = set()
    for p in s.paths:
        for e in p.events:
            if e[0] == 'loop':
                for (c, pa), ph in e[2].items():
                    if c == ('A', 1):
                        keys.add((e[1], ph))
    keys = {(k, ph) for k, ph in keys}
    if len(keys) != 1:
        raise Und('%d loops over the basis' % len(keys))
    (key, bs), = keys
    vs = {ph for p in s.paths for e in p.events if e[0] == 'loop' and e[1] == key for (c, pa), ph in e[2].items() if c[0] == 'L' and canon(s.norm(ph.args[3])) is A(0)}
    if len(vs) != 1:
        raise Und('%d candidates for the vector' % len(vs))
    return key, bs, vs.pop()


def find_ix(t, n):
    return [x for x in subterms(t) if x.op == 'ix' and canon(x.args[1]) is canon(n)]


def extend(ctx, part):
    """the basis extension loop; part 'span': nothing is lost and clearing happens at equal pivots; part 'sign': orientation kept"""
    f = ctx.fn('linear_algebra::extend_basis', public=True)
    w = ctx.where(f)
    s = ctx.summary(f)
    key, bs, v = pivots(ctx, f, s)
    I = None
    for p in s.paths:
        for t, _ in p.st.rel:
            for x in subterms(t):
                if x.op == 'ix' and x.args[0] == key:
                    I = x
    if I is None:
        raise Und('no row index')
    B = E.getidx(bs, I)
    n = 0

    def C(t):
        return canon(s.norm(t))
    cv, cB, cbs, cI = C(v), C(B), C(bs), C(I)
    kinds = []
    for p in s.paths:
        if p.kind == 'panic':
            continue
        F = p.facts()
        pv = {x for t, _ in F for x in subterms(t) if x.op == 'ix' and x.args[0] != key and canon(x.args[1]) is C(t_len(v))}
        pb = {x for t, _ in F for x in subterms(t) if x.op == 'ix' and x.args[0] != key and canon(x.args[1]) is C(t_len(B))}
        if len(pv) > 1 or len(pb) > 1:
            raise Und('several pivot searches')
        pv, pb = first(pv), first(pb)
        vnz = pv is not None and has(p, mk('eq', INT(0), E.getidx(v, pv)), 0)
        bnz = pb is not None and has(p, mk('eq', INT(0), E.getidx(B, pb)), 0)
        if p.kind == 'back':
            if p.raw_ret != key:
                continue
            e = [e for e in p.events if e[0] == 'back' and e[1] == key][-1]
            new = {ph: C(e[2][cp]) for cp, ph in p.st.loops[key].items() if cp in e[2]}
            nv, nb = new.get(v, cv), new.get(bs, cbs)
            if nv is cv and nb is cbs:
                kinds.append(('keep', p, pv if vnz else None, pb if bnz else None, None))
            elif nv.op == 'upd' and str(nv.args[0]).endswith('clear_column'):
                col = nv.args[2]
                if nb.op != 'store' or nb.args[2].op != 'upd' or nb.args[1] is not cI:
                    raise Und('update of the basis: %s' % show(nb))
                if nv.args[3:] != nb.args[2].args[3:] or nv.args[3] is not cv or nv.args[4] is not cB:
                    raise Bad('the column is cleared with %s and %s' % (show(nv.args[3]), show(nv.args[4])), w)
                kinds.append(('clear', p, pv, pb, col))
            else:
                raise Und('new value of the vector: %s' % show(nv))
        else:
            F1 = p.heap(('A', 1))
            if F1 is cbs or F1 is canon(A(1)):
                kinds.append(('drop', p, pv if vnz else None, pb, None))
            elif F1.op == 'push':
                kinds.append(('push', p, pv if vnz else None, pb, F1.args[1]))
            elif F1.op == 'vinsert':
                kinds.append(('insert', p, pv, pb, F1))
            elif F1.op == 'upd' and str(F1.args[0]).rsplit('::', 1)[-1] in ('truncate', 'pop', 'clear', 'remove', 'swap_remove', 'drain', 'retain', 'dedup', 'split_off'):
                raise Bad('rows are removed from the basis: %s' % show(F1), w)
            else:
                raise Und('final basis: %s' % show(F1))
    if not any(k[0] in ('push', 'insert') for k in kinds):
        raise Und('no row is ever added')
    later = None
    nv_ = mk('comp', 'map', canon(t_len(v)), mk('bv', 1), (((), canon(neg(E.getidx(v, mk('bv', 1)))),),))
    for k, p, pv, pb, x in kinds:
        n += 1
        if part == 'span':
            if k == 'drop' and pv is not None:
                raise Bad('a vector with a nonzero entry is dropped without extending the basis', w)
            if k == 'push' and pv is None and not any(contains(t, lambda y: y.op == 'idx' and y.args[0] is cv) for t, _ in p.facts()) \
                    and not any(e[0] == 'exhausted' for e in p.events):
                raise Bad('a vector is added without looking for a nonzero entry', w)
            if k in ('keep', 'clear', 'insert') and pv is not None and pb is not None:
                ok = {'keep': (1,), 'clear': (0,), 'insert': (-1,)}[k]
                for o in (-1, 0, 1):
                    c = Cases(order={(pv, pb): o}, ivl={mk('sub', 'i', pv, pb): SIGNS[o]})
                    h = [c.holds(t, val) for t, val in p.facts() if contains(t, lambda y: y is pv) and contains(t, lambda y: y is pb)]
                    if 0 in h or o in ok:
                        continue
                    if None in h:
                        raise Und('pivot comparison')
                    raise Bad('the vector is %s when its first nonzero entry comes %s that of the basis row' % (
                        {'keep': 'passed on unchanged', 'clear': 'combined with the row', 'insert': 'inserted'}[k],
                        {-1: 'before', 0: 'at the same place as', 1: 'after'}[o]), w)
            elif k == 'keep':
                later = Und('a row is skipped without comparing pivots')
            if k == 'clear' and x is not pv and x is not pb:
                if opaque_in(x) is None:
                    raise Bad('column %s is cleared' % show(x), w)
                raise Und('cleared column %s' % show(x))
            if k == 'insert':
                if x.args[0] is not cbs:
                    raise Und('inserted into %s' % show(x.args[0]))
                if x.args[1] is not cI:
                    expect(x.args[1], cI, 'the place of insertion', w)
        if part in ('span', 'sign') and k in ('push', 'insert'):
            y = x.args[2] if k == 'insert' else x
            sg = 1 if y is cv else -1 if y is canon(nv_) else None
            if sg is None and y.op == 'comp':
                c1 = canon(E.getidx(y, mk('bv', 'Z')))
                base = canon(E.getidx(v, mk('bv', 'Z')))
                sg = 1 if c1 is base else -1 if c1 is canon(neg(base)) else None
                if canon(y.args[1]) is not C(t_len(v)):
                    sg = None
            if sg is None:
                if part == 'span':
                    expect(y, cv, 'the added vector', w)
                raise Und('added vector %s' % show(y))
            if part == 'sign':
                if k == 'push':
                    if sg != 1:
                        raise Bad('a vector added at the end is negated', w)
                    continue
                d = canon(mk('sub', 'i', t_len(cbs), cI))
                for m in range(1, 7):
                    ok = True
                    from .evalt import Env, ev, fact_val, NoEval
                    for t, val in p.facts():
                        if any(z.op == 'ix' and z.args[0] != key for z in subterms(t)) or not contains(t, lambda z: z is cI):
                            continue
                        if not contains(t, lambda z: z.op == 'len'):
                            continue
                        if contains(t, lambda z: z is cv or z is cB):
                            continue
                        try:
                            g = Env(0, bind={d: m, cI: 3, canon(t_len(cbs)): 3 + m})
                            if not fact_val(t, val, g):
                                ok = False
                        except (NoEval, Exception) as e:
                            raise Und('parity condition %s' % show(t))
                    if ok and sg != (-1) ** m:
                        raise Bad('a vector inserted before %d row%s is %s' % (m, 's' if m > 1 else '', 'negated' if sg < 0 else 'not negated'), w)
    if later:
        raise later
    return '%d paths through the extension loop' % n




def shape_inline(g):
    return g.file.endswith('matrices.rs') and g.name == 'shape'


def built(ctx, f, s, ph):
    """the loop variable ph is the basis of all rows"""
    w = ctx.where(f)
    i0 = canon(s.norm(ph.args[3]))
    if not (i0.op == 'emptyvec' or i0.op == 'agg' and i0.args[0] == 'array' and len(i0.args) == 2):
        raise Und('basis starts as %s' % show(i0))
    n = 0
    for bp in s.backs():
        for e in bp.events:
            if e[0] == 'back' and e[1] == ph.args[0]:
                for cp, v in e[2].items():
                    if bp.st.loops[e[1]].get(cp) is not ph:
                        continue
                    v = canon(s.norm(v))
                    if v is canon(ph):
                        raise Bad('a row is passed over', w)
                    if v.op != 'upd' or not str(v.args[0]).endswith('extend_basis'):
                        raise Und('basis becomes %s' % show(v))
                    row, b = v.args[2:4]
                    ix = [x for x in subterms(row) if x.op == 'ix' and x.args[0] == ph.args[0]]
                    if len(ix) != 1:
                        if not ix and opaque_in(row) is None:
                            raise Bad('the same vector %s is added in every step' % show(row), w)
                        raise Und('row %s' % show(row))
                    R = canon(nrows(A(0)))
                    want = mnorm(mk('call', 'rust_systre::arithmetic::matrices::Matrix::get_row', A(0), ix[0]))
                    got = mnorm(row)
                    if got is not want:
                        expect(got, want, 'the row added in a step', w, bind=None)
                    lim = mnorm(ix[0].args[1])
                    if lim is not mnorm(R):
                        expect(lim, mnorm(R), 'the number of rows added', w)
                    n += 1
    if not n:
        raise Und('no row loop')
    return n
