"""C14: operator text reader and writer."""
from fractions import Fraction
from ..rules import *
from ..graphs import NC, backs, phis, index_of, over_all
from ..nomg import *
from .c13 import sval as sval0, NoStr

LEVEL = 'other'
TECHNIQUE = 'grammar extraction from parser combinators: language equality of finite automata, ordered-choice shadowing, attribute values per shape; abstract interpretation of the writer as a decision table of texts'
RULE = ('The combinator grammar is read off the parser functions and compiled to an automaton whose language must equal that of comma separated sums of terms; no alternative may hide a later one; '
        'the value of every term shape must be its signed coefficient and axis; terms must be added up in the slot of their axis; the writer must write sign, magnitude and axis of every nonzero coefficient.')
PROP = {
    'title': 'Operator texts are read and written as the affine maps they denote',
    'statement': 'An operator text is accepted exactly if it is a comma separated list of sums of terms (optional sign, integer or fraction, optional axis x, y or z) using no more axes than it has '
                 'coordinates; every term is added with its sign to the coefficient of its axis or to the shift, and the map read has these rows and shifts. '
                 'The writer lists every nonzero coefficient in axis order, then the shift, with sign and magnitude, so that the text reads back as the same map.',
    'quantifier': {'over': ['inputs'], 'text': 'all texts; all affine maps of dimension one to three'},
    'why_tests_cant': 'Tests read a dozen texts.',
    'anchors': {'files': ['src/spacegroups/parse_operator.rs', 'src/spacegroups/parse_table.rs'],
                'mechanism': 'grammar of operators; value of a term; collection of terms; conversion to rows; affine and coordinate maps from text; writer of operators and rows'},
}
SIGMA = set('xyz+-*/, \t0123456789') | {'a'}


def REF():
    sp = star(lit({' ', '\t'}))
    d = lit('0123456789')
    num = cat(d, star(d))
    frac = cat(num, opt(cat(sp, lit('/'), sp, num)))
    axis = lit('xyz')
    un = alt(cat(frac, opt(cat(alt(lit('*'), sp), axis))), axis)
    st = cat(lit('+-'), sp, un)
    co = cat(opt(cat(lit('+-'), sp)), un, star(cat(sp, st)))
    op = cat(co, star(cat(sp, lit(','), sp, co)))
    return cat(sp, op, sp)


def sval(t, env):
    if t in env:
        return env[t]
    o = t.op
    if o == 'rat':
        return Fraction(t.args[0])
    if o == 'abs':
        return abs(sval(t.args[0], env))
    if o == 'lt':
        return int(sval(t.args[0], env) < sval(t.args[1], env))
    if o == 'eq':
        a, b = (sval(x, env) for x in t.args[-2:])
        return int(a == b)
    if o == 'not':
        return 1 - sval(t.args[0], env)
    if o == 'neg':
        return -sval(t.args[-1], env)
    if o == 'poly':
        r = Fraction(0)
        for m, c in t.args:
            for x, e in m:
                c = c * sval(x, env) ** e
            r += c
        return r
    if o == 'len':
        return len(sval(t.args[0], env))
    if o == 'idx' and t.args[0].op == 'agg' and t.args[0].args[0] == 'array':
        return sval(t.args[0].args[2 + int(sval(t.args[1], env))], env)
    if o == 'call':
        f = t.args[0].rsplit('::', 1)[-1]
        if f in ('is_positive', 'is_negative', 'is_zero', 'is_one', 'abs', 'signum', 'numer', 'denom', 'magnitude', 'is_integer', 'fract', 'trunc') and len(t.args) == 2:
            x = sval(t.args[1], env)
            return {'is_positive': int(x > 0), 'is_negative': int(x < 0), 'is_zero': int(x == 0), 'is_one': int(x == 1), 'abs': abs(x), 'signum': (x > 0) - (x < 0), 'numer': Fraction(x).numerator, 'denom': Fraction(x).denominator, 'magnitude': abs(x), 'is_integer': int(Fraction(x).denominator == 1), 'fract': x - int(x), 'trunc': int(x)}[f]
    return sval0(t, env)


def nums(g, t):
    """digit folds to numbers"""
    m = {}
    for x in subterms(t):
        if x.op == 'fold':
            src = [y for y in subterms(x.args[0]) if y.op == 'dig']
            if len(src) != 1:
                continue
            init, cl = x.args[1], x.args[2]
            r = [(c, v) for c, v, k in g.call(cl, mk('arg', 'acc'), mk('arg', 'chr')) if k == 'return']
            if len(r) != 1:
                raise Und('digits %s' % show(cl))
            v = r[0][1]
            dg = [y for y in subterms(v) if y.op == 'call' and y.args[0].endswith('to_digit')]
            if len(dg) != 1 or dg[0].args[1:] != (mk('arg', 'chr'), INT(10)):
                raise Und('digit %s' % show(v))
            want = canon(mk('add', 'i', mk('mul', 'i', INT(10), mk('arg', 'acc')), E.getfield(dg[0], 0, 1)))
            if v is not want or init is not INT(0):
                raise Bad('a digit c after n is read as %s starting from %s' % (show(v), show(init)))
            m[x] = mk('num', src[0].args[0])
        elif x.op == 'call' and x.args[0] in ('str::parse',) and x.args[1].op == 'dig':
            m[E.getfield(x, 0, 0)] = mk('num', x.args[1].args[0])
    t = subst(t, m)
    for _ in range(3):
        t = canon(resimp(subst(t, {x: x.args[-1] for x in subterms(t) if x.op == 'cast' and x.args[-1].op == 'num'})))
    return t


def term_value(shape):
    """the value a term of this shape denotes"""
    sh = list(shape)
    s = 1
    if sh and sh[0] in '+-':
        s = 1 if sh.pop(0) == '+' else -1
    while sh and sh[0] == 'sp0':
        sh.pop(0)
    core = [x for x in sh if x not in ('sp0', '*')]
    ax = 3
    if core and core[-1] in ('x', 'y', 'z'):
        ax = 'xyz'.index(core.pop())
    if core == ['dig', '/', 'dig']:
        q = mk('call', 'Ratio::new', mk('num', 0), mk('num', 1))
    elif core == ['dig']:
        q = mk('num', 0)
    elif core == [] and ax < 3:
        q = INT(1)
    else:
        raise Und('term of shape %s' % (shape,))
    return canon(mk('mul', 'i', INT(s), q)), ax


def run(ctx):
    g = Grammar(ctx, lambda f: f.file.endswith('parse_operator.rs') and f.kind != 'Closure')

    def top():
        f = ctx.fn('parse_operator::parse_operator', public=True)
        s = ctx.summary(f)
        ap = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'apply' and x.args[1] is A(0)}
        if not ap:
            ap = {mk('apply', g.applied(x, A(0)), A(0)) for p in s.paths for t, v in p.facts() for x in subterms(t)
                  if x.op == 'call' and len(x.args) == 2 and x.args[1] is A(0) and any(q.short == x.args[0] for q in ctx.lib.fns)}
        if len(ap) != 1:
            raise Und('entry of the parser')
        return ap.pop().args[0], ctx.where(f)

    def language():
        P, w = top()
        sig = SIGMA | g.chars(P)
        r = g.lang(P, sig)
        d = distinguish(r, REF(), sig)
        if d:
            raise Bad('the text %r is %s' % (d[0], 'accepted' if d[1] else 'rejected'), w)
        return 'automata with %d and %d states over %d characters agree' % (states(r, sig), states(REF(), sig), len(sig))
    ctx.ob('language of operators', language)

    def choice():
        P, w = top()
        sig = SIGMA | g.chars(P)
        seen = set()
        n = 0

        def walk(P):
            nonlocal n
            Q = g.expand(P)
            if Q in seen:
                return
            seen.add(Q)
            if g.name(Q) == 'alt':
                ls = [g.lang(x, sig) for x in g.kids(Q)]
                for i in range(len(ls)):
                    for j in range(i + 1, len(ls)):
                        h = shadowed(ls[i], ls[j], sig)
                        n += 1
                        if h:
                            raise Bad('in %r the alternative for %r is taken before the one for the whole text' % (''.join(h), h[0]), w)
            for x in g.kids(Q):
                walk(x)
        walk(P)
        return '%d pairs of alternatives' % n
    ctx.ob('ordered choice', choice)

    def structure():
        """(term parser, further term parser, coordinate function, operator function)"""
        P, w = top()
        r = [v for c, v in g.sym(P)]
        return r, w

    def find():
        P, w = top()
        out = {}
        Q = g.expand(P)
        if g.name(Q) == 'delimited':
            Q = Q.args[2]
        Q = g.expand(Q)
        if g.name(Q) == 'map_opt':
            out['convert'] = Q.args[2]
            Q = g.expand(Q.args[1])
        if g.name(Q) not in ('separated_list1', 'separated_list0'):
            raise Und('list of coordinates')
        C = g.expand(Q.args[2])
        if g.name(C) != 'map_opt':
            raise Und('coordinate')
        out['collect'] = C.args[2]
        out['pair'] = C.args[1]
        v = [x for c, x in g.sym(C.args[1])]
        if len(v) != 1:
            raise Und('coordinate')
        pv = [x for x in subterms(v[0]) if x.op in ('pv', 'plist')]
        out['terms'] = pv
        out['value'] = v[0]
        return out, w

    def terms():
        o, w = find()
        n = 0
        for x in o['terms']:
            for shape, v, conds in g.derive(x.args[0]):
                v = nums(g, v)
                conds = [(nums(g, t), y) for t, y in conds]
                q, ax = term_value(shape)
                if v.op != 'agg' or v.args[0] != 'tuple' or len(v.args) != 4:
                    raise Und('value of a term %s' % show(v))
                got, a = canon(v.args[2]), v.args[3]
                if a.op != 'agg' or not isinstance(a.args[1], int):
                    raise Und('axis %s' % show(a))
                text = ''.join({'dig': '2', 'sp0': '', 'sp1': ' '}.get(i, i) for i in shape)
                if a.args[1] != ax:
                    raise Bad('the axis read from %r is %s' % (text, a.args[1]), w)
                if got is not q:
                    if contains(got, lambda z: z.op in ('closure', 'apply', 'fold') or z.op == 'call' and z.args[0] not in ('Ratio::new',)):
                        raise Und('coefficient %s' % show(got))
                    raise Bad('the coefficient read from %r is %s' % (text, show(got)), w)
                for t, y in conds:
                    if t.op in ('eq', 'lt') and contains(t, lambda z: z.op == 'len') or t.op == 'discr':
                        continue
                    if t is canon(mk('eq', mk('num', 1), INT(0))) and y == 0:
                        continue
                    if contains(t, lambda z: z.op in ('call', 'apply')):
                        raise Und('condition %s' % show(t))
                    raise Bad('a text like %r is rejected unless %s = %s' % (text, show(t), y), w)
                n += 1
        return '%d shapes' % n
    ctx.ob('value of a term', terms)

    def collect():
        o, w = find()
        v = o['value']
        if v.op != 'agg' or v.args[0] != 'tuple' or len(v.args) != 4 or v.args[2].op != 'pv' or v.args[3].op != 'plist':
            raise Und('coordinate %s' % show(v))
        cl = o['collect']
        f = g.fn(cl) if cl.op == 'fn' else ctx.lib.by_id.get(cl.args[0][1])
        if f is None:
            raise Und('function')
        base = A(0) if cl.op == 'fn' else A(1)
        # the function it delegates to keeps loops apart
        s = ctx.summary(f, inline_if=lambda q: q.file.endswith('parse_operator.rs') and q.kind != 'Closure')
        first_, rest = canon(E.getfield(base, 0)), canon(E.getfield(base, 1))
        rets = [p for p in s.returns() if p.ret.op == 'agg' and p.ret.args[1] == 1]
        if len(rets) != 1:
            raise Und('%d results' % len(rets))
        r = rets[0].ret.args[2]
        row, sh = canon(E.getfield(r, 0)), canon(E.getfield(r, 1))
        if row.op != 'phi' or sh.op != 'phi':
            raise Und('result %s' % show(r))
        ini = phis(s)
        r0, s0 = ini.get(row), ini.get(sh)
        zero = lambda t: t is not None and (t is INT(0) or t.op == 'call' and t.args[0] == 'Ratio::new' and t.args[1] is INT(0) or t.op == 'call' and t.args[0].endswith('zero'))
        if r0 is None or r0.op != 'from_elem' or not zero(r0.args[0]):
            raise Und('coefficients start as %s' % show(r0))
        if not zero(s0):
            if s0.op == 'call' and s0.args[0] == 'Ratio::new' and s0.args[1].op == 'int':
                raise Bad('the shift starts as %s' % show(s0), w)
            raise Und('shift starts as %s' % show(s0))
        n = 0
        seen = set()
        for p, key, nw in backs(s):
            if row not in nw:
                continue
            ax = [(t, x) for t, x in p.facts() if t.op == 'discr' and t.args[0].op == 'fld' and t.args[0].args[0] == 1 and isinstance(x, int)]
            if len(ax) != 1:
                raise Und('axis')
            k = ax[0][1]
            el = ax[0][0].args[0].args[2]
            if el is not first_:
                if el.op != 'idx' or el.args[0] is not rest:
                    raise Und('term %s' % show(el))
                j = el.args[1]
                over_all(j, rest, 'terms', w)
            q = canon(E.getfield(el, 0))
            extra = [(t, x) for t, x in p.facts() if t is not ax[0][0] and not (t.op == 'discr' and t.args[0].op == 'call' and 'checked' in t.args[0].args[0])]
            old = canon(mk('idx', row, INT(k))) if k < 3 else sh
            want = {canon(E.getfield(mk('call', 'CheckedAdd::checked_add', q, old), 0, 1)), canon(E.getfield(mk('call', 'CheckedAdd::checked_add', old, q), 0, 1)), canon(add(old, q))}
            nr, ns = nw[row], nw[sh]
            if k < 3:
                if ns is not sh:
                    raise Bad('a term of axis %d changes the shift to %s' % (k, show(ns)), w)
                if nr is row and any(x == 1 and y.op == 'eq' and q in y.args for y, x in extra):
                    seen.add((el is first_, k))
                    continue
                if nr is row:
                    raise Bad('a term of axis %d is dropped%s' % (k, ' when %s = %s' % (show(extra[0][0]), extra[0][1]) if extra else ''), w)
                if nr.op != 'store' or nr.args[0] is not row or nr.args[1].op != 'int':
                    raise Und('coefficients become %s' % show(nr))
                if nr.args[1].args[0] != k:
                    raise Bad('a term of axis %d is added to coefficient %d' % (k, nr.args[1].args[0]), w)
                new = canon(nr.args[2])
            else:
                if nr is not row:
                    raise Bad('a term without axis changes the coefficients to %s' % show(nr), w)
                if ns is sh:
                    raise Bad('a term without axis is dropped', w)
                new = ns
            if new is old and any(x == 1 and y.op == 'eq' and q in y.args for y, x in extra):
                seen.add((el is first_, k))
                continue            # nothing is added
            if new is old:
                raise Bad('a term of axis %d is dropped%s' % (k, ' when %s = %s' % (show(extra[0][0]), extra[0][1]) if extra else ''), w)
            if new not in want:
                if new.op == 'poly' or new is q or new.op == 'fld' and new.args[2].op == 'call' and new.args[2].args[0].startswith('Checked'):
                    raise Bad('a coefficient c and a term t give %s' % show(new), w)
                raise Und('new coefficient %s' % show(new))
            seen.add((el is first_, k))
            n += 1
        miss = [(a, k) for a in (True, False) for k in range(4) if (a, k) not in seen]
        if miss:
            raise Und('no transition for %s' % (miss,))
        return '%d transitions' % n
    ctx.ob('terms are added up', collect)

    def convert():
        o, w = find()
        if 'convert' not in o:
            raise Und('conversion')
        cl = o['convert']
        f = g.fn(cl) if cl.op == 'fn' else ctx.lib.by_id.get(cl.args[0][1])
        base = A(0) if cl.op == 'fn' else A(1)
        s = ctx.summary(f, inline_if=lambda q: q.file.endswith('parse_operator.rs') and q.kind != 'Closure')
        L = canon(mk('len', base))
        n = 0
        for p in s.returns():
            r = p.ret
            if r.op != 'agg':
                raise Und('result %s' % show(r))
            if r.args[1] == 1:
                rows, sh = canon(E.getfield(r.args[2], 0)), canon(E.getfield(r.args[2], 1))
                for t, fld in ((rows, 0), (sh, 1)):
                    if t.op != 'comp' or len(t.args[3]) != 1:
                        raise Und('rows %s' % show(t))
                    kind, ln, bv, ((cs, x),) = t.args
                    if cs:
                        raise Bad('a row is left out unless %s' % show(cs[0][0]), w)
                    expect(ln, L, 'the number of rows', w)
                    y = canon(E.getfield(mk('idx', base, bv), fld))
                    if fld == 0:
                        ok = x is y or x.op == 'islice' and x.args[0] is y and x.args[1] is INT(0) and x.args[2] in (L, canon(mk('min', L, t_len(y))), canon(mk('min', t_len(y), L)))
                        if not ok:
                            if x.op == 'islice' and x.args[0] is y and x.args[1].op == 'int':
                                raise Bad('a row is cut to %s' % show(x), w)
                            raise Und('row %s' % show(x))
                    elif x is not y:
                        if x.op in ('fld', 'idx', 'int', 'call'):
                            raise Bad('a shift is %s' % show(x), w)
                        raise Und('shift %s' % show(x))
                n += 1
            else:
                # rejected: more coordinates than axes, or an axis beyond the dimension is used
                els = [x for t, v in p.facts() for x in subterms(t) if x.op == 'ix']
                why = None
                for t, v in p.facts():
                    rl = [x for x in subterms(t) if x.op == 'len' and x.args[0].op == 'fld' and x.args[0].args[0] == 0]
                    if t.op == 'lt' and rl and len(rl) == 1:
                        c = canon(mk('lt', rl[0], L))
                        if t is c and v == 1:
                            why = 'long'
                        if t is canon(mk('lt', L, rl[0])) and v == 1 or t is canon(mk('lt', rl[0], L)) and v == 0:
                            why = why or ('short' if not any(u.op == 'eq' for u, _ in p.facts()) else None)
                    if t.op == 'eq' and v == 0 and any(x.op == 'idx' for x in t.args):
                        i = [x for x in subterms(t) if x.op == 'ix']
                        ent = [x for x in t.args if x.op == 'idx'][0]
                        if any(contains(ent.args[1], lambda z: z is L) for _ in (0,)):
                            why = 'axis'
                        elif not contains(ent.args[1], lambda z: z.op == 'len'):
                            why = 'low'
                if why == 'short':
                    raise Bad('an operator is rejected when it has fewer coordinates than axes exist', w)
                if why == 'low':
                    raise Bad('an operator is rejected when a coefficient of an axis within its dimension is not zero', w)
                n += 1
        # a row must be rejected if a coefficient beyond the dimension is not zero
        tests = [(t, v) for p in s.paths for t, v in p.facts() if t.op == 'eq' and any(x.op == 'idx' and x.args[0].op == 'fld' and x.args[0].args[0] == 0 for x in t.args)]
        lens = [(t, v) for p in s.paths for t, v in p.facts() if t.op == 'lt' and contains(t, lambda x: x.op == 'len')]
        if not tests and not any(contains(t, lambda x: x.op in ('any', 'all', 'call', 'apply')) for p in s.paths for t, v in p.facts()):
            raise Bad('coefficients of axes beyond the dimension are ignored', w)
        for t, v in tests:
            ent = [x for x in t.args if x.op == 'idx'][0]
            ix = [m[0][0] for m, c in ent.args[1].args if len(m) == 1 and m[0][0].op == 'ix'] if ent.args[1].op == 'poly' else [ent.args[1]] if ent.args[1].op == 'ix' else []
            if len(ix) == 1:
                off = canon(sub_(ent.args[1], ix[0]))
                if off is not L and not contains(off, lambda z: z.op not in ('len', 'poly', 'int', 'arg', 'fld')):
                    raise Bad('the coefficients that must vanish start at %s' % show(off), w)
        return '%d results' % n
    ctx.ob('conversion to rows', convert)

    def maps():
        r = [f for f in ctx.lib.fns if f.kind != 'Closure' and f.name == 'from_string' and 'AffineMap<' in f.path]
        if len(r) != 1:
            raise Und('reader of maps')
        w = ctx.where(r[0])
        s = ctx.summary(r[0], inline=('promote_vec',), **NC)
        po = mk('call', 'parse_operator', A(0))
        ok = canon(E.getfield(po, 0, 0))
        rest, op = canon(E.getfield(ok, 0)), canon(E.getfield(ok, 1))
        lin, sh = canon(E.getfield(op, 0)), canon(E.getfield(op, 1))
        empty = canon(mk('eq', mk('len', rest), INT(0)))
        n = 0
        for p in s.returns():
            t = p.ret
            if t.op != 'agg':
                raise Und('result %s' % show(t))
            fs = dict(p.facts())
            if t.args[1] == 1:
                if fs.get(empty) != 1:
                    if not any(contains(c, lambda z: z is rest) for c in fs):
                        raise Bad('a text is read although something is left after the operator', w)
                    if fs.get(empty) == 0:
                        raise Bad('a text is read only if something is left after the operator', w)
                    raise Und('rest')
                m = t.args[2]
                if m.op != 'call' or m.args[0] != 'AffineMap::new':
                    raise Und('map %s' % show(m))
                b1, b2 = mk('bv', 1), mk('bv', 2)
                M, v = m.args[1], m.args[2]
                prom = lambda t, b: mk('comp', 'map', t_len(t), b, (((), mk('call', 'Coord::promote', mk('idx', t, b))),))
                want = mk('call', 'Matrix::vstack', mk('comp', 'map', t_len(lin), b1, (((), mk('call', 'Matrix::row', prom(mk('idx', lin, b1), b2))),)))
                from ..summary import alpha
                if alpha(canon(M)) is not alpha(canon(want)):
                    if calls_in(M) <= {'Matrix::vstack', 'Matrix::row', 'Coord::promote', 'parse_operator', 'Matrix::transpose', 'Matrix::hstack', 'Matrix::col'}:
                        raise Bad('the linear part is %s' % show(M), w)
                    raise Und('linear part %s' % show(M))
                if alpha(canon(v)) is not alpha(canon(mk('call', 'Vector::new', prom(sh, b1)))):
                    if calls_in(v) <= {'Vector::new', 'Coord::promote', 'parse_operator', 'Vector::zero'}:
                        raise Bad('the shift is %s' % show(v), w)
                    raise Und('shift %s' % show(v))
            else:
                fine = any(c.op == 'discr' and c.args[0] is po and v == 1 or c is empty and v == 0 or contains(c, lambda z: z is sh) or contains(c, lambda z: z.op == 'call' and z.args[0] != 'parse_operator') for c, v in fs.items())
                if not fine:
                    raise Bad('a text is rejected when %s' % '; '.join('%s = %s' % (show(c), v) for c, v in fs.items()), w)
            n += 1
        pr = [f for f in ctx.lib.fns if f.kind != 'Closure' and f.name == 'promote' and 'BigInt' in f.path]
        if len(pr) == 1:
            t = canon(the_return(ctx.summary(pr[0])).ret)
            want = canon(mk('call', 'Ratio::new', mk('call', 'Ratio::numer', A(0)), mk('call', 'Ratio::denom', A(0))))
            if t is not want:
                if calls_in(t) <= {'Ratio::new', 'Ratio::numer', 'Ratio::denom', 'Ratio::from_integer', 'Ratio::to_integer'}:
                    raise Bad('a fraction becomes %s' % show(t), ctx.where(pr[0]))
                raise Und('fraction %s' % show(t))
        c = [f for f in ctx.lib.fns if f.kind != 'Closure' and f.name == 'from_string' and 'CoordinateMap<' in f.path]
        if len(c) == 1:
            s = ctx.summary(c[0], **NC)
            am = mk('call', 'from_string', A(0))
            for p in s.returns():
                t = p.ret
                if t.op == 'agg' and t.args[1] == 1:
                    fwd = canon(E.getfield(am, 0, 1))
                    if t.args[2] is not canon(mk('call', 'CoordinateMap::new', fwd)):
                        if calls_in(t) <= {'CoordinateMap::new', 'from_string', 'AffineMap::inverse'}:
                            raise Bad('the coordinate map is %s' % show(t.args[2]), ctx.where(c[0]))
                        raise Und('map %s' % show(t))
                    n += 1
        return '%d results' % n
    ctx.ob('maps from text', maps)

    def row():
        f = ctx.fn('parse_table::write_op_row')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        AX = ['x', 'y', 'z']
        n = 0
        bp = [(p, key, nw) for p, key, nw in backs(s)]
        if not bp:
            raise Und('no loop')
        VALS = [Fraction(a) for a in (-3, -1, 0, 1, 2)] + [Fraction(1, 2), Fraction(-2, 3)]
        for src in ('coefficient', 'shift'):
            for q in VALS:
                for k in (0, 1, 2):
                    for j in ((0, 1, 2) if src == 'coefficient' else (None,)):
                        texts = set()
                        for p, key, nw in bp:
                            V = [x for t, v in p.facts() for x in subterms(t) if x.op == 'idx' and x.args[0] is A(1) and x.args[1].op != 'bv']
                            iscoef = bool(V)
                            if iscoef != (src == 'coefficient'):
                                continue
                            if iscoef and len(set(V)) != 1:
                                raise Und('several coefficients')
                            v = V[0] if iscoef else A(2)
                            env = {v: q}
                            if iscoef:
                                env[v.args[1]] = j
                            for t, _ in p.facts():
                                for x in subterms(t):
                                    if x.op == 'enumix':
                                        env[x] = k
                            try:
                                if not all((sval(t, env) == y) if isinstance(y, int) else sval(t, env) not in y[1] for t, y in p.facts()
                                           if not (t.op == 'discr' and contains(t, lambda z: z.op == 'call' and z.args[0].startswith('Formatter')))
                                           and not (t.op == 'eq' and contains(t, lambda z: z.op in ('ichain', 'ifilter', 'imap')))):
                                    continue
                                texts.add(text_of(nw, env, s))
                            except NoStr as e:
                                raise Und('text %s' % e)
                        if len(texts) > 1:
                            raise Und('%d texts' % len(texts))
                        # no round of the loop: the term is left out
                        got = texts.pop() if texts else ''
                        want = '' if q == 0 else ('-' if q < 0 else '+' if k else '') + (str(abs(q)) if abs(q) != 1 or src == 'shift' else '') + (AX[j] if j is not None else '')
                        if got != want:
                            raise Bad('a %s of %s%s is written as %r after %d others' % (src, q, '' if j is None else ' on axis %s' % AX[j], got, k), w)
                        n += 1
        return '%d cases' % n

    def text_of(nw, env, s):
        ph = [x for x in nw if nw[x] is not x and nw[x].op in ('upd', 'phi')]
        if not ph:
            return ''
        if len(ph) > 1:
            raise Und('several states')
        h = nw[ph[0]]
        out = ''
        while h.op == 'upd':
            if h.args[0] == 'Formatter::write_fmt' and h.args[3].op == 'fmtargs':
                ps = h.args[3].args
            elif h.args[0] in ('Formatter::write_str',):
                ps = [h.args[3]]
            elif h.args[0] == 'Formatter::write_char':
                ps = [mk('str', chr(int(sval(h.args[3], env))))]
            else:
                raise Und('written by %s' % h.args[0])
            piece = ''
            for x in ps:
                if x.op == 'fmt':
                    if x.args[0] != 'display' or x.args[1:4] != (None, None, None):
                        raise Und('format %s' % show(x))
                    piece += str(sval(x.args[4], env))
                else:
                    piece += str(sval(x, env))
            out = piece + out
            h = h.args[2]
        if h is not ph[0]:
            raise Und('text')
        return out
    ctx.ob('writer of rows', row)

    def whole():
        f = ctx.fn('parse_table::write_op')
        w = ctx.where(f)
        s = ctx.summary(f, **NC)
        n = 0
        for p, key, nw in backs(s):
            ph = [x for x in nw if nw[x] is not x]
            if len(ph) != 1:
                raise Und('state')
            h = nw[ph[0]]
            seq = []
            while h.op == 'upd':
                seq.insert(0, h)
                h = h.args[2]
            if h is not ph[0]:
                raise Und('text')
            rows = [x for x in seq if x.args[0] == 'write_op_row']
            if len(rows) != 1:
                raise Und('rows')
            r = rows[0].args[3:]
            ix = [x for x in subterms(mk('agg', 'tuple', None, *r)) if x.op == 'ix']
            if len(set(ix)) != 1:
                raise Und('index')
            i = ix[0]
            M = A(1)
            if r[0] not in (canon(mk('call', 'Matrix::get_row', mk('call', 'AffineMap::linear_matrix', M), i)),):
                if calls_in(r[0]) <= {'Matrix::get_row', 'Matrix::get_col', 'AffineMap::linear_matrix', 'Matrix::transpose', 'AffineMap::dim'}:
                    raise Bad('the row written is %s' % show(r[0]), w)
                raise Und('row %s' % show(r[0]))
            if r[1] not in (canon(mk('idx', mk('call', 'AffineMap::shift', M), i)),):
                raise Bad('the shift written is %s' % show(r[1]), w) if calls_in(r[1]) <= {'AffineMap::shift', 'AffineMap::dim'} else Und('shift %s' % show(r[1]))
            seps = [x.args[3].args[0].args[0] for x in seq if x.args[0] == 'Formatter::write_fmt' and x.args[3].op == 'fmtargs' and len(x.args[3].args) == 1 and x.args[3].args[0].op == 'str'] + \
                   [x.args[3].args[0] for x in seq if x.args[0] == 'Formatter::write_str' and x.args[3].op == 'str'] + \
                   [chr(x.args[3].args[0]) for x in seq if x.args[0] == 'Formatter::write_char' and x.args[3].op == 'int']
            if len(seps) + 1 != len(seq):
                raise Und('pieces')
            sep = ''.join(seps)
            for k in (0, 1, 2):
                fs = [(t, v) for t, v in p.facts() if contains(t, lambda z: z is i) and not contains(subst(t, {i: mk('arg', 'i')}), lambda z: z.op == 'call')]
                try:
                    if not all(sval(t, {i: k}) == v for t, v in fs):
                        continue
                except NoStr as e:
                    raise Und('position %s' % e)
                if sep.strip() != (',' if k else ''):
                    raise Bad('%r is written before row %d' % (sep, k), w)
                if k and seq[0] is rows[0]:
                    raise Bad('the separator follows the row', w)
            n += 1
        if not n:
            raise Und('no loop')
        return '%d transitions' % n
    ctx.ob('writer of operators', whole)
