"""C17: shift labels form a lexicographically ordered group."""
import itertools
from ..rules import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR to algebraic normal form; exhaustive sign-case decision tables'
RULE = ('Negation, addition, subtraction, conversion and construction of the two- and three-dimensional shift labels are put in '
        'closed form (polynomials over the components) and compared with the componentwise definition. The sign predicates and '
        'comparison methods are decided over every case of component signs / component orders (finite, exhaustive).')
PROP = {
    'title': 'Shift labels are a lexicographically ordered group',
    'statement': 'For the two- and three-dimensional shift labels negation, addition and subtraction act on each component, conversion '
                 'to and from coordinate lists keeps the order of the components, and the zero label has only zero components. Exactly '
                 'one of is-zero, is-positive and is-negative holds for each label: the sign is that of its first nonzero component, '
                 'and labels are compared by their first differing component.',
    'quantifier': {'over': ['inputs'], 'text': 'all labels with components whose sums stay in the integer range'},
    'why_tests_cant': 'Every sign and order pattern of up to three components matters; no test addresses the label operations directly.',
    'anchors': {'files': ['src/pgraphs.rs'], 'mechanism': 'operator implementations of the label types; sign predicates; derived order'},
}
SELF = {2: 'LabelVector2d', 3: 'LabelVector3d'}


class Comp:
    """which field holds component i: what the conversion to a coordinate list says"""

    def __init__(self, ctx, d):
        f = pyfn(ctx, 'pgraphs::' + SELF[d], 'LabelVector', 'to_vec')
        r = the_return(ctx.summary(f, **infile('pgraphs.rs'))).ret
        if r.op != 'agg' or r.args[0] != 'array':
            raise Und('coordinate list %s' % show(r))
        if len(r.args) != d + 2:
            raise Bad('the coordinate list of a %dd label has %d entries' % (d, len(r.args) - 2), ctx.where(f))
        self.p = []
        for x in r.args[2:]:
            if x.op != 'fld' or x.args[2] is not A(0):
                if opaque_in(x) is None:
                    raise Bad('an entry of the coordinate list is %s' % show(x), ctx.where(f))
                raise Und('coordinate list entry %s' % show(x))
            self.p.append(x.args[0])
        if len(set(self.p)) != d:
            raise Bad('the coordinate list repeats a component: %s' % show(r), ctx.where(f))
        self.d = d

    def __call__(self, a):
        """components of argument a or term a"""
        t = A(a) if isinstance(a, int) else a
        if t.op == 'agg' and t.args[0] != 'array':
            return [t.args[2 + i] for i in self.p]
        return [E.getfield(t, i, None) for i in self.p]


def run(ctx):
    file = infile('pgraphs.rs')
    for d in (2, 3):
        S = SELF[d]
        T_ = 'pgraphs::' + S

        def arith(trait, name, op):
            C = Comp(ctx, d)
            f = pyfn(ctx, T_, trait, name, refself=False)
            rs = ctx.summary(f, **file).returns()
            if not rs:
                raise Bad('never returns', ctx.where(f))
            for p in rs:
                for i, (c, a, b) in enumerate(zip(C(p.ret), C(0), C(1))):
                    want = {'neg': neg(a), 'add': add(a, b), 'sub': sub_(a, b)}[op]
                    expect(c, want, 'component %d of %s' % (i, name), ctx.where(f), facts=p.facts())
            return '%d components' % d
        for trait, name in (('Neg', 'neg'), ('Add', 'add'), ('Sub', 'sub')):
            ctx.ob('%s of %dd labels is componentwise' % (name, d), arith, trait, name, name)

        def conv(what):
            C = Comp(ctx, d)
            if what == 'from_vec':
                f = pyfn(ctx, T_, 'LabelVector', 'from_vec')
                s = ctx.summary(f, **file)
                n = 0
                for p in s.returns():
                    n += 1
                    for i, c in enumerate(C(p.ret)):
                        expect(c, E.getidx(A(0), INT(i)), 'component %d made from a coordinate list' % i, ctx.where(f))
                    L = canon(t_len(A(0)))
                    if not has(p, mk('eq', INT(d), L), 1) and not any(contains(t, lambda x: x is L) for t, v in p.facts()):
                        raise Bad('a coordinate list of any length is accepted', ctx.where(f))
                if not n:
                    raise Bad('never returns', ctx.where(f))
            elif what == 'new':
                f = ctx.fn(S + '::new', public=True)
                p = the_return(ctx.summary(f, **file))
                for i, c in enumerate(C(p.ret)):
                    expect(c, A(i), 'component %d of a new label' % i, ctx.where(f))
            elif what == 'zero':
                f = pyfn(ctx, T_, 'LabelVector', 'zero')
                p = the_return(ctx.summary(f, **file))
                for i, c in enumerate(C(p.ret)):
                    expect(c, INT(0), 'component %d of zero' % i, ctx.where(f))
            else:
                f = pyfn(ctx, T_, 'LabelVector', 'dim')
                expect(the_return(ctx.summary(f, **file)).ret, INT(d), 'the dimension', ctx.where(f))
        for w in ('from_vec', 'new', 'zero', 'dim'):
            ctx.ob('%s of %dd labels' % (w, d), conv, w)

        def signs(name, test):
            C = Comp(ctx, d)
            f = pyfn(ctx, T_, 'LabelVector', name)
            s = ctx.summary(f, **file)
            n = 0
            for sg in itertools.product(cells(s), repeat=d):
                c = Cases(ivl=dict(zip(C(0), sg)))
                sg = tuple(cell_sign(x) for x in sg)
                r = c.outcome(s)
                v = c.value(r) if isinstance(r, T) else None
                if v is None:
                    raise Und('value %s' % r)
                first_ = next((x for x in sg if x), 0)
                if v != int(test(first_)):
                    raise Bad('%s gives %s for component signs %s' % (name, bool(v), sg), ctx.where(f))
                n += 1
            return '%d sign cases' % n
        ctx.ob('is_zero of %dd labels' % d, signs, 'is_zero', lambda x: x == 0)
        ctx.ob('is_negative of %dd labels' % d, signs, 'is_negative', lambda x: x < 0)
        ctx.ob('is_positive of %dd labels' % d, signs, 'is_positive', lambda x: x > 0)

        def order(trait, name):
            C = Comp(ctx, d)
            f = pyfn(ctx, T_, trait, name)
            s = ctx.summary(f, **file)
            n = 0
            for iv in itertools.product(cells(s), repeat=d):
                sg = tuple(cell_sign(x) for x in iv)
                od = {(a, b): x for a, b, x in zip(C(0), C(1), sg)}
                bl = {}
                for q in range(d + 2):
                    if q not in C.p:
                        od[(A(0, q), A(1, q))] = 0
                        bl[mk('eq', A(0, q), A(1, q))] = 1
                c = Cases(order=od, bools=bl, ivl={mk('sub', 'i', a, b): x for a, b, x in zip(C(0), C(1), iv)})
                r = c.outcome(s)
                if not isinstance(r, T):
                    raise Und('panics')
                want = next((x for x in sg if x), 0)
                if name == 'partial_cmp':
                    if r.op == 'agg' and r.args[1] == 1:
                        r = r.args[2]
                    else:
                        raise Und('result %s' % show(r))
                v = order_val(c, r)
                if v is None:
                    raise Und('result %s' % show(r))
                if name == 'eq':
                    want = int(want == 0)
                if v != want:
                    raise Bad('%s of two labels is %s when the components compare as %s' % (name, v, sg), ctx.where(f))
                n += 1
            return '%d order cases' % n
        ctx.ob('cmp of %dd labels is lexicographic' % d, order, 'Ord', 'cmp')
        ctx.ob('partial_cmp of %dd labels is lexicographic' % d, order, 'PartialOrd', 'partial_cmp')
        ctx.ob('eq of %dd labels' % d, order, 'PartialEq', 'eq')


def order_val(c, r):
    if r.op == 'agg' and r.args[0].endswith('Ordering'):
        return {0: -1, 1: 0, 2: 1}.get(r.args[1])
    return c.value(r)
