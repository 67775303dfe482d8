"""C38: printed text shows values exactly."""
import random
from fractions import Fraction
from ..graphs import *
from .. import evalt, geom, sweep
from ..geom import Geo, Mat, Panic
from .c35 import Prim

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: the formatter as a state transformed by write calls; loops replayed on the summary and the text compared with the definition'
RULE = ('Every printing function is summarised as writes to the formatter, with the failure of each write as a separate case. The writes are replayed on values of all shapes and must produce the defined text; '
        'when any one write fails, the failure must be passed on and nothing more may be written.')
PROP = {
    'title': 'Printed nets, matrices and maps show exactly their content',
    'statement': 'A shift label is printed as its coordinates in order within parentheses, an edge as its head, shift and tail, and a net as its edges, one per line. A matrix is printed as one line per row with every entry after a blank, '
                 'a vector, point or scalar product as its coordinates in this form, an affine map as rows of its linear part, each followed by the entry of its shift, and a change of coordinates as its forward map. '
                 'Entries of the space group table are printed as their names, transformation and operators on lines of their own, and a failure of the output is always reported to the caller.',
    'quantifier': {'over': ['inputs', 'fault_sequences'], 'text': 'all values of every shape and dimension, and outputs failing at any point'},
    'why_tests_cant': 'No test compares printed matrices, maps, labels, edges, nets or table entries, and none has an output that fails.',
    'anchors': {'files': ['src/pgraphs.rs', 'src/arithmetic/matrices.rs', 'src/arithmetic/geometry.rs', 'src/spacegroups/parse_table.rs'], 'mechanism': 'implementations of Display'},
}
F = Fraction
FMT = '@Fmt'


def st(v):
    return isinstance(v, tuple) and len(v) == 4 and v[0] == FMT


def isres(v):
    return isinstance(v, tuple) and len(v) > 1 and isinstance(v[0], str) and v[0].split('::')[-1].lstrip('@') == 'Result'


def lines(rows):
    return ''.join(''.join(' %s' % x for x in r) + '\n' for r in rows)


def text(v):
    """the defined text of a value"""
    if isinstance(v, Mat):
        return lines(v)
    if isinstance(v, Geo):
        if v.k == 'A':
            return ''.join(''.join(' %s' % x for x in r) + '    %s\n' % t for r, t in zip(v.p[0], (q[0] for q in v.p[1].p[0])))
        if v.k == 'C':
            return text(v.p[0])
        return lines(v.p[0])
    if isinstance(v, Rec):
        if v.k == 'label':
            return '(%s)' % ', '.join(str(x) for x in v.parts)
        if v.k == 'entry':
            n, c, t, ops = v.parts
            return 'Setting Name: %s\nGroup name: %s\nTransform: %s\nOperators:\n%s' % (n, c, opline(t), ''.join(opline(o) + '\n' for o in ops))
        if v.k == 'lookup':
            n, y, c, t = v.parts
            return 'Lookup name: %s\nCrystal system: %s\nCentering: %s\nTransform: %s\n' % (n, y, c, opline(t))
        if v.k == 'edge':
            h, t, s = v.parts
            return '%s --%s-> %s' % (h, text(s), t)
        return ''.join(text(e) + '\n' for e in v.parts[0])
    if isinstance(v, bool) or isinstance(v, (int, Fraction)):
        return str(Fraction(v))
    if isinstance(v, str):
        return v
    raise Und('text of %r' % (v,))


def opline(v):
    """an operator on one line (what it reads is decided in C14)"""
    m = v.p[0] if v.k == 'C' else v
    return '<%s>' % text(m).replace('\n', ';')


class Rec(dict):
    """a record by field number"""
    def __init__(self, k, fields, parts):
        dict.__init__(self, fields)
        self.k = k
        self.parts = parts

    def __hash__(self):
        return hash((self.k, str(self.parts)))


class Out(Prim):
    def hook(self, t, env, bvs):
        return self.hook_(t, env, bvs)

    def hook_(self, t, env, bvs):
        go = lambda x: evalt.ev(x, env, bvs)
        if t.op == 'fld':
            v = go(t.args[2])
            if isinstance(v, Rec):
                if t.args[0] not in v:
                    raise evalt.NoEval('field')
                return v[t.args[0]]
            if st(v) or isinstance(v, tuple) and v and v[0] == '@Err':
                return ('@Err',)
        if t.op == 'discr':
            v = go(t.args[0])
            if isres(v):
                return F(v[1])
        if t.op in ('upd', 'call'):
            n = t.args[0].split('::')[-1]
            args = t.args[2:] if t.op == 'upd' else t.args[1:]
            w = self.written(t.args[0], n, args, go)
            if w is not None:
                f, s = w
                bad = f[3] is not None and f[2] >= f[3]
                if t.op == 'upd':
                    return (FMT, f[1] if bad else f[1] + s, f[2] + 1, f[3])
                return ('@Result', 1, ('@Err',)) if bad else ('@Result', 0, ())
        return super().hook_(t, env, bvs)

    def written(self, name, n, a, go):
        if n in ('write_fmt', 'write_str', 'write_char', 'pad') and len(a) == 2:
            f = go(a[0])
            if not st(f):
                raise evalt.NoEval('formatter')
            return f, self.fmt(a[1], go) if n == 'write_fmt' else self.str_(a[1], go)
        if n == 'fmt' and len(a) == 2:
            x, f = go(a[0]), go(a[1])
            if st(f):
                return f, text(x)
        if len(a) == 2 and n != 'fmt':
            f = go(a[0])
            if st(f):
                x = go(a[1])
                if isinstance(x, Geo) and x.k == 'A':
                    return f, opline(x)
        return None

    def str_(self, t, go):
        if t.op == 'str':
            return t.args[0]
        v = go(t)
        if isinstance(v, str):
            return v
        if isinstance(v, Fraction) and v.denominator == 1:
            return chr(int(v))
        raise evalt.NoEval('text')

    def fmt(self, t, go):
        if t.op != 'fmtargs':
            raise evalt.NoEval('format')
        out = ''
        for x in t.args:
            if isinstance(x, str):
                out += x
            elif x.op == 'str':
                out += x.args[0]
            elif x.op == 'fmt':
                if x.args[0] != 'display' or any(y is not None and y != () for y in x.args[1:4]):
                    raise evalt.NoEval('format')
                out += text(go(x.args[4])) if x.args[4].op != 'str' else x.args[4].args[0]
            else:
                raise evalt.NoEval('format')
        return out


def run(ctx):
    CTX[0] = ctx
    own = lambda g: g.file.endswith(('pgraphs.rs', 'geometry.rs', 'matrices.rs')) and g.name not in ('shape', 'fmt')

    def fields(path, *names):
        a = [d for p, d in ctx.lib.adts.items() if p.endswith(path)]
        if len(a) != 1:
            raise Und('no record %s' % path)
        fs = [f['name'] for f in a[0]['variants'][0]['fields']]
        if any(n not in fs for n in names):
            raise Und('fields of %s' % path)
        return [fs.index(n) for n in names]

    def rec(k, path, names, parts):
        return Rec(k, dict(zip(fields(path, *names), parts)), parts)

    def label(xs):
        return rec('label', 'pgraphs::LabelVector%dd' % len(xs), 'xyz'[:len(xs)], [F(x) for x in xs])

    def edge(h, t, xs):
        return rec('edge', 'pgraphs::Edge', ('head', 'tail', 'shift'), [F(h), F(t), label(xs)])

    def graph(es):
        return rec('graph', 'pgraphs::Graph', ('edges',), [es])

    r = random.Random(7)
    q = lambda: F(r.choice([r.randint(-4, 4), 0, 12345678901234567890]), r.choice([1, 1, 2, 3, 2 ** 40 + 1]))
    V = lambda xs: Geo('V', geom.col(xs))
    P_ = lambda xs: Geo('P', geom.col(xs))
    lab = lambda d: [r.choice([r.randint(-3, 3), 0, 123456, -2 ** 31]) for _ in range(d)]

    def mats():
        for m, n in ((1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 17), (17, 1), (9, 11)):
            yield geom.mat([[q() for _ in range(n)] for _ in range(m)])

    def sq():
        for n in (1, 2, 3, 4, 7):
            yield geom.mat([[q() for _ in range(n)] for _ in range(n)])

    def maps():
        for m in sq():
            yield geom.affine(m, V([q() for _ in range(m.r)]))

    def cmaps():
        for n in (2, 3):
            while True:
                m = geom.mat([[q() for _ in range(n)] for _ in range(n)])
                if geom.det(m) != 0:
                    break
            yield geom.cmap(geom.affine(m, V([q() for _ in range(n)])))

    def edges(d):
        return [edge(r.choice([0, r.randint(1, 12), 2 ** 32 - 1]), r.randint(1, 12), lab(d)) for _ in range(5)]

    KINDS = [
        ('matrices', 'matrices::Matrix', mats),
        ('vectors', 'geometry::Vector', lambda: [V([q() for _ in range(n)]) for n in (1, 2, 3, 4, 12)]),
        ('points', 'geometry::Point', lambda: [P_([q() for _ in range(n)]) for n in (1, 2, 3, 4, 12)]),
        ('scalar products', 'geometry::ScalarProduct', lambda: [geom.scalar_product(geom.mmul(m, geom.transp(m))) for m in sq() if geom.det(m) != 0]),
        ('affine maps', 'geometry::AffineMap', maps),
        ('coordinate changes', 'geometry::CoordinateMap', cmaps),
        ('labels in the plane', 'pgraphs::LabelVector2d', lambda: [label(lab(2)) for _ in range(6)]),
        ('labels in space', 'pgraphs::LabelVector3d', lambda: [label(lab(3)) for _ in range(6)]),
        ('edges', 'pgraphs::Edge', lambda: edges(2) + edges(3)),
        ('nets', 'pgraphs::Graph', lambda: [graph(edges(2)), graph(edges(3) * 4), graph(edges(2)[:1])]),
    ]

    def op(n):
        return geom.affine(geom.mat([[F(r.randint(-1, 1)) for _ in range(n)] for _ in range(n)]), V([q() for _ in range(n)]))

    def entries():
        for n, k in ((2, 3), (3, 5), (3, 0), (2, 15)):
            yield rec('entry', 'parse_table::TableEntry', ('name', 'canonical_name', 'transform', 'operators'), ['P' + 'x' * k, 'C2', r.choice(list(cmaps())), [op(n) for _ in range(k)]])

    def lookups():
        for y, c in (('cubic', 'F'), ('oblique', 'p')):
            yield rec('lookup', 'parse_table::Lookup', ('name', 'system', 'centering', 'from_std'), ['P2', y, c, r.choice(list(cmaps()))])

    KINDS += [('settings in the table', 'parse_table::TableEntry', entries), ('lookups in the table', 'parse_table::Lookup', lookups)]

    def printed(what, ty, values):
        f = pyfn(ctx, ty, 'fmt::Display', 'fmt')
        s = ctx.summary(f, inline_if=own)
        w = ctx.where(f)
        n = 0
        und = None

        def one(v, fail):
            try:
                x, h = sweep.Sweep(s, hook=Out(ctx).hook, args={A(0): v, A(1): (FMT, '', 0, fail)}, limit=200, early=True).result(
                    what=lambda p: (p.raw_ret, s.eng.read_cell(p.st, ('A', 1), ())))
            except evalt.NoEval as e:
                raise Und('not evaluated: %s' % e)
            if not st(h) or not isres(x):
                raise Und('result %r, %r' % (x, h))
            return x[1], h

        for v in values():
            want = text(v)
            try:
                ok, h = one(v, None)
                if h[1] != want:
                    raise Bad('%r is printed as %r' % (want, h[1]), w)
                if ok != 0:
                    raise Bad('printing %r reports a failure' % want, w)
                for k in [k for k in range(h[2]) if h[2] < 30 or k < 3 or k > h[2] - 4 or k % 7 == 5]:
                    ok2, h2 = one(v, k)
                    if ok2 == 0 or h2[2] != k + 1:
                        raise Bad('printing %r goes on after a write failed' % want, w)
                n += 1
            except Panic:
                raise Bad('printing %r fails' % want, w)
            except Und as e:
                und = und or e
        if und:
            raise und
        ctx.counts['values printed'] = ctx.counts.get('values printed', 0) + n
        return '%d values' % n

    for k in KINDS:
        ctx.ob('text of %s' % k[0], printed, *k)
