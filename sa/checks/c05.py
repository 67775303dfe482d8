"""C05: equality, hashing and ordering agree."""
import itertools
import re

from ..rules import *
from ..mir import strip_generics, short

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: comparison functions summarised as decision tables over their fields and decided on all relations between fields; dataflow of hashed values to iteration order'
RULE = ('Every comparison and hash function of every type of the crate, derived or written, is summarised. On all values over a small domain per field, equality must be agreement in every field, ordering must be a total order that calls values equal exactly when equality does, '
        'and partial ordering must be the same; what is hashed must be a function of what is compared, so not of the iteration order of a hash map.')
PROP = {
    'title': 'Equality, hashing and ordering of values agree with each other',
    'statement': 'For every value type of the library, two values are equal exactly when all their data are; equal values have equal hashes, whatever the history of the maps they contain; and where values are ordered, the order is total, '
                 'the partial order is the same, and values compare as equal exactly when they are.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all types of the library with equality, hashing or ordering, and all their values'},
    'why_tests_cant': 'A violation makes sets and maps lose or repeat elements only for particular values and map histories.',
    'anchors': {'files': ['src/pgraphs.rs', 'src/arithmetic/geometry.rs', 'src/arithmetic/matrices.rs'],
                'mechanism': 'equality, hash and order of edges, label vectors and automorphisms; of points, vectors, maps and matrices'},
}
# fields that are determined by the other fields
DEPENDENT = {'CoordinateMap': [{'backward'}], 'Matrix': [{'nrows'}, {'ncols'}]}


class No(Exception):
    pass


class Sum(tuple):
    """enum value (variant, fields...)"""


def ev(t, env):
    if t in env:
        return env[t]
    o = t.op
    if o == 'int':
        return t.args[0]
    if o == 'not':
        return 1 - ev(t.args[0], env)
    if o == 'and':
        return int(all(ev(x, env) for x in t.args))
    if o == 'or':
        return int(any(ev(x, env) for x in t.args))
    if o == 'agg':
        if t.args[0].endswith('Ordering'):
            return t.args[1] - 1
        v = tuple(ev(x, env) for x in t.args[2:])
        if t.args[0] in ('tuple', 'array', 'closure'):
            return v
        return Sum((t.args[1],) + v)
    if o == 'fld':
        v = ev(t.args[2], env)
        if isinstance(v, Sum):
            return v[1 + t.args[0]]
        if isinstance(v, tuple):
            return v[t.args[0]]
        raise No(show(t))
    if o == 'discr':
        v = ev(t.args[0], env)
        if isinstance(v, Sum):
            return v[0]
        if isinstance(v, int):
            return v
        raise No(show(t))
    if o == 'eq':
        return int(ev(t.args[-2], env) == ev(t.args[-1], env))
    if o == 'lt':
        a, b = ev(t.args[-2], env), ev(t.args[-1], env)
        return int(a < b)
    if o == 'cmp':
        a, b = ev(t.args[-2], env), ev(t.args[-1], env)
        return (a > b) - (a < b)
    if o == 'ite':
        return ev(t.args[1], env) if ev(t.args[0], env) else ev(t.args[2], env)
    if o == 'call':
        n = t.args[0]
        a = t.args[1:]
        if n in ('Ordering::then',):
            return ev(a[0], env) or ev(a[1], env)
        if n == 'Ordering::reverse':
            return -ev(a[0], env)
        if n in ('Ordering::is_eq', 'Ordering::is_lt', 'Ordering::is_gt', 'Ordering::is_ne', 'Ordering::is_le', 'Ordering::is_ge'):
            v = ev(a[0], env)
            return int({'eq': v == 0, 'lt': v < 0, 'gt': v > 0, 'ne': v != 0, 'le': v <= 0, 'ge': v >= 0}[n[-2:]])
    if o == 'add':
        return sum(ev(x, env) for x in t.args)
    if o in ('deref', 'ref', 'clone'):
        return ev(t.args[-1], env)
    if o == 'neg':
        return -ev(t.args[0], env)
    if o == 'poly':
        r = 0
        for mono, k in t.args:
            q = k
            for x, e in mono:
                q *= ev(x, env) ** e
            r += q
        return r
    if o == 'sub':
        return ev(t.args[0], env) - ev(t.args[1], env)
    if o == 'mul':
        r = 1
        for x in t.args:
            r *= ev(x, env)
        return r
    if o == 'abs' or o == 'call' and str(t.args[0]).endswith('abs'):
        return abs(ev(t.args[-1], env))
    if o == 'call' and t.args[0] in ('LabelVector::is_negative', 'Signed::is_negative'):
        return int(ev(t.args[-1], env) < 0)
    raise No(show(t))


def holds(c, v, env):
    x = ev(c, env)
    if isinstance(v, tuple) and v and v[0] == 'not':
        return not any((x - k) % 256 == 0 if isinstance(x, int) else x == k for k in v[1])
    return (x - v) % 256 == 0 if c.op == 'discr' else x == v


def value(s, env):
    for p in s.paths:
        if p.kind != 'return':
            continue
        if all(holds(c, v, env) for c, v in p.facts()):
            return ev(p.ret, env)
    raise No('no path applies')


def domain(ctx, adt):
    """values of the type over a small domain per field"""
    def flds(v):
        return [[0] if 'PhantomData' in ctx.lib.tstr(f['ty']) else None for f in v['fields']]
    if adt['kind'] == 'struct':
        fs = flds(adt['variants'][0])
        k = sum(f is None for f in fs)
        dom = [-1, 0, 1] if k <= 3 else [-1, 1]
        return [tuple(x) for x in itertools.product(*[f or dom for f in fs])]
    out = []
    for i, v in enumerate(adt['variants']):
        fs = flds(v)
        out += [Sum((i,) + x) for x in itertools.product(*[f or [0, 1, 2] for f in fs])]
    return out


METHODS = re.compile(r'^<(.*) as (?:std|core)::(cmp|hash)::(\w+)(?:<.*>)?>::(\w+)$')


def run(ctx):
    types = {}
    for f in ctx.lib.fns:
        if f.kind == 'Closure':
            continue
        m = METHODS.match(f.path)
        if m:
            types.setdefault(strip_generics(m.group(1)), {})[m.group(4)] = f
    a0, a1 = A(0), A(1)
    for ty, ms in sorted(types.items()):
        adt = ctx.lib.adts.get(ty)
        name = ty.split('::')[-1]
        if adt is None or len(adt['variants']) == 0:
            continue
        dom = domain(ctx, adt)
        fnames = [f['name'] for f in adt['variants'][0]['fields']]

        def eqs(f):
            s = ctx.summary(f)
            out = {}
            for x in dom:
                for y in dom:
                    out[x, y] = value(s, {a0: x, a1: y})
            return out

        if 'eq' in ms:
            def same(ms=ms, dom=dom, name=name, adt=adt, eqs=eqs, fnames=fnames):
                try:
                    r = eqs(ms['eq'])
                except No as e:
                    raise Und('comparison in another form: %s' % e)
                for (x, y), v in r.items():
                    if v and x != y:
                        diff = {fnames[i] for i in range(len(x)) if x[i] != y[i]} if adt['kind'] == 'struct' else None
                        if diff is not None and any(d >= diff for d in DEPENDENT.get(name, ())):
                            continue
                        raise Bad('values of %s that differ%s are equal' % (name, ' in ' + ', '.join(sorted(diff)) if diff else ''), ctx.where(ms['eq']))
                    if not v and x == y:
                        raise Bad('equal values of %s are not equal' % name, ctx.where(ms['eq']))
                return '%d pairs of values' % len(r)
            ctx.ob('equality of %s' % name, same)
        if 'ne' in ms:
            def ne(ms=ms, dom=dom, name=name, eqs=eqs):
                try:
                    r, q = eqs(ms['ne']), eqs(ms['eq'])
                except No as e:
                    raise Und(str(e))
                for k in r:
                    if bool(r[k]) == bool(q[k]):
                        raise Bad('inequality of %s is not the opposite of equality' % name, ctx.where(ms['ne']))
                return '%d pairs' % len(r)
            ctx.ob('inequality of %s' % name, ne)
        if 'cmp' in ms:
            def total(ms=ms, dom=dom, name=name, eqs=eqs):
                try:
                    r = eqs(ms['cmp'])
                    q = eqs(ms['eq'])
                except No as e:
                    raise Und('comparison in another form: %s' % e)
                w = ctx.where(ms['cmp'])
                for (x, y), v in r.items():
                    if (v == 0) != bool(q[x, y]):
                        raise Bad('the order of %s and its equality disagree' % name, w)
                    if r[y, x] != -v:
                        raise Bad('the order of %s is not antisymmetric' % name, w)
                for x in dom:
                    for y in dom:
                        if r[x, y] < 0:
                            for z in dom:
                                if r[y, z] < 0 and r[x, z] >= 0:
                                    raise Bad('the order of %s is not transitive' % name, w)
                return '%d triples of values' % len(dom) ** 3
            ctx.ob('order of %s' % name, total)
        if 'partial_cmp' in ms:
            def partial(ms=ms, dom=dom, name=name, eqs=eqs):
                try:
                    sp = ctx.summary(ms['partial_cmp'], inline_if=lambda g: g is ms.get('cmp'))
                    sc = ctx.summary(ms['cmp']) if 'cmp' in ms else None
                    for x in dom:
                        for y in dom:
                            env = {a0: x, a1: y}
                            v = value(sp, env)
                            if v[0] != 1 or sc is not None and v[1] != value(sc, env):
                                raise Bad('the partial order of %s is not its order' % name, ctx.where(ms['partial_cmp']))
                except No as e:
                    raise Und('comparison in another form: %s' % e)
                return 'same on %d pairs' % len(dom) ** 2
            if 'cmp' in ms:
                ctx.ob('partial order of %s' % name, partial)
        for k in ('lt', 'le', 'gt', 'ge', 'max', 'min'):
            if k in ms and 'cmp' in ms:
                def rel(k=k, ms=ms, dom=dom, name=name, eqs=eqs):
                    try:
                        r, q = eqs(ms[k]), eqs(ms['cmp'])
                    except No as e:
                        raise Und(str(e))
                    for (x, y), v in r.items():
                        c = q[x, y]
                        w = {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'max': y if c <= 0 else x, 'min': x if c <= 0 else y}[k]
                        if v != w:
                            raise Bad('%s of %s disagrees with its order' % (k, name), ctx.where(ms[k]))
                    return '%d pairs' % len(r)
                ctx.ob('%s of %s' % (k, name), rel)
        if 'hash' in ms:
            ctx.ob('hash of %s' % name, hashed, ctx, ms, adt, name, dom, eqs)


def hashed(ctx, ms, adt, name, dom, eqs):
    f = ms['hash']
    s = ctx.summary(f)
    w = ctx.where(f)
    q = None
    n = 0
    for p in s.paths:
        t = p.heap(('A', 1))
        while t.op == 'upd' and 'hash' in str(t.args[0]).lower() or t.op == 'upd' and str(t.args[0]).startswith('Hasher::'):
            x = t.args[2] if t.args[1] == 0 else t.args[-1]
            t = t.args[-1]
            n += 1
            for y in subterms(x):
                if y.op in ('mentries', 'mkeys', 'mvals', 'mvalues', 'sentries') and not sorted_in(x, y):
                    if unordered(ctx, adt, y):
                        raise Bad('the hash of %s depends on the iteration order of a hash map' % name, w)
                if y.op == 'call' and str(y.args[0]).split('::')[-1] in ('capacity', 'as_ptr', 'elapsed', 'now', 'id'):
                    raise Bad('the hash of %s depends on %s, not only on its value' % (name, y.args[0]), w)
                if y.op in ('addr', 'rawptr'):
                    raise Bad('the hash of %s depends on an address' % name, w)
            for i in range(len(adt['variants'][0]['fields'])) if adt['kind'] == 'struct' else ():
                if any(y.op == 'fld' and y.args[0] == i and y.args[2] is A(0) for y in subterms(x)):
                    if q is None:
                        try:
                            q = eqs(ms['eq']) if 'eq' in ms else {}
                        except No as e:
                            raise Und(str(e))
                    for (u, v), r in q.items():
                        if r and u[i] != v[i] and not any(adt['variants'][0]['fields'][i]['name'] in d for d in DEPENDENT.get(name, ())):
                            raise Bad('the hash of %s depends on %s, which its equality ignores' % (name, adt['variants'][0]['fields'][i]['name']), w)
        if t is not A(1):
            for x in subterms(t):
                if x.op in ('mentries', 'mkeys', 'mvals', 'mvalues', 'sentries') and unordered(ctx, adt, x) and not sorted_in(t, x):
                    if any(y.op == 'upd' and 'hash' in str(y.args[0]).lower() and y.args[-1].op in ('phi', 'A') for y in subterms(t)):
                        raise Bad('the hash of %s depends on the iteration order of a hash map' % name, w)
            # a loop over the entries that feeds the hasher
            raise Und('hasher updated in another form: %s' % show(t)[:120])
    return '%d values hashed on %d paths, none depends on iteration order' % (n, len(s.paths))


def sorted_in(x, y):
    """every occurrence of y within x lies below a sort"""
    if x is y:
        return False
    if x.op.startswith('sort') or x.op in ('len', 'set', 'toset', 'bset', 'bmap') or x.op == 'call' and ('sort' in str(x.args[0]) or 'BTree' in str(x.args[0])):
        return True
    return all(sorted_in(z, y) for z in x.args if isinstance(z, T) and any(q is y for q in subterms(z)))


def unordered(ctx, adt, y):
    """y iterates over a HashMap or HashSet field"""
    b = y.args[0]
    if b.op == 'fld' and b.args[2] is A(0):
        f = adt['variants'][0]['fields'][b.args[0]]
        return 'Hash' in ctx.lib.tstr(f['ty'])
    return False
