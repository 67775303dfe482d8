"""Instances of symbolic forms: two closed forms are only called different when they disagree on some instance.

This evaluates summaries (terms), never the program: it is the confirmation step that keeps a merely differently
shaped closed form of the same function from being reported."""
import hashlib
import os
from fractions import Fraction
from .terms import *


class NoEval(Exception):
    pass


class Oob(NoEval):
    pass


class Leaf:
    """an unknown value, identified by how it was obtained"""
    __slots__ = ('key', 'env')

    def __init__(self, env, key):
        self.env = env
        self.key = key

    def h(self, salt=''):
        d = hashlib.sha1(('%s|%s|%r' % (self.env.seed, salt, self.key)).encode()).digest()
        return int.from_bytes(d[:6], 'big')

    def num(self):
        v = self.env.given.get(self.key)
        if v is not None:
            return v
        if 'position' in repr(self.key):
            # coordinates are fractions of either sign
            return Fraction(self.h() % 25 - 12, 3)
        ls = self.env.lits
        if ls and self.h('q') % 4 == 0:
            return Fraction(ls[self.h('lit') % len(ls)])
        return Fraction(self.h() % 9 - 4)

    def size(self):
        v = self.env.given.get(('len', self.key))
        if v is not None:
            return v
        ls = self.env.sizes
        if ls and self.h('qs') % 3 == 0:
            return ls[self.h('ls') % len(ls)]
        return self.h('len') % 4

    def bool(self):
        v = self.env.given.get(self.key)
        if v is not None:
            return int(v)
        return self.h('b') % 2

    def __eq__(self, o):
        return isinstance(o, Leaf) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Leaf%r' % (self.key,)


class Env:
    def __init__(self, seed=0, given=None, bind=None):
        self.seed = seed
        self.given = {}
        self.bind = dict(bind or {})      # canonical term -> value
        self.memo = {}
        self.strict = False               # unknown values are not given arbitrary ones
        self.lits = ()                    # values near the constants of the forms compared
        self.sizes = ()
        self.hook = None                  # (term, env, bvs) -> value or NotImplemented
        for k, v in (given or {}).items():
            self.given[k] = v


SETLIST = [False]       # sets may be read as sorted lists


def num(v):
    if isinstance(v, Leaf):
        return v.num()
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    raise NoEval('number expected: %r' % (v,))


def cnt(v):
    """items of a range that may run backwards"""
    n = num(v)
    return 0 if n < 0 else nat(n)


def nat(v):
    n = num(v)
    if n.denominator != 1 or n < 0 or n > 200:
        raise NoEval('natural number expected: %s' % n)
    return int(n)


def lst(v, env):
    if isinstance(v, list):
        return v
    if isinstance(v, Leaf):
        return [Leaf(env, ('idx', v.key, Fraction(i))) for i in range(v.size())]
    if SETLIST[0] and isinstance(v, frozenset):
        import functools
        return sorted(v, key=functools.cmp_to_key(order))
    raise NoEval('list expected: %r' % (v,))


def key_of(v):
    if isinstance(v, Leaf):
        return v.key
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(key_of(x) for x in v)
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    return v


def flat_val(v):
    """comparable form: numbers stay numbers, unknown leaves become their numbers"""
    if isinstance(v, Leaf):
        return ('n', v.num())
    if isinstance(v, (int, Fraction)):
        return ('n', Fraction(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(flat_val(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted((repr(flat_val(k)), repr(flat_val(x))) for k, x in v.items()))
    if isinstance(v, frozenset):
        return ('set',) + tuple(sorted(repr(flat_val(x)) for x in v))
    return v


def order(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for x, y in zip(a, b):
            c = order(x, y)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    x, y = num(a), num(b)
    return (x > y) - (x < y)


def ev(t, env, bvs=()):
    if not bvs:
        r = env.memo.get(t.id)
        if r is not None:
            return r
    r = ev_(t, env, bvs)
    if not bvs:
        env.memo[t.id] = r
    return r


def ev_(t, env, bvs):
    o, a = t.op, t.args
    if t in env.bind:
        return env.bind[t]
    if env.hook is not None:
        r = env.hook(t, env, bvs)
        if r is not NotImplemented:
            return r
    go = lambda x: ev(x, env, bvs)
    if o == 'int':
        return Fraction(a[0])
    if o == 'rat':
        return Fraction(a[0], a[1])
    if o == 'str':
        return a[0]
    if o == 'bv' or o == 'ix':
        for k, v in reversed(bvs):
            if k is t:
                return v
        if o == 'ix':
            n = nat(go(a[1]))
            k = Leaf(env, ('ix', repr(a[0]), n))
            if n == 0:
                raise NoEval('no iteration')
            return Fraction(k.h() % n)
        raise NoEval('free index')
    if o == 'poly':
        s = Fraction(0)
        for m, c in a:
            q = Fraction(c)
            for x, e in m:
                v = num(go(x))
                q *= v ** e
            s += q
        return s
    if o == 'inv':
        v = num(go(a[0]))
        if v == 0:
            raise NoEval('division by zero')
        return 1 / v
    if o in ('add', 'sub', 'mul', 'div', 'rem', 'neg'):
        if a[0] == 'm':
            raise NoEval('matrix arithmetic')
        x = num(go(a[1]))
        if o == 'neg':
            return -x
        y = num(go(a[2]))
        if o == 'add':
            return x + y
        if o == 'sub':
            return x - y
        if o == 'mul':
            return x * y
        if y == 0:
            raise NoEval('division by zero')
        if a[0] in ('q', 'f'):
            if o == 'div':
                return x / y
            r = x / y
            q = int(r)          # truncation
            return x - q * y
        if a[0] == 'p' and o == 'div':
            if env.strict:
                raise NoEval('division in an arbitrary ring')
            return Fraction(Leaf(env, ('div', x, y)).h() % 9 - 4)
        if x.denominator != 1 or y.denominator != 1:
            raise NoEval('integer division of fractions')
        q = abs(x) // abs(y)
        q = q if (x >= 0) == (y > 0) else -q
        return Fraction(q) if o == 'div' else x - q * y
    if o == 'remeu':
        x, y = num(go(a[0])), num(go(a[1]))
        if y == 0:
            raise NoEval('division by zero')
        return x - abs(y) * ((x / abs(y)).__floor__())
    if o == 'diveu':
        x, y = num(go(a[0])), num(go(a[1]))
        if y == 0:
            raise NoEval('division by zero')
        return (x - abs(y) * ((x / abs(y)).__floor__())) * 0 + Fraction((x / abs(y)).__floor__()) * (1 if y > 0 else -1)
    if o == 'floor':
        return Fraction(num(go(a[0])).__floor__())
    if o == 'trunc':
        x = num(go(a[0]))
        return Fraction(int(x))
    if o == 'abs':
        return abs(num(go(a[0])))
    if o in ('min', 'max'):
        x, y = num(go(a[0])), num(go(a[1]))
        return min(x, y) if o == 'min' else max(x, y)
    if o == 'lt':
        return int(order(go(a[0]), go(a[1])) < 0)
    if o == 'eq':
        return int(flat_val(go(a[0])) == flat_val(go(a[1])))
    if o == 'not':
        return 1 - boolv(go(a[0]))
    if o == 'ite':
        return go(a[1]) if boolv(go(a[0])) else go(a[2])
    if o == 'cmp':
        return order(go(a[0]), go(a[1]))
    if o == 'agg':
        vs = [go(x) for x in a[2:]]
        if a[0] == 'array':
            return vs
        if a[0] == 'tuple':
            return tuple(vs)
        return ('@' + str(a[0]), a[1]) + tuple(vs)
    if o == 'fld':
        v = go(a[2])
        if isinstance(v, Leaf):
            return leaf(env, ('fld', a[0], v.key))
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0].startswith('@'):
                return v[2 + a[0]]
            return v[a[0]]
        raise NoEval('field of %r' % (v,))
    if o == 'with':
        v = go(a[0])
        x = go(a[2])
        if isinstance(v, Leaf):
            return ('with', v.key, a[1], x)
        if isinstance(v, tuple):
            k = a[1] + (2 if v and isinstance(v[0], str) and v[0].startswith('@') else 0)
            if k < len(v) and not (v and v[0] == 'with'):
                return v[:k] + (x,) + v[k + 1:]
        raise NoEval('with')
    if o == 'idx':
        v = go(a[0])
        i = go(a[1])
        if isinstance(v, Leaf):
            return leaf(env, ('idx', v.key, key_of(num(i)) if not isinstance(i, (tuple, list)) else key_of(i)))
        if isinstance(v, list):
            n = nat(i)
            if n >= len(v):
                raise Oob('index out of range')
            return v[n]
        raise NoEval('index of %r' % (v,))
    if o == 'len':
        v = go(a[0])
        if isinstance(v, Leaf):
            return Fraction(v.size())
        if isinstance(v, (list, str, frozenset, dict)):
            return Fraction(len(v))
        raise NoEval('len')
    if o == 'comp':
        kind, n, I, cs = a
        n = cnt(go(n))
        out = []
        for k in range(n):
            b = bvs + ((I, Fraction(k)),)
            for fs, x in cs:
                if all(fact_val(f, v, env, b) for f, v in fs):
                    y = ev(x, env, b)
                    if kind == 'flat':
                        out.extend(lst(y, env))
                    else:
                        out.append(y)
                    break
        return out
    if o == 'fold' and len(a) == 5:
        n, I, acc, init, v = a
        x = go(init)
        for k in range(cnt(go(n))):
            x = ev(v, env, bvs + ((I, Fraction(k)), (acc, x)))
        return x
    if o == 'sum':
        return sum((num(x) for x in lst(go(a[0]), env)), Fraction(0))
    if o == 'product':
        q = Fraction(1)
        for x in lst(go(a[0]), env):
            q *= num(x)
        return q
    if o == 'from_elem':
        n = nat(go(a[1]))
        return [go(a[0])] * n
    if o == 'push':
        return lst(go(a[0]), env) + [go(a[1])]
    if o == 'vextend':
        return lst(go(a[0]), env) + lst(go(a[1]), env)
    if o in ('store', 'stores'):
        v = list(lst(go(a[0]), env))
        ups = [(go(a[1]), go(a[2]))] if o == 'store' else [tuple(x) for x in lst(go(a[1]), env)]
        for i, x in ups:
            n = nat(i)
            if n >= len(v):
                raise Oob('store out of range')
            v[n] = x
        return v
    if o == 'range':
        lo, hi = num(go(a[0])), num(go(a[1]))
        if hi - lo > 200:
            raise NoEval('range')
        return [lo + k for k in range(max(0, int(hi - lo)))]
    if o == 'islice':
        v = lst(go(a[0]), env)
        lo = nat(go(a[1]))
        hi = len(v) if a[2] is None else nat(go(a[2]))
        if lo > hi or hi > len(v):
            raise NoEval('slice')
        return v[lo:hi]
    if o == 'ichain':
        return [y for x in a for y in items(go(x), env)]
    if o == 'irev':
        return lst(go(a[0]), env)[::-1]
    if o == 'izip':
        return [tuple(x) for x in zip(lst(go(a[0]), env), lst(go(a[1]), env))]
    if o == 'ienum':
        return [(Fraction(i), x) for i, x in enumerate(lst(go(a[0]), env))]
    if o == 'sorted':
        import functools
        return sorted(lst(go(a[0]), env), key=functools.cmp_to_key(order))
    if o == 'dedup':
        return dedup(env, lst(go(a[0]), env), False)
    if o == 'toset':
        return frozenset(hashable(x) for x in lst(go(a[0]), env))
    if o == 'tomap':
        d = {}
        for x in lst(go(a[0]), env):
            if not isinstance(x, tuple) or len(x) != 2:
                raise NoEval('map entries')
            d[key_of(x[0])] = x[1]
        return d
    if o == 'emptyset':
        return frozenset()
    if o == 'sinsert':
        s = go(a[0])
        if isinstance(s, frozenset):
            return s | {hashable(go(a[1]))}
        return ('sinsert', key_of(s), key_of(go(a[1])))
    if o == 'call':
        f = CALLS.get(a[0].split('::')[0] + '::' + a[0].split('::')[-1])
        if f is not None:
            return f(env, *[go(x) for x in a[1:]])
        return leaf(env, ('call', a[0]) + tuple(key_of(go(x)) for x in a[1:]))
    if o in ('arg', 'phi', 'cell0', 'const', 'cparam', 'promoted', 'default'):
        return leaf(env, (o, t.id))
    if o in ('mget', 'contains', 'discr', 'rem1', 'rows', 'collect', 'tostring', 'posof', 'minsert'):
        return leaf(env, (o,) + tuple(key_of(go(x)) if isinstance(x, T) else x for x in a))
    raise NoEval('operation ' + o)


def items(v, env):
    """what iterating v yields (options yield their content)"""
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0][0] == '@' and v[0].split('::')[-1] == 'Option':
        return list(v[2:])
    return lst(v, env)


def dedup(env, v, every):
    out = []
    for x in lst(v, env):
        if not any(flat_val(x) == flat_val(y) for y in (out if every else out[-1:])):
            out.append(x)
    return out


def frac_(v):
    return num(v)


CALLS = {
    'Itertools::unique': lambda env, v: dedup(env, v, True),
    'Itertools::dedup': lambda env, v: dedup(env, v, False),
    'Ratio::is_integer': lambda env, v: int(frac_(v).denominator == 1),
    'Ratio::fract': lambda env, v: frac_(v) - int(frac_(v)),
    'Ratio::trunc': lambda env, v: Fraction(int(frac_(v))),
    'Ratio::ceil': lambda env, v: Fraction(frac_(v).__ceil__()),
    'Ratio::round': lambda env, v: Fraction(int(abs(frac_(v)) + Fraction(1, 2))) * (1 if frac_(v) >= 0 else -1),
    'Ratio::numer': lambda env, v: Fraction(frac_(v).numerator),
    'Ratio::denom': lambda env, v: Fraction(frac_(v).denominator),
    'BigInt::magnitude': lambda env, v: abs(frac_(v)),
    'num::wrapping_sub': lambda env, x, y: wrap32(num(x) - num(y)),
    'num::wrapping_add': lambda env, x, y: wrap32(num(x) + num(y)),
    'num::wrapping_neg': lambda env, x: wrap32(-num(x)),
}


def wrap32(v):
    return v


def hashable(x):
    return x if not isinstance(x, list) else tuple(hashable(y) for y in x)


def leaf(env, key):
    if key in env.given:
        return env.given[key]
    if env.strict:
        raise NoEval('open: %r' % (key,))
    return Leaf(env, key)


def boolv(v):
    if isinstance(v, Leaf):
        return v.bool()
    return int(v)


def fact_val(f, v, env, bvs=()):
    x = ev(f, env, bvs)
    if isinstance(v, int):
        if f.op in ('eq', 'lt', 'contains', 'not', 'is_some', 'any', 'all'):
            return boolv(x) == v
        return num(x) == v
    return num(x) not in v[1]


def literals(ts):
    """the values around the integer constants of the given terms: (numbers, sizes)"""
    ks = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'int':
                ks.add(x.args[0])
            elif x.op == 'poly':
                for m, c in x.args:
                    if not m and c == int(c):
                        ks |= {int(c), -int(c)}
    nums, sizes = set(), set()
    for k in ks:
        if not isinstance(k, int) or abs(k) <= 3:
            continue
        # limits of machine integers have no neighbour on the far side
        up = (k + 1) & k == 0 and k >= 127
        dn = k < -127 and (-k) & (-k - 1) == 0
        if k < 0 and k <= -2 ** 31 and not dn:
            continue
        if abs(k) > 2 ** 31:
            continue
        nums |= {k} | (set() if up or k == 2 ** 31 else {k + 1}) | (set() if dn else {k - 1})
        if 3 < k <= 64:
            nums |= {k + 2, k + 5}
        if 3 < k <= 24:
            sizes |= {k, k + 1, k + 2}
    nums.discard(2 ** 31)
    nums = {n for n in nums if abs(n) < 2 ** 31 or n == -2 ** 31}
    return tuple(sorted(nums)), tuple(sorted(sizes))


def differ(got, want, facts=(), bind=None, tries=2000, need=400):
    """a witness instance on which the forms differ, None if they agree on every tried instance; NoEval if not decidable"""
    good = 0
    why = None
    if os.environ.get('VERIF_TIER') == 'thorough':
        tries, need = tries * 10, need * 10
    lits = literals([got, want] + [f for f, v in facts])
    if not lits[0] and not lits[1]:
        lits = None
    for seed in range(tries):
        b = bind(seed) if callable(bind) else bind
        env = Env(seed, bind=b)
        if lits and seed % 2:
            env.lits, env.sizes = lits
        try:
            if not all(fact_val(f, v, env) for f, v in facts):
                continue
        except NoEval as e:
            why = e
            continue
        except (IndexError, KeyError, TypeError, OverflowError) as e:
            why = NoEval(repr(e))
            continue
        try:
            y = ev(want, env)
            try:
                x = ev(got, env)
                if isinstance(x, list) and isinstance(y, frozenset):
                    y = lst(y, env)
                elif isinstance(y, list) and isinstance(x, frozenset):
                    x = lst(x, env)
                x, y = flat_val(x), flat_val(y)
            except Oob:
                x, y = 'out of range', flat_val(y)
        except NoEval as e:
            why = e
            continue
        except (IndexError, KeyError, TypeError, OverflowError) as e:
            why = NoEval(repr(e))
            continue
        if x != y:
            return (x, y)
        good += 1
        if good >= need:
            return None
    if good >= 3:
        return None
    raise why or NoEval('no instance')
