"""Hash-consed value terms (value numbering).  Equality of terms is identity."""
from fractions import Fraction

_tab = {}
_all = []


class T:
    __slots__ = ('op', 'args', 'id', 'ty', '_mref')

    def __init__(self, op, args, ty):
        self.op = op
        self.args = args
        self.ty = ty
        self.id = len(_all)
        self._mref = None

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def mk(op, *args, ty=None):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T(op, args, ty)
        _tab[key] = t
        _all.append(t)
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


def INT(n):
    return mk('int', n)


def STR(s):
    return mk('str', s)


TRUE = mk('int', 1)
FALSE = mk('int', 0)
UNIT = mk('agg', 'tuple', None)
BOT = mk('uninit')


def is_int(t):
    return t.op == 'int'


def agg(kind, variant, *fields):
    """kind: 'tuple' | 'array' | adt path | ('closure', id)"""
    return mk('agg', kind, variant, *fields)


def tup(*xs):
    return agg('tuple', None, *xs)


OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = agg(OPT, 0)


def SOME(x):
    return agg(OPT, 1, x)


def OKV(x):
    return agg(RES, 0, x)


def subterms(t, seen=None):
    """all subterms, each once"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                stack.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mrefs_in(t):
    """mref terms reachable inside t (memoised)"""
    if t._mref is None:
        out = []
        if t.op == 'mref':
            out.append(t)
        else:
            for a in t.args:
                if isinstance(a, T):
                    out.extend(mrefs_in(a))
        t._mref = tuple(dict.fromkeys(out))
    return t._mref


def subst(t, m, binders=False):
    """replace subterms by map (dict T->T); bound variables of inner scopes are left alone unless `binders`"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if x in m:
            return m[x]
        r = memo.get(x.id)
        if r is None:
            if not binders and x.op == 'comp' and x.args[2] in m:
                m2 = {k: v for k, v in m.items() if k is not x.args[2]}
                na = (x.args[0], go(x.args[1]), x.args[2], subst(x.args[3], m2) if m2 else x.args[3])
            else:
                na = tuple(go(a) for a in x.args)
            r = x if na == x.args else mk(x.op, *na, ty=x.ty)
            memo[x.id] = r
        return r
    return go(t)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 12:
        return '…'
    if t.op == 'int':
        return str(t.args[0])
    if t.op == 'str':
        return repr(t.args[0])
    if t.op == 'arg':
        return '$%s' % t.args[0]
    if t.op == 'call':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, d + 1) for x in t.args[1:]))
    if t.op == 'agg':
        k = t.args[0]
        k = k if isinstance(k, str) else str(k[0])
        k = k.split('::')[-1]
        v = '' if t.args[1] is None else '#%s' % t.args[1]
        return '%s%s{%s}' % (k, v, ', '.join(show(x, d + 1) for x in t.args[2:]))
    if t.op == 'phi':
        return 'phi[%s.%s]' % (t.args[0][-1], fmtcell(t.args[1]) + ''.join('.' + str(x[1]) for x in t.args[2]))
    if t.op == 'mref':
        return '&mut %s%s' % (fmtcell(t.args[0]), ''.join('.' + (show(x[1]) if isinstance(x[1], T) else str(x[1])) for x in t.args[1]))
    if t.op == 'ix':
        return 'ix[%s<%s]' % (t.args[0][-1] if isinstance(t.args[0], tuple) else t.args[0], show(t.args[1], d + 1))
    if t.op == 'bv':
        return 'β%s' % t.args[0]
    if t.op == 'idx':
        return '%s[%s]' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if t.op in ('add', 'sub', 'mul', 'div', 'rem'):
        o = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}[t.op]
        return '(%s %s %s)' % (show(t.args[1], d + 1), o, show(t.args[2], d + 1))
    if t.op == 'fld':
        return '%s.%s' % (show(t.args[2], d + 1), t.args[0])
    if t.op == 'elem':
        return 'elem(%s @%s)' % (show(t.args[0], d + 1), t.args[1][-1] if isinstance(t.args[1], tuple) else t.args[1])
    return '%s(%s)' % (t.op, ', '.join(show(x, d + 1) for x in t.args))


def fmtcell(c):
    if c[0] == 'L':
        return '%s_%s' % (''.join("'" for _ in range(len(c[1]) - 1)), c[2])
    return str(c[0]) + ':' + ','.join(show(x) for x in c[1:])
