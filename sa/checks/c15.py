"""C15: the space group table itself."""
import itertools
import os
import re
from collections import Counter
from fractions import Fraction as F

from ..rules import *

LEVEL = 'other'
TECHNIQUE = 'lint of the data source: exact group-theoretic rules decided on every entry of the table, and Hermann-Mauguin symbols read as specifications of the operators'
RULE = ('Every entry of the table is read in exact rational arithmetic. The operators of a setting must be closed under composition modulo integer translations, without repetition and with the identity; '
        'must be those of the canonical setting under the inverse of the given transformation; and must contain, along each symmetry direction of the crystal system computed from them, the kind of operator (with its screw or glide part) that the name states. '
        'Aliases and lookup lines must name settings whose operators have the stated system, centering and symbol, and the canonical settings must be 17 plane and 230 space groups, with the right number per system and one lookup line each.')
PROP = {
    'title': 'The space group table lists the crystallographic groups correctly',
    'statement': 'Every setting in the table lists, without repetition, a complete set of representatives modulo integer translations of a group, which is the group its Hermann-Mauguin name describes and is equivalent to the canonical setting of its group by the stated change of coordinates. '
                 'Every alias and every lookup line names a setting whose operators have the stated symbol, crystal system and (after the stated change of coordinates) centering, and each of the 17 plane and 230 space groups appears once.',
    'quantifier': {'over': ['inputs'], 'text': 'all 549 settings, 52 aliases and 247 lookup lines of the table'},
    'why_tests_cant': 'No test reads the table; a wrong sign in one of its 7,000 operators gives wrong symmetries for the nets in that group only.',
    'anchors': {'files': ['src/data/sgtable.data'],
                'mechanism': 'operators of each setting; transformation to the canonical setting; aliases; lookup lines'},
}
DATA = 'src/data/sgtable.data'
H, T3, Z = F(1, 2), F(1, 3), F(0)
CENT = {'p': [(Z, Z)], 'c': [(Z, Z), (H, H)], 'P': [(Z, Z, Z)], 'A': [(Z, Z, Z), (Z, H, H)], 'B': [(Z, Z, Z), (H, Z, H)],
        'C': [(Z, Z, Z), (H, H, Z)], 'I': [(Z, Z, Z), (H, H, H)], 'F': [(Z, Z, Z), (Z, H, H), (H, Z, H), (H, H, Z)],
        'R': [(Z, Z, Z), (2 * T3, T3, T3), (T3, 2 * T3, 2 * T3)]}
CENSUS = {(2, 'oblique'): 2, (2, 'rectangular'): 7, (2, 'square'): 3, (2, 'hexagonal'): 5, (3, 'triclinic'): 2, (3, 'monoclinic'): 13,
          (3, 'orthorhombic'): 59, (3, 'tetragonal'): 68, (3, 'trigonal'): 25, (3, 'hexagonal'): 27, (3, 'cubic'): 36}


# ------------------------------------------------------------------ exact affine maps
def num(x):
    return int(x) if x.denominator == 1 else x


def ident(n):
    return tuple(tuple(int(i == j) for j in range(n)) for i in range(n))


def mul(a, b):
    c = tuple(zip(*b))
    return tuple(tuple(sum(x * y for x, y in zip(r, k) if x and y) for k in c) for r in a)


def app(a, v):
    return tuple(sum(x * y for x, y in zip(r, v) if x and y) for r in a)


def vadd(v, w):
    return tuple(x + y for x, y in zip(v, w))


def comp(p, q):
    return mul(p[0], q[0]), vadd(app(p[0], q[1]), p[1])


def det(a):
    if len(a) == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]]) for j in range(len(a)))


def inverse(p):
    a, s = p
    n = len(a)
    m = [[F(x) for x in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        k = next((k for k in range(i, n) if m[k][i]), None)
        if k is None:
            return None
        m[i], m[k] = m[k], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for k in range(n):
            if k != i and m[k][i]:
                m[k] = [x - m[k][i] * y for x, y in zip(m[k], m[i])]
    b = tuple(tuple(num(x) for x in r[n:]) for r in m)
    return b, tuple(-x for x in app(b, s))


def frac(v):
    return tuple(num(F(x) % 1) for x in v)


def modz(p):
    return tuple(tuple(num(F(x)) for x in r) for r in p[0]), frac(p[1])


def neg_(a):
    return tuple(tuple(-x for x in r) for r in a)


def order(a):
    e, x, k = ident(len(a)), a, 1
    while x != e:
        x = mul(x, a)
        k += 1
        if k > 6:
            return 0
    return k


TERM = re.compile(r'([+-])?(?:(\d+)(?:/(\d+))?)?\*?([xyz])?')


def operator(s):
    s = re.sub(r'\s', '', s)
    rows = []
    for c in s.split(','):
        r = [0] * 4
        pos = 0
        while pos < len(c):
            m = TERM.match(c, pos)
            if m.end() == pos or not (m.group(2) or m.group(4)) or (pos and not m.group(1)):
                raise ValueError(s)
            q = F(int(m.group(2)), int(m.group(3) or 1)) if m.group(2) else F(1)
            r['xyz'.index(m.group(4)) if m.group(4) else 3] += -q if m.group(1) == '-' else q
            pos = m.end()
        if not c:
            raise ValueError(s)
        rows.append(r)
    n = len(rows)
    if n > 3 or any(r[k] for r in rows for k in range(n, 3)):
        raise ValueError(s)
    return tuple(tuple(num(F(x)) for x in r[:n]) for r in rows), tuple(num(F(r[3])) for r in rows)


# ------------------------------------------------------------------ the table
class Table:
    def __init__(self, path):
        self.settings, self.alias, self.lookup, self.bad = {}, {}, [], []
        canon = cur = None
        for ln, l in enumerate(open(path, encoding='utf-8'), 1):
            c = l.strip()
            if not c or c[0] == '#':
                continue
            f = c.split()
            try:
                if l[0].isspace():
                    if cur is None:
                        raise ValueError('operator before all settings')
                    o = operator(c)
                    if len(o[0]) != len(self.settings[cur][1][0]):
                        raise ValueError('dimension')
                    self.settings[cur][2].append((o, ln))
                elif f[0].lower() == 'alias':
                    if f[1] in self.alias:
                        self.bad.append((ln, 'the alias %s is given twice' % f[1]))
                    self.alias[f[1]] = (f[2], ln)
                elif f[0].lower() == 'lookup':
                    self.lookup.append((f[1], f[2].lower(), f[3], operator(''.join(f[4:])), ln))
                else:
                    t = operator(''.join(f[1:]))
                    if t == (ident(len(t[0])), (0,) * len(t[0])):
                        canon = f[0]
                    cur = f[0]
                    if cur in self.settings:
                        self.bad.append((ln, 'the setting %s is given twice' % cur))
                    if inverse(t) is None:
                        self.bad.append((ln, 'the transformation of %s is singular' % cur))
                    self.settings[cur] = (canon, t, [], ln)
            except (ValueError, IndexError) as e:
                self.bad.append((ln, 'this line cannot be read: %s' % c))
        self.ops = {n: [o for o, _ in s[2]] for n, s in self.settings.items()}
        self.sys = {n: system(o) for n, o in self.ops.items()}

    def named(self, n):
        """settings with that name, with any origin choice or axes"""
        return [n] if n in self.settings else [s for s in self.settings if s.split(':')[0] == n]


def points(ops):
    return {o[0] for o in ops}


def proper(a):
    return a if det(a) == 1 else neg_(a)


def system(ops):
    """crystal system of the point group"""
    if not ops:
        return None
    pts = points(ops)
    d = len(ops[0][0])
    if any(abs(det(a)) != 1 or order(a) == 0 for a in pts):
        return None
    if d == 1:
        return 'line'
    if d == 2:
        k = {order(a) for a in pts if det(a) == 1}
        if k & {3, 6}:
            return 'hexagonal'
        if 4 in k:
            return 'square'
        return 'rectangular' if any(det(a) == -1 for a in pts) else 'oblique'
    c = Counter(order(a) for a in {proper(a) for a in pts})
    if c[3] == 8:
        return 'cubic'
    for k, s in ((6, 'hexagonal'), (3, 'trigonal'), (4, 'tetragonal')):
        if c[k]:
            return s
    return {0: 'triclinic', 1: 'monoclinic', 3: 'orthorhombic'}.get(c[2])


def closure(t, ops):
    """the group {t o t^-1} together with the images of the unit translations, modulo integer translations"""
    d = len(t[0])
    ti = inverse(t)
    out = {modz(comp(comp(t, o), ti)) for o in ops}
    trs = [modz(comp(comp(t, (ident(d), tuple(int(i == j) for i in range(d)))), ti)) for j in range(d)]
    todo = list(out)
    while todo and len(out) < 2000:
        x = todo.pop()
        for tr in trs:
            y = modz(comp(tr, x))
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


# ------------------------------------------------------------------ Hermann-Mauguin symbols
def tokens(s):
    if not s:
        yield ()
        return
    for r in (r'-?[12346](?:/[a-z])?', r'(?:21|31|32|41|42|43|6[12345])(?:/[a-z])?', r'[a-z]'):
        m = re.match(r, s)
        if m:
            for t in tokens(s[m.end():]):
                yield (m.group(),) + t


SCREW = re.compile(r'21|31|32|41|42|43|6\d')


def reading(name, sy, d, short=False):
    """the unique division of a symbol into one part per symmetry direction, or None"""
    base = name.split(':')[0]
    out = set()
    for t in tokens(base[1:]):
        k = len(t)
        if d == 2:
            ok = {'oblique': k == 1, 'rectangular': k == 1 and t[0].isalpha() or k == 3, 'square': k in (1, 3), 'hexagonal': k in (1, 3)}[sy]
        elif sy == 'triclinic':
            ok = k == 1
        elif sy == 'monoclinic':
            ok = k == 1 if short else k == 3 and t.count('1') == 2
        elif sy == 'orthorhombic':
            ok = k == 3 and '1' not in t
        elif sy == 'tetragonal':
            ok = k in (1, 3) and '1' not in t and not any(SCREW.match(x) for x in t[2:]) and not any(SCREW.match(x) and x[:2] != '21' for x in t[1:])
        elif sy == 'hexagonal':
            ok = k in (1, 3) and '1' not in t and not any(SCREW.match(x) for x in t[1:])
        elif sy == 'trigonal':
            ok = (k in (1, 2) and t[0] in ('3', '-3') if base[0] == 'R' else k in (1, 3)) and not any(SCREW.match(x) for x in t[1:])
        elif sy == 'cubic':
            ok = k in (2, 3) and t[1] in ('3', '-3') and not any(SCREW.match(x) for x in t[1:])
        else:
            ok = False
        if ok:
            out.add(t)
    return out.pop() if len(out) == 1 else None


def directions(sy, name, d):
    if d == 2:
        if sy == 'rectangular':
            return [None, (1, 0), (0, 1)]
        if sy == 'square':
            return [None, (1, 0), (1, -1)]
        return [None, (1, 0), (1, -1)]
    if sy in ('monoclinic', 'orthorhombic'):
        return [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    if sy == 'tetragonal':
        return [(0, 0, 1), (1, 0, 0), (1, 1, 0)]
    if sy == 'trigonal' and name.endswith(':R'):
        return [(1, 1, 1), (1, -1, 0)]
    if sy in ('trigonal', 'hexagonal'):
        return [(0, 0, 1), (1, 0, 0), (1, -1, 0)]
    if sy == 'cubic':
        return [(0, 0, 1), (1, 1, 1), (1, 1, 0)]
    return [(0, 0, 1)]


def contains_kind(ops, d, kind):
    """an operator of that kind along direction d (3D)"""
    if kind == '1':
        return True
    imp = kind.startswith('-')
    sym = kind.lstrip('-')
    for a, t in ops:
        b = neg_(a) if imp or not sym[0].isdigit() else a
        k = int(sym[0]) if sym[0].isdigit() else 2
        if det(b) != 1 or order(b) != k or k > 1 and app(b, d) != d:
            continue
        if imp:
            return True
        if sym[0].isdigit():
            p = int(sym[1:] or 0)
            if k > 2:
                x = (1, 0, 0) if d != (1, 0, 0) else (0, 1, 0)
                if det((d, x, app(b, x))) < 0:
                    continue
            want = frac(tuple(F(p, k) * x for x in d))
            for l in itertools.product((0, 1), repeat=3):
                v = vadd(t, l)
                w = (0, 0, 0)
                for _ in range(k):
                    w, v = vadd(w, v), app(b, v)
                if frac(F(x) / k for x in w) == want:
                    return True
            continue
        for l in itertools.product((0, 1), repeat=3):
            v = vadd(t, l)
            w = frac(F(x) / 2 for x in vadd(v, app(a, v)))
            if kind == 'm' and not any(w):
                return True
            if kind in 'abc' and w == tuple(H if i == 'abc'.index(kind) else 0 for i in range(3)):
                return True
            if kind == 'n' and w == (tuple(0 if x else H for x in d) if sum(map(abs, d)) == 1 else (H, H, H)):
                return True
            if kind == 'd' and any(F(x).denominator == 4 for x in w):
                return True
    return False


def contains_kind_2d(ops, d, kind):
    if kind == '1':
        return True
    if kind.isdigit():
        return any(det(a) == 1 and order(a) == int(kind) for a, t in ops)
    for a, t in ops:
        if det(a) != -1 or app(a, d) != neg_((d,))[0]:
            continue
        for l in itertools.product((0, 1), repeat=2):
            v = vadd(t, l)
            w = frac(F(x) / 2 for x in vadd(v, app(a, v)))
            if any(w) == (kind == 'g'):
                return True
    return False


def symbol(ops, sy, name, setting, short=False):
    """None when the operators have the symbol, otherwise what is missing; 'unread' when the symbol has no reading"""
    d = len(ops[0][0])
    t = reading(name, sy, d, short)
    if t is None:
        return 'unread'
    if sy in ('triclinic', 'line'):
        k = t[0]
        has_inv = neg_(ident(d)) in points(ops)
        return None if has_inv == (k == '-1') else k
    if d == 2 and len(t) == 1 and not t[0].isdigit():
        t = ('1',) + t
    ds = directions(sy, setting, d)
    if short and sy == 'monoclinic':
        ax = [x for x in ((1, 0, 0), (0, 1, 0), (0, 0, 1)) if any(a != ident(3) and app(proper(a), x) == x and proper(a) != ident(3) for a in points(ops))]
        ds = ax[:1]
    for tok, dr in zip(t, ds):
        for k in tok.split('/'):
            if not (contains_kind if d == 3 else contains_kind_2d)(ops, dr, k):
                return '%s along %s' % (k, dr)
    # the symbol also says which operators there are not
    n = len(points(ops))
    if d == 3:
        inv = neg_(ident(3)) in points(ops)
        if '/' in ''.join(t) and not inv:
            return 'inversion'
        if not any(x.startswith('-') or x[0].isalpha() or '/' in x for x in t) and any(det(a) == -1 for a in points(ops)):
            return 'only proper rotations'
    if d == 2 and not any(x.isalpha() for x in t) and any(det(a) == -1 for a in points(ops)):
        return 'only rotations'
    return None


# ------------------------------------------------------------------ obligations
def run(ctx):
    path = os.path.join(ctx.repo, DATA)
    if not os.path.exists(path):
        ctx.und('the table', 'there is no %s' % DATA)
        return
    tb = Table(path)
    where = lambda ln: '%s:%d' % (DATA, ln)
    ctx.counts.update(settings=len(tb.settings), aliases=len(tb.alias), lookups=len(tb.lookup), operators=sum(map(len, tb.ops.values())))

    def lines():
        for ln, m in tb.bad:
            raise Bad(m, where(ln))
        for n, o in tb.ops.items():
            if not o:
                raise Bad('the setting %s has no operators' % n, where(tb.settings[n][3]))
            if tb.settings[n][0] is None:
                raise Bad('the setting %s precedes all canonical settings' % n, where(tb.settings[n][3]))
        return '%(settings)d settings with %(operators)d operators, %(aliases)d aliases, %(lookups)d lookup lines' % ctx.counts
    ctx.ob('every line can be read', lines)

    def closed():
        for n, (c, t, ops, ln) in tb.settings.items():
            d = len(t[0])
            seen = {}
            for o, l in ops:
                if abs(det(o[0])) != 1 or order(o[0]) == 0 or any(x != int(x) for r in o[0] for x in r):
                    raise Bad('an operator of %s is no crystallographic symmetry' % n, where(l))
                k = modz(o)
                if k in seen:
                    raise Bad('this operator of %s repeats line %d' % (n, seen[k]), where(l))
                seen[k] = l
            if (ident(d), (0,) * d) not in seen:
                raise Bad('the identity is missing in %s' % n, where(ln))
            # generate from as few operators as needed
            grp = {(ident(d), (0,) * d)}
            gens = []
            for o, l in seen.items():
                if o in grp:
                    continue
                gens.append(o)
                grp = {(ident(d), (0,) * d)}
                todo = list(grp)
                while todo:
                    x = todo.pop()
                    for g in gens:
                        y = modz(comp(g, x))
                        if y not in grp:
                            if y not in seen:
                                raise Bad('the operators of %s are not a group: the product of two of them is missing' % n, where(l))
                            grp.add(y)
                            todo.append(y)
        return '%d groups closed' % len(tb.settings)
    ctx.ob('operators of each setting are a group', closed)

    def conj():
        k = 0
        for n, (c, t, ops, ln) in tb.settings.items():
            if c == n:
                continue
            ti = inverse(t)
            if ti is None or not tb.ops.get(c) or len(tb.ops[c][0][0]) != len(t[0]):
                raise Bad('the setting %s is not equivalent to %s' % (n, c), where(ln))
            if closure(ti, tb.ops[c]) != set(map(modz, tb.ops[n])):
                raise Bad('the operators of %s are not those of %s in the stated coordinates' % (n, c), where(ln))
            k += 1
        return '%d settings equivalent to their canonical setting' % k
    ctx.ob('each setting is its canonical group in other coordinates', conj)

    def names():
        k = 0
        unread = []
        for n, (c, t, ops, ln) in tb.settings.items():
            o = tb.ops[n]
            if tb.sys[n] is None:
                raise Bad('the operators of %s belong to no crystal system' % n, where(ln))
            if len(t[0]) == 1:
                continue
            if n[0] in CENT and len(CENT[n[0]][0]) == len(t[0]):
                want = CENT['P' if n.endswith(':R') else n[0]]
                if sorted(x[1] for x in map(modz, o) if x[0] == ident(len(t[0]))) != sorted(want):
                    raise Bad('the translations of %s are not those of its centering' % n, where(ln))
            r = symbol(o, tb.sys[n], n, n)
            if r == 'unread':
                unread.append(n)
            elif r:
                raise Bad('the operators of %s do not have the symmetry its name states: %s' % (n, r), where(ln))
            else:
                k += 1
        if unread and len(unread) > 3:
            raise Und('symbols not read: %s' % unread[:5])
        return '%d symbols agree with the operators%s' % (k, '; not read: %s' % unread if unread else '')
    ctx.ob('operators agree with the Hermann-Mauguin names', names)

    def aliases():
        k = 0
        for a, (b, ln) in tb.alias.items():
            ts = tb.named(b)
            if not ts:
                raise Bad('the alias %s names no setting: %s' % (a, b), where(ln))
            if a in tb.settings:
                raise Bad('the alias %s is also a setting' % a, where(ln))
            for t in ts:
                if a[0] != t[0]:
                    raise Bad('the alias %s has another centering than %s' % (a, t), where(ln))
                r = symbol(tb.ops[t], tb.sys[t], a, t, True)
                if r and r != 'unread':
                    raise Bad('the alias %s does not describe the operators of %s: %s' % (a, t, r), where(ln))
            k += 1
        return '%d aliases' % k
    ctx.ob('aliases', aliases)

    def lookups():
        seen = {}
        for n, sy, ce, t, ln in tb.lookup:
            if n not in tb.settings:
                raise Bad('no setting %s' % n, where(ln))
            c = tb.settings[n][0]
            if c in seen:
                raise Bad('the group of %s has two lookup lines, see line %d' % (n, seen[c]), where(ln))
            seen[c] = ln
            d = len(t[0])
            if ce not in CENT or len(CENT[ce][0]) != d or len(tb.ops[n][0][0]) != d:
                raise Bad('no such centering in dimension %d: %s' % (d, ce), where(ln))
            if inverse(t) is None:
                raise Bad('singular transformation', where(ln))
            if sy != tb.sys[n]:
                raise Bad('the operators of %s belong to the %s system' % (n, tb.sys[n]), where(ln))
            g = closure(t, tb.ops[n])
            if sorted(x[1] for x in g if x[0] == ident(d)) != sorted(CENT[ce]):
                raise Bad('the lattice of %s does not have centering %s in the stated coordinates' % (n, ce), where(ln))
        miss = [n for n, s in tb.settings.items() if s[0] == n and n not in seen and len(s[1][0]) > 1]
        if miss:
            raise Bad('no lookup line for %s' % miss[0], where(tb.settings[miss[0]][3]))
        return '%d lookup lines' % len(seen)
    ctx.ob('lookup lines', lookups)

    def census():
        c = Counter((len(s[1][0]), tb.sys[n]) for n, s in tb.settings.items() if s[0] == n and len(s[1][0]) > 1)
        for k, v in CENSUS.items():
            if c[k] != v:
                raise Bad('there are %d %s groups in dimension %d, not %d' % (v, k[1], k[0], c[k]), DATA)
        seen = {}
        for n, s in tb.settings.items():
            if s[0] == n:
                k = frozenset(map(modz, tb.ops[n]))
                if k in seen:
                    raise Bad('%s and %s are the same group' % (n, seen[k]), where(s[3]))
                seen[k] = n
        return '17 plane groups and 230 space groups'
    ctx.ob('all groups are listed once', census)
