"""Grammars built from parser combinators, read off the summaries of the parser functions: languages (as automata) and
semantic values per shape."""
from .terms import *
from .harness import Bad, Und
from . import engine as E
from . import mir
from .poly import canon
from .models import resimp
from .graphs import freshbv

ANY = 'any'


class Grammar:
    def __init__(self, ctx, inline_if=None):
        self.ctx = ctx
        self.inline_if = inline_if
        self._p = {}
        self.used = set()

    # -------------------------------------------------------- access
    def fn(self, term):
        f = self.ctx.lib.by_id.get(term.args[0])
        if f is None:
            r = [g for g in self.ctx.lib.fns if g.path == term.args[1]]
            f = r[0] if len(r) == 1 else None
        return f

    def body(self, P):
        """a named parser -> the combinator it applies to its input, or None (not a local parser function)"""
        f = self.fn(P)
        if f is None:
            return None
        if f.id in self._p:
            return self._p[f.id]
        self._p[f.id] = None
        s = self.ctx.summary(f)
        r = s.returns()
        if len(s.paths) != 1 or len(r) != 1:
            raise Und('parser %s is not a combinator' % f.short)
        self._p[f.id] = self.applied(r[0].ret, mk('arg', 0))
        self.used.add(f.short)
        return self._p[f.id]

    def applied(self, t, inp):
        """t = P applied to inp -> P"""
        if t.op == 'apply' and t.args[1] is inp:
            return t.args[0]
        if t.op == 'call' and len(t.args) == 2 and t.args[1] is inp:
            r = [g for g in self.ctx.lib.fns if g.kind != 'Closure' and g.short == t.args[0]]
            if len(r) == 1:
                return mk('fn', r[0].id, r[0].path, r[0].path)
            return mk('fn', t.args[0], t.args[0], t.args[0])
        raise Und('not a parser applied to the input: %s' % show(t))

    def name(self, P):
        if P.op == 'fn':
            return P.args[1].rsplit('::', 1)[-1]
        if P.op == 'call':
            return P.args[0].rsplit('::', 1)[-1]
        return P.op

    def expand(self, P):
        """named local parsers and functions returning parsers replaced by their bodies"""
        for _ in range(20):
            if P.op == 'fn':
                b = self.body(P)
                if b is None:
                    return P
                P = b
            elif P.op == 'call':
                r = [g for g in self.ctx.lib.fns if g.kind != 'Closure' and g.short == P.args[0]]
                if len(r) == 1 and len(P.args) == 1:
                    s = self.ctx.summary(r[0])
                    if len(s.paths) == 1 and s.returns():
                        P = s.returns()[0].ret
                        continue
                return P
            else:
                return P
        raise Und('recursive parser')

    def tup(self, t):
        if t.op == 'agg' and t.args[0] == 'tuple':
            return list(t.args[2:])
        return [t]

    # -------------------------------------------------------- semantic functions
    def call(self, f, *args):
        """f(args) -> [(conds, value, kind)] with decided conditions removed"""
        f0 = f
        if f.op == 'call':
            f = self.expand(f)
        env = None
        if f.op == 'fn':
            g = self.fn(f)
            if g is None:
                n = self.name(f)
                if f.args[1].endswith('Option::Some') or n == 'Some':
                    return [((), SOME(args[0]), 'return')]
                return [((), mk('call', '::'.join(mir.strip_generics(f.args[1]).split('::')[-2:]), *args), 'return')]
            m = {mk('arg', i): a for i, a in enumerate(args)}
        elif f.op == 'agg' and isinstance(f.args[0], tuple) and f.args[0][0] == 'closure':
            g = self.ctx.lib.by_id.get(f.args[0][1])
            if g is None:
                raise Und('closure %s' % show(f))
            m = {mk('arg', i + 1): a for i, a in enumerate(args)}
            for i, c in enumerate(f.args[2:]):
                m[E.getfield(mk('arg', 0), i)] = c
        else:
            raise Und('semantic function %s' % show(f0))
        s = self.ctx.summary(g, inline_if=self.inline_if)
        out = []
        for p in s.paths:
            conds = []
            dead = False
            for t, v in p.facts():
                x = canon(resimp(subst(t, m)))
                if x.op == 'discr' and x.args[0].op == 'agg':
                    x = INT(x.args[0].args[1])
                if x.op == 'int':
                    if (x.args[0] == v) if isinstance(v, int) else (x.args[0] not in v[1]):
                        continue
                    dead = True
                    break
                conds.append((x, v))
            if dead:
                continue
            if p.kind != 'return':
                out.append((tuple(conds), None, p.kind))
            else:
                out.append((tuple(conds), canon(resimp(subst(freshbv(p.ret), m))), 'return'))
        return out

    # -------------------------------------------------------- languages
    def kids(self, P):
        """component parsers of an expanded combinator"""
        n = self.name(P)
        if P.op != 'call':
            return []
        a = list(P.args[1:])
        if n in ('alt', 'tuple'):
            return self.tup(a[0])
        if n in ('pair', 'preceded', 'terminated', 'delimited', 'separated_pair', 'separated_list0', 'separated_list1'):
            return a
        if n in ('map_opt', 'map', 'map_res', 'verify', 'recognize', 'all_consuming', 'complete', 'cut', 'opt', 'many0', 'many1'):
            return a[:1]
        if n == 'value':
            return a[1:]
        return []

    def chars(self, P, acc=None):
        """characters the grammar mentions"""
        acc = set() if acc is None else acc
        P = self.expand(P)
        n = self.name(P)
        if P.op == 'call' and n in ('char', 'tag', 'tag_no_case', 'one_of', 'none_of', 'take_until', 'take_until1'):
            x = P.args[1]
            acc |= {chr(x.args[0])} if n == 'char' else set(x.args[0])
        for k in self.kids(P):
            self.chars(k, acc)
        return acc

    def pred(self, f, ch):
        """value of a character predicate"""
        r = self.call(f, INT(ord(ch)))
        vs = set()
        for c, v, k in r:
            if c or v is None or v.op != 'int':
                raise Und('character class %s' % show(f))
            vs.add(v.args[0])
        if len(vs) != 1:
            raise Und('character class %s' % show(f))
        return bool(vs.pop())

    def lang(self, P, sigma):
        P = self.expand(P)
        n = self.name(P)
        L = lambda q: self.lang(q, sigma)
        a = list(P.args[1:]) if P.op == 'call' else []
        sp = lit({' ', '\t'} & sigma)
        dg = lit({c for c in sigma if c in '0123456789'})
        if P.op == 'fn':
            if n in ('space0', 'multispace0'):
                return star(sp)
            if n in ('space1', 'multispace1'):
                return cat(sp, star(sp))
            if n == 'digit1':
                return cat(dg, star(dg))
            if n == 'digit0':
                return star(dg)
            if n == 'rest':
                return star(lit(sigma))
            if n == 'double':
                sg = opt(lit({'+', '-'} & sigma))
                d1 = cat(dg, star(dg))
                e = opt(cat(lit({'e', 'E'} & sigma), sg, d1))
                return cat(sg, alt(cat(d1, opt(cat(lit({'.'} & sigma), star(dg)))), cat(lit({'.'} & sigma), d1)), e)
            raise Und('parser %s' % n)
        if n == 'char':
            return lit({chr(a[0].args[0])} & sigma)
        if n in ('tag', 'tag_no_case'):
            return cat(*[lit({c}) for c in a[0].args[0]])
        if n == 'one_of':
            return lit(set(a[0].args[0]) & sigma)
        if n == 'none_of':
            return lit(sigma - set(a[0].args[0]))
        if n == 'alt':
            return alt(*[L(x) for x in self.tup(a[0])])
        if n == 'tuple':
            return cat(*[L(x) for x in self.tup(a[0])])
        if n in ('pair', 'preceded', 'terminated'):
            return cat(L(a[0]), L(a[1]))
        if n in ('delimited', 'separated_pair'):
            return cat(L(a[0]), L(a[1]), L(a[2]))
        if n in ('map_opt', 'map', 'map_res', 'verify', 'recognize', 'all_consuming', 'complete', 'cut', 'into'):
            return L(a[0])
        if n == 'value':
            return L(a[1])
        if n == 'opt':
            return opt(L(a[0]))
        if n == 'many0':
            return star(L(a[0]))
        if n == 'many1':
            return cat(L(a[0]), star(L(a[0])))
        if n == 'separated_list1':
            return cat(L(a[1]), star(cat(L(a[0]), L(a[1]))))
        if n == 'separated_list0':
            return opt(cat(L(a[1]), star(cat(L(a[0]), L(a[1])))))
        if n in ('take_till1', 'take_till', 'take_while', 'take_while1'):
            cs = {c for c in sigma if self.pred(a[0], c) == ('while' in n)}
            return cat(lit(cs), star(lit(cs))) if n.endswith('1') else star(lit(cs))
        if n in ('take_until1', 'take_until'):
            t = a[0].args[0]
            if len(t) != 1:
                raise Und('take_until %r' % t)
            cs = sigma - {t}
            return cat(lit(cs), star(lit(cs))) if n.endswith('1') else star(lit(cs))
        raise Und('combinator %s' % n)

    # -------------------------------------------------------- values by shape
    def derive(self, P, atoms=()):
        """[(shape, value, conds)]; shape: tuple of items 'dig', 'sp0', 'sp1', characters"""
        P = self.expand(P)
        n = self.name(P)
        a = list(P.args[1:]) if P.op == 'call' else []
        D = self.derive
        if P.op == 'fn':
            if n in ('space0', 'multispace0'):
                return [(('sp0',), UNIT, ())]
            if n in ('space1', 'multispace1'):
                return [(('sp1',), UNIT, ())]
            if n == 'digit1':
                return [(('dig',), mk('dig', 0), ())]
            raise Und('parser %s' % n)
        if n == 'char':
            return [((chr(a[0].args[0]),), a[0], ())]
        if n == 'tag':
            return [(tuple(a[0].args[0]), a[0], ())]
        if n == 'one_of':
            return [((c,), INT(ord(c)), ()) for c in a[0].args[0]]
        if n == 'alt':
            return [r for x in self.tup(a[0]) for r in D(x)]
        if n == 'opt':
            return [(s, SOME(v), c) for s, v, c in D(a[0])] + [((), mk('agg', 'std::option::Option', 0), ())]
        if n in ('tuple', 'pair', 'preceded', 'terminated', 'delimited', 'separated_pair'):
            ps = self.tup(a[0]) if n == 'tuple' else a
            out = [((), [], ())]
            for x in ps:
                nx = []
                for s1, vs, c1 in out:
                    k = sum(i == 'dig' for i in s1)
                    for s2, v, c2 in D(x):
                        m = {mk('dig', j): mk('dig', j + k) for j in range(sum(i == 'dig' for i in s2))}
                        nx.append((s1 + s2, vs + [subst(v, m)], c1 + tuple((subst(t, m), w) for t, w in c2)))
                out = nx
                if len(out) > 4000:
                    raise Und('too many shapes')
            pick = {'tuple': None, 'pair': None, 'preceded': 1, 'terminated': 0, 'delimited': 1, 'separated_pair': (0, 2)}[n]
            r = []
            for s, vs, c in out:
                v = vs[pick] if isinstance(pick, int) else mk('agg', 'tuple', None, *([vs[i] for i in pick] if pick else vs))
                r.append((s, v, c))
            return r
        if n in ('map_opt', 'map', 'map_res'):
            out = []
            for s, v, c in D(a[0]):
                for c2, w, k in self.call(a[1], v):
                    if k != 'return':
                        continue
                    if n == 'map_opt':
                        if w.op == 'agg' and w.args[1] == 0:
                            continue
                        if w.op == 'agg' and w.args[1] == 1:
                            w = w.args[2]
                        else:
                            c2 += ((mk('discr', w), 1),)
                            w = E.getfield(w, 0, 1)
                    elif n == 'map_res':
                        c2 += ((mk('discr', w), 0),)
                        w = E.getfield(w, 0, 0)
                    out.append((s, canon(w), c + c2))
            return out
        if n == 'value':
            return [(s, a[0], c) for s, v, c in D(a[1])]
        if n == 'recognize' or n in ('all_consuming', 'complete', 'cut'):
            return D(a[0])
        raise Und('combinator %s' % n)

    def sym(self, P):
        """[(conds, value)] with component parsers as unknowns: ('pv', P) a value of P, ('plist', P) a list of them"""
        Q = self.expand(P)
        n = self.name(Q)
        a = list(Q.args[1:]) if Q.op == 'call' else []
        if n in ('tuple', 'pair', 'preceded', 'terminated', 'delimited', 'separated_pair'):
            ps = self.tup(a[0]) if n == 'tuple' else a
            out = [((), [])]
            for x in ps:
                out = [(c1 + c2, vs + [v]) for c1, vs in out for c2, v in self.sym(x)]
            pick = {'tuple': None, 'pair': None, 'preceded': 1, 'terminated': 0, 'delimited': 1, 'separated_pair': (0, 2)}[n]
            return [(c, vs[pick] if isinstance(pick, int) else mk('agg', 'tuple', None, *([vs[i] for i in pick] if pick else vs))) for c, vs in out]
        if n in ('many0', 'many1'):
            return [((), mk('plist', self.strip(a[0])))]
        if n in ('separated_list0', 'separated_list1'):
            return [((), mk('plist', self.strip(a[1])))]
        if n == 'map_opt' and self.local(a[1]):
            out = []
            for c, v in self.sym(a[0]):
                for c2, w, k in self.call(a[1], v):
                    if k != 'return' or w.op == 'agg' and w.args[1] == 0:
                        continue
                    if w.op == 'agg' and w.args[1] == 1:
                        out.append((c + c2, w.args[2]))
                    else:
                        out.append((c + c2 + ((mk('discr', w), 1),), E.getfield(w, 0, 1)))
            return out
        return [((), mk('pv', P))]

    def local(self, f):
        return f.op in ('fn', 'agg')

    def strip(self, P):
        """the component whose value a sequence passes on"""
        Q = P
        while True:
            n = self.name(Q)
            if Q.op == 'call' and n in ('preceded',):
                Q = Q.args[2]
            elif Q.op == 'call' and n in ('terminated',):
                Q = Q.args[1]
            elif Q.op == 'call' and n in ('delimited',):
                Q = Q.args[2]
            else:
                return Q


# ------------------------------------------------------------------ regular languages
def lit(cs):
    return ('lit', frozenset(cs))


def cat(*rs):
    return ('cat',) + rs


def alt(*rs):
    return ('alt',) + rs


def star(r):
    return ('star', r)


def opt(r):
    return alt(r, cat())


class NFA:
    def __init__(self):
        self.eps = {}
        self.tr = {}
        self.n = 0

    def new(self):
        self.n += 1
        return self.n - 1

    def add(self, r):
        """-> (start, end)"""
        s, e = self.new(), self.new()
        if r[0] == 'lit':
            self.tr.setdefault(s, []).append((r[1], e))
        elif r[0] == 'cat':
            cur = s
            for x in r[1:]:
                a, b = self.add(x)
                self.eps.setdefault(cur, []).append(a)
                cur = b
            self.eps.setdefault(cur, []).append(e)
        elif r[0] == 'alt':
            for x in r[1:]:
                a, b = self.add(x)
                self.eps.setdefault(s, []).append(a)
                self.eps.setdefault(b, []).append(e)
        elif r[0] == 'star':
            a, b = self.add(r[1])
            self.eps.setdefault(s, []).extend([a, e])
            self.eps.setdefault(b, []).extend([a, e])
        return s, e

    def close(self, S):
        out = set(S)
        st = list(S)
        while st:
            x = st.pop()
            for y in self.eps.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def step(self, S, c):
        return self.close({e for x in S for cs, e in self.tr.get(x, ()) if c in cs})


def compile_(r):
    n = NFA()
    s, e = n.add(r)
    return n, n.close({s}), e


def distinguish(r1, r2, sigma, limit=20000):
    """(word, in first) that is in one language only, None if equal"""
    n1, s1, e1 = compile_(r1)
    n2, s2, e2 = compile_(r2)
    seen = {(s1, s2)}
    todo = [(s1, s2, '')]
    order = sorted(sigma)
    while todo:
        nxt = []
        for a, b, w in todo:
            if (e1 in a) != (e2 in b):
                return w, e1 in a
            for c in order:
                x, y = n1.step(a, c), n2.step(b, c)
                if not x and not y:
                    continue
                if (x, y) not in seen:
                    seen.add((x, y))
                    if len(seen) > limit:
                        raise Und('automaton too large')
                    nxt.append((x, y, w + c))
        todo = nxt
    return None


def states(r, sigma):
    n, s, e = compile_(r)
    seen = {s}
    todo = [s]
    while todo:
        a = todo.pop()
        for c in sigma:
            b = n.step(a, c)
            if b and b not in seen:
                seen.add(b)
                todo.append(b)
    return len(seen)


def shadowed(r1, r2, sigma):
    """(u, v): u in r1, uv in r2, v not empty, and r1 (longest match) stops after u on the text uv"""
    n1, s1, e1 = compile_(r1)
    n2, s2, e2 = compile_(r2)
    # breadth first over words; after r1 accepts and the next character leaves r1, look for a completion in r2
    seen = {(s1, s2)}
    todo = [(s1, s2, '')]
    while todo:
        nxt = []
        for a, b, w in todo:
            for c in sorted(sigma):
                x, y = n1.step(a, c), n2.step(b, c)
                if not y:
                    continue
                if e1 in a and w and not x:
                    v = complete(n2, y, e2, sigma)
                    if v is not None:
                        return w, c + v
                if x and (x, y) not in seen:
                    seen.add((x, y))
                    nxt.append((x, y, w + c))
        todo = nxt
    return None


def complete(n, S, e, sigma):
    seen = {S}
    todo = [(S, '')]
    while todo:
        nxt = []
        for a, w in todo:
            if e in a:
                return w
            for c in sorted(sigma):
                b = n.step(a, c)
                if b and b not in seen:
                    seen.add(b)
                    nxt.append((b, w + c))
        todo = nxt
    return None
