"""Rounds of loops in a summary, on one instance: the transition relation of a loop (its ways around, with the conditions and
new values found by the engine) applied to a given state.  Loops over a known range inside a round are unfolded."""
from . import evalt, geom
from .evalt import NoEval
from .graphs import cphi
from .rules import Und
from .terms import *
from .poly import canon


class Elsewhere(Exception):
    """another path leaves the loop earlier"""


class Sweep:
    def __init__(self, s, paths=None, hook=None, args=None, limit=60, early=False):
        self.early = early          # paths may leave loops in the middle of a round
        c = s.__dict__.setdefault('_sweep', {}) if paths is None else {}       # facts about the summary, not the instance
        self._own = c.setdefault('own', {})
        self._ixs = c.setdefault('ixs', {})
        self._alike = c.setdefault('alike', {})
        self._bvs = c.setdefault('bvs', {})
        self._free = c.setdefault('free', {})
        self._facts = c.setdefault('facts', {})
        self.s = s
        self.paths = list(s.paths if paths is None else paths)
        self.hook = hook
        self.args = dict(args or {})
        self.limit = limit
        self._ph = {}
        self.at = {}
        for p in self.paths:
            d = {}
            for n, e in enumerate(p.events):
                if e[0] == 'loop':
                    d[e[1]] = (n, {cp: cphi(s, ph) for cp, ph in e[2].items() if isinstance(ph, T) and ph not in s.inv},
                               {cp: ph for cp, ph in e[2].items()})
            self.at[p] = d

    # -------------------------------------------------------------------- evaluation
    def env(self, bind):
        b = dict(self.args)
        b.update(bind)
        e = evalt.Env(1, bind=b)
        e.strict = True
        e.hook = self.hook
        return e

    def free(self, t, bind):
        f = self._free.get(t)
        if f is None:
            bound = self.bvs(t)
            f = self._free[t] = tuple(x for x in subterms(t) if x.op in ('phi', 'ix') and x not in bound)
        return any(x not in bind for x in f)

    def facts(self, p):
        if p not in self._facts:
            self._facts[p] = p.facts()
        return self._facts[p]

    def bvs(self, t):
        """indices bound inside t"""
        if t in self._bvs:
            return self._bvs[t]
        out = self._bvs[t] = set()
        for x in subterms(t):
            if x.op == 'comp':
                out.add(x.args[2])
            elif x.op in ('any', 'all', 'fold', 'argfind'):
                out.update(y for y in x.args if isinstance(y, T) and y.op in ('ix', 'bv'))
        return out

    def ev(self, t, bind):
        return evalt.ev(t, self.env(bind))

    def holds(self, p, bind, only=None, final=False, memo=None):
        e = self.env(bind)
        err = None
        for t, v in self.facts(p):
            if only is not None and not only(t):
                continue
            if memo is not None and (t, v) in memo:
                r = memo[(t, v)]
                if r is False:
                    return False
                if r is not True:
                    if not self.early:
                        raise r
                    err = err or r
                continue
            if self.free(t, bind):
                continue
            try:
                r = bool(evalt.fact_val(t, v, e))
                if memo is not None:
                    memo[(t, v)] = r
                if not r:
                    return False
            except Exception as x:
                if memo is not None:
                    memo[(t, v)] = x
                # a condition that is only reached when the others hold
                if not self.early:
                    raise
                err = err or x
        if err and final:
            raise err
        return True

    # -------------------------------------------------------------------- structure
    def keys(self):
        out = []
        for p in self.paths:
            for k in self.at[p]:
                if k not in out:
                    out.append(k)
        return out

    def index(self, key, like=None):
        """the index terms of loop `key`"""
        out = set()
        if not self.early:
            like = None
        if (key, like) in self._ixs:
            return self._ixs[(key, like)]
        self._ixs[(key, like)] = out
        for p in self.paths:
            if key not in self.at[p] or like is not None and not self.alike(p, like, key):
                continue
            ts = [t for t, v in self.facts(p)]
            if isinstance(p.raw_ret, T):
                ts.append(p.ret)
            for e in p.events:
                if e[0] == 'back':
                    ts += [canon(p.norm(v)) for cp, v in e[2].items()]
                if e[0] == 'loop':
                    ts += [canon(p.norm(ph.args[3])) for ph in e[2].values() if isinstance(ph, T) and ph.op == 'phi']
            for t in ts:
                for x in subterms(t):
                    if x.op == 'ix' and x.args[0] == key:
                        out.add(x)
        return out

    def inner(self, p, key):
        """loops entered after loop `key` on path p (all of them when key is None)"""
        n = self.at[p][key][0] if key is not None else -1
        return sorted(((m, k) for k, (m, _, _) in self.at[p].items() if m > n))

    # -------------------------------------------------------------------- rounds
    def bindings(self, p, key, state, bind):
        b = dict(bind)
        for cp, t in self.at[p][key][1].items():
            if cp in state:
                b[t] = state[cp]
        return b

    def through(self, p, key, bind, stop=None):
        """run the loops path p completes after entering `key`; the bindings at its end"""
        b = dict(bind)
        for n, k in self.inner(p, key):
            if k == stop:
                break
            init = self.init(p, k, b)
            own = self.mentions(p, k)
            if (own or self.index(k, p)) and self.early and ('exhausted', k) not in [e[:2] for e in p.events]:
                b = self.leave(p, k, own, init, b, stop)
                if stop is None:
                    return b            # with the loops within gone through
            else:
                fin = self.run(k, init, b, p)
                b = self.bindings(p, k, fin, b)
            if self.early and not self.holds(p, b):
                raise Elsewhere()
        return b

    def mentions(self, p, key):
        """indices of the loop that the path itself speaks of: it leaves in the middle of a round"""
        if (p, key) not in self._own:
            out = set()
            ts = [t for t, v in self.facts(p)]
            if isinstance(p.raw_ret, T):
                ts.append(p.ret)
            n = self.at[p][key][0]
            for m, e in enumerate(p.events):
                if m > n and e[0] == 'loop':
                    ts += [canon(p.norm(ph.args[3])) for ph in e[2].values() if isinstance(ph, T) and ph.op == 'phi']
                if m > n and e[0] == 'back' and e[1] != key:
                    ts += [canon(p.norm(v)) for cp, v in e[2].items()]
            for t in ts:
                bound = self.bvs(t)
                for x in subterms(t):
                    if x.op == 'ix' and x.args[0] == key and x not in bound:
                        out.add(x)
            self._own[(p, key)] = out
        return self._own[(p, key)]

    def leave(self, p, key, own, state, bind, stop=None):
        """bindings of the round in which p leaves the loop"""
        ixs = self.index(key, p) | own
        ns = {int(self.ev(x.args[1], bind)) for x in ixs}
        if len(ns) != 1:
            raise Und('range')
        n = ns.pop()
        if n > self.limit:
            raise Und('range')
        for i in range(n):
            b = dict(bind)
            for x in ixs:
                b[x] = evalt.Fraction(i)
            c = self.bindings(p, key, state, b)
            if self.holds(p, c):
                c = c if stop is not None else self.goes_on(p, key, c)
                if c is not None:
                    return c
            new = self.step(key, state, b, p)
            if new is None:
                if not self.skipped(key, state, b, p):
                    raise Elsewhere()
                continue
            state = new
        raise Elsewhere()

    def goes_on(self, p, key, b):
        """from this round, p finds its way out of the loops within as well: the bindings at its end"""
        if not self.inner(p, key):
            return b
        try:
            return self.through(p, key, b)
        except Elsewhere:
            return None

    def skipped(self, key, state, b, like):
        """no path at all makes this round: the entry is sorted out before (a loop over filtered entries)"""
        memo = {}       # paths that came here alike have the same bindings
        for p in self.paths:
            if key not in self.at[p] or ('exhausted', key) in [e[:2] for e in p.events] or not self.alike(p, like, key):
                continue
            if self.holds(p, self.bindings(p, key, state, b), memo=memo):
                return False
        return True

    def init(self, p, k, bind):
        out = {}
        for cp, ph in self.at[p][k][2].items():
            if ph in self.s.inv or not isinstance(ph, T):
                continue
            try:
                out[cp] = self.ev(canon(p.norm(ph.args[3])), bind)
            except NoEval:
                continue
        return out

    def ways(self, key, state, bind, kinds=('back',), like=None):
        """[(path, bindings)] of the paths going around `key` from this state"""
        out = []
        memo = {} if like is not None and self.early else None
        for p in self.paths:
            if p.kind not in kinds or key not in self.at[p]:
                continue
            if p.kind == 'back' and p.raw_ret != key:
                continue
            if like is not None and self.early and not self.alike(p, like, key):
                continue
            b = self.bindings(p, key, state, bind)
            if not self.holds(p, b, memo=memo):
                continue
            try:
                b = self.through(p, key, b)
            except Elsewhere:
                continue
            self.settled(p, key, b)
            if self.holds(p, b, final=True):
                out.append((p, b))
        return out

    def alike(self, p, q, key):
        """both paths came to the loop in the same way"""
        if p is q:
            return True
        k = (p, q, key)
        if k not in self._alike:
            self._alike[k] = self._alike[(q, p, key)] = self.alike_(p, q, key)
        return self._alike[k]

    def alike_(self, p, q, key):
        n = self.at[p][key][0]
        if n != self.at[q][key][0]:
            return False
        return all(x is y or x == y for x, y in zip(p.events[:n + 1], q.events[:n + 1]))

    def settled(self, p, key, b):
        """Und when a condition of p speaks of a loop left in the middle of a round"""
        n = self.at[p][key][0] if key is not None else -1
        for t, v in self.facts(p):
            for x in subterms(t):
                if x.op in ('phi', 'ix') and x not in b and x.args[0] in self.at[p] and self.at[p][x.args[0]][0] > n:
                    raise Und('loop left in the middle of a round')

    def after(self, p, key, b):
        e = [e for e in p.events if e[0] == 'back' and e[1] == key][-1]
        out = {}
        for cp in self.at[p][key][1]:
            out[cp] = self.ev(canon(p.norm(e[2][cp])), b) if cp in e[2] else b.get(self.at[p][key][1][cp])
        return out

    def step(self, key, state, bind, like=None):
        """state after one round, None when no way leads around the loop"""
        res = None
        for p, b in self.ways(key, state, bind, like=like):
            new = self.after(p, key, b)
            new = dict(state, **{}) | new
            if res is not None and res != new:
                raise Und('two different rounds')
            res = new
        return res

    def run(self, key, state, bind, like=None):
        ixs = self.index(key, like)
        if ixs:
            ns = {int(self.ev(x.args[1], bind)) for x in ixs}
            if len(ns) != 1:
                raise Und('range')
            n = ns.pop()
            if n > self.limit:
                raise Und('range')
            for i in range(n):
                b = dict(bind)
                for x in ixs:
                    b[x] = evalt.Fraction(i)
                new = self.step(key, state, b, like)
                if new is None:
                    if self.early and self.skipped(key, state, b, like):
                        continue
                    if self.early:
                        raise Elsewhere()
                    raise Und('no way around loop %s' % (key[-1],))
                state = new
            return state
        n = self.count(key, bind, like)
        for i in range(self.limit if n is None else n):
            new = self.step(key, state, bind, like)
            if new is None and n is not None:
                raise Elsewhere() if self.early else Und('no way around loop %s' % (key[-1],))
            if new is None:
                return state
            state = new
        if n is not None and n <= self.limit:
            return state
        raise Und('loop %s' % (key[-1],))

    def count(self, key, bind, like):
        """rounds of a loop over a range whose index is not used"""
        for e in like.events if like is not None else ():
            if e[0] == 'exhausted' and e[1] == key and isinstance(e[2], T) and e[2].op == 'range' and e[2].args[1] is not None:
                lo, hi = (self.ev(canon(like.norm(x)), bind) for x in e[2].args[:2])
                return max(0, int(hi) - int(lo))
        return None

    def final(self, p, b, term=None):
        """the value returned (or of another term of the path), from the values the loops end with"""
        term = p.raw_ret if term is None else term
        b = dict(b)
        for k, (n, cs, raw) in self.at[p].items():
            for cp, ph in raw.items():
                if isinstance(ph, T) and cp in cs and cs[cp] in b:
                    b[ph] = b[cs[cp]]
        m = {}
        for x in subterms(term):
            if x.op == 'phi' and x in self.s.inv:
                m[x] = self.s.inv[x]
        t = term
        for _ in range(4):
            if not m:
                break
            t = subst(t, m)
            m = {x: self.s.inv[x] for x in subterms(t) if x.op == 'phi' and x in self.s.inv}
        return self.ev(canon(t), b)

    def panics(self, bind):
        """a path that panics is taken"""
        for p in self.paths:
            if p.kind != 'panic' or not self.holds(p, dict(bind or {})):
                continue
            try:
                b = self.through(p, None, dict(bind or {}))
            except Elsewhere:
                continue
            self.settled(p, None, b)
            if self.holds(p, b, final=True):
                return True
        return False

    def result(self, bind=None, what=None):
        """value of the return path taken (or of the terms what(path)), all loops unfolded; Und unless they all run over ranges"""
        res = []
        for p in self.paths:
            if p.kind != 'return':
                continue
            b = dict(bind or {})
            if not self.holds(p, b):
                continue
            try:
                b = self.through(p, None, b)
            except Elsewhere:
                continue
            self.settled(p, None, b)
            if self.holds(p, b, final=True):
                if what:
                    res.append(tuple(self.final(p, b, t) for t in what(p)))
                    continue
                res.append(self.final(p, b) if self.early else self.ev(p.ret, b))
        if not res and self.early and self.panics(bind):
            raise geom.Panic('no way to return')
        if not res or any(x != res[0] for x in res):
            raise Und('%d results' % len(res))
        return res[0]
