"""Path summaries of one function: explored paths with loop values put in closed form where possible."""
from .terms import *
from . import engine as E
from .engine import Engine, Undecided
from .models import resimp, t_len
from .poly import canon


class Path:
    def __init__(self, summ, st):
        self.s = summ
        self.st = st
        self.kind = st.kind
        self.raw_ret = st.ret
        self.events = [e for e, _ in st.event_list()]
        self._memo = {}
        # loops this path left through exhaustion of their source
        self.exhausted = set()
        last = None
        for e in self.events:
            if e[0] == 'exhausted':
                last = e[1]
                self.exhausted.add(e[1])

    @property
    def ret(self):
        return self.norm(self.raw_ret) if isinstance(self.raw_ret, T) else self.raw_ret

    def norm(self, t):
        return canon(self.s.norm(t, self))

    def facts(self):
        """[(canonical term, value)]"""
        out = []
        for t, v in self.st.rel:
            c = self.norm(t)
            if isinstance(v, int):
                c, v = E.canon_bool(c, v) if c.op == 'not' else (c, v)
            if c.op == 'int':
                continue
            out.append((c, v))
        return out

    def evs(self, *kinds):
        return [e for e in self.events if e[0] in kinds]

    def heap(self, cell, path=()):
        eng = self.s.eng
        return self.norm(eng.read_cell(self.st, cell, path))


class Summary:
    def __init__(self, eng, fn, args=None, pre=None):
        self.eng = eng
        self.fn = fn
        states = eng.run(fn, args, pre)
        self._inv = None
        self.paths = [Path(self, s) for s in states if s.kind != 'unreachable']

    def returns(self):
        return [p for p in self.paths if p.kind == 'return']

    def panics(self):
        return [p for p in self.paths if p.kind == 'panic']

    def backs(self):
        return [p for p in self.paths if p.kind == 'back']

    # -------------------------------------------------------- loop invariants: phis that never change
    def _invariant(self):
        """phi -> value it always has, by optimistic fixpoint"""
        backs = self.eng.backs
        inv = {ph: ph.args[3] for ph in backs}
        for _ in range(40):
            bad = []
            m = {}
            for ph in inv:
                m[ph] = inv[ph]
            memo = {}

            def go(t):
                r = memo.get(t.id)
                if r is not None:
                    return r
                n = 0
                x = t
                if x in inv:
                    r = go(inv[x])
                else:
                    a = tuple(goa(y) for y in x.args)
                    r = x if a == x.args else mk(x.op, *a, ty=x.ty)
                    if r is not x:
                        r = resimp1(r)
                memo[t.id] = r
                return r

            def goa(y):
                if isinstance(y, T):
                    return go(y)
                if isinstance(y, tuple):
                    return tuple(goa(z) for z in y)
                return y
            for ph in list(inv):
                want = go(inv[ph])
                for v, fs, st in backs[ph]:
                    if go(v) is not want:
                        bad.append(ph)
                        break
            if not bad:
                break
            for ph in bad:
                del inv[ph]
        self._inv = inv
        return inv

    @property
    def inv(self):
        if self._inv is None:
            self._invariant()
        return self._inv

    def norm(self, t, path=None, depth=0):
        """replace loop atoms by closed forms"""
        memo = path._memo if path is not None else {}
        busy = set()

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            r = memo.get(x.id)
            if r is not None:
                return r
            if x in busy:
                return x
            busy.add(x)
            if x.op == 'phi':
                if x in self.inv:
                    r = go(self.inv[x])
                else:
                    r = self.loopform(x, path, go)
                    if r is None:
                        r = x
            elif x.op == 'fld' and x.args[2].op == 'phi' and x.args[2] not in self.inv and self.field_const(x.args[2], x.args[0], x.args[1]):
                r = go(E.getfield(x.args[2].args[3], x.args[0], x.args[1]))
            else:
                a = tuple(go(y) for y in x.args)
                r = x if a == x.args else resimp1(mk(x.op, *a, ty=x.ty))
            busy.discard(x)
            memo[x.id] = r
            return r
        return go(t)

    def field_const(self, ph, i, variant):
        f = E.getfield(ph, i, variant)
        for v, fs, st in self.eng.backs.get(ph, ()):
            g = E.getfield(v, i, variant)
            if g is f:
                continue
            # through an inner loop's phi
            n = 0
            while g.op == 'fld' and g.args[2].op == 'phi' and g is not f and n < 6:
                inner = g.args[2]
                if inner in self._seen_fc:
                    break
                self._seen_fc.add(inner)
                ok = self.field_const(inner, i, variant)
                self._seen_fc.discard(inner)
                if not ok:
                    break
                g = E.getfield(inner.args[3], i, variant)
                n += 1
            if g is not f:
                return False
        return True
    _seen_fc = set()

    def loopform(self, ph, path, go):
        """closed form of the value of a loop-carried location after the loop ran to exhaustion"""
        key = ph.args[0]
        if path is None or key not in path.exhausted:
            return None
        backs = self.eng.backs.get(ph)
        if not backs:
            return None
        # on a path that is still inside the loop the value is that of a middle iteration
        if path.kind == 'back' and path.raw_ret == key:
            return None
        if not exited(path.events, key):
            return None
        init = go(ph.args[3])
        cases = []
        seen = set()
        def fixed(t):
            return not contains(t, lambda y: y.op in ('phi', 'ix') and y.args[0] == key)
        mine = path.st.facts
        for v, fs, st in backs:
            if st.kind == 'back' and (v, fs) in seen:
                continue
            # iterations that belong to another way of entering the loop
            if any(isinstance(b, int) and isinstance(mine.get(f), int) and mine[f] != b and fixed(f) for f, b in st.facts.items()):
                continue
            seen.add((v, fs))
            v = self.norm_in(v, st)
            cases.append((v, fs))
        vals = [v for v, fs in cases]
        I = n = None
        ren = {}
        for v, fs in cases:
            for t in list(subterms(v)) + [y for f, _ in fs for y in subterms(f)]:
                if t.op == 'ix' and t.args[0] == key and t not in ren:
                    g = go(t.args[1])
                    if I is None:
                        I, n = t, g
                    elif canon(g) is not canon(n):
                        return None
                    ren[t] = I
        if I is None:
            return None
        if len(ren) > 1:
            cases = [(subst(v, ren), tuple((subst(f, ren), b) for f, b in fs)) for v, fs in cases]
            vals = [v for v, fs in cases]
        bv = mk('bv', 'L%d' % bvdepth(vals))
        sub = lambda t: resimp(subst(t, {I: bv}))
        kinds = set()
        # an update of one field of the location
        wf = None
        if all(v is ph or (v.op == 'with' and v.args[0] is ph) for v in vals) and not all(v is ph for v in vals):
            fl = {v.args[1] for v in vals if v is not ph}
            if len(fl) != 1:
                return None
            wf = fl.pop()
            base = next((t for v in vals for t in subterms(v) if t.op == 'fld' and t.args[0] == wf and t.args[2] is ph), None)
            if base is None:
                return None
            cases = [((base if v is ph else v.args[2]), fs) for v, fs in cases]
            vals = [v for v, fs in cases]
            whole, ph = ph, base
            winit, init = init, E.getfield(init, wf, base.args[1])
        r = self.loopform2(ph, cases, vals, init, I, n, bv, sub)
        if r is None or wf is None:
            return r
        if contains(r, lambda y: y is whole):
            return None
        return E.setfield(winit, wf, None, r)

    def loopform2(self, ph, cases, vals, init, I, n, bv, sub):
        kinds = set()
        for v in vals:
            if v is ph:
                kinds.add('same')
            elif v.op == 'store' and v.args[0] is ph or v.op == 'stores' and v.args[0] is ph:
                kinds.add('store')
            elif v.op in ('push', 'sinsert', 'minsert', 'vextend') and v.args[0] is ph:
                kinds.add(v.op)
            elif v.op == 'agg' and False:
                pass
            elif v.op == 'add' and ph in v.args[1:]:
                kinds.add('add')
            elif v.op == 'sub' and v.args[0] != 'm' and v.args[1] is ph:
                kinds.add('add')
            elif v.op == 'mul' and v.args[0] != 'm' and ph in v.args[1:]:
                kinds.add('mul')
            else:
                return None
        mut = kinds - {'same'}
        if len(mut) != 1:
            return None
        op = mut.pop()
        if op == 'store':
            return self.storeform(ph, cases, init, I, n, bv, sub)
        if any(contains(tt, lambda y: y is ph) for v, fs in cases for tt in (v.args[1:] if v is not ph and op not in ('add', 'mul') else ())):
            return None
        # facts belonging to this iteration: those mentioning the index
        def local(fs):
            return tuple((sub(f), b) for f, b in fs if contains(f, lambda y: y is I))
        if any(contains(f, lambda y: y is ph) for v, fs in cases for f, b in fs):
            return None
        plain = len(cases) == 1
        out = []
        for v, fs in cases:
            if v is ph:
                continue
            if op in ('add', 'mul'):
                x = v.args[2] if v.args[1] is ph else v.args[1]
                if v.op == 'sub':
                    x = E.t_arith('neg', v.args[0], x)
                if contains(x, lambda y: y is ph):
                    return None
            elif op == 'minsert':
                x = tup(v.args[1], v.args[2])
            else:
                x = v.args[1]
            out.append(((() if plain else local(fs)), sub(x)))
        kind = 'map' if plain else 'filter'
        if op == 'vextend':
            kind = 'flat'
        comp = mk('comp', kind, n, bv, tuple(dict.fromkeys(out)))
        comp = alpha(comp)
        if op == 'add':
            s = mk('sum', comp)
            return E.t_arith('add', next((v.args[0] for v in vals if v.op in ('add', 'sub')), 'i'), init, s)
        if op == 'mul':
            s = mk('product', comp)
            k = [v for v in vals if v.op == 'mul'][0].args[0]
            return E.t_arith('mul', k, init, s)
        if op in ('push', 'vextend'):
            return comp if t_len(init) is INT(0) else mk('vextend', init, comp)
        if op == 'sinsert':
            return mk('toset', comp) if init.op == 'emptyset' else mk('sunion', init, comp)
        if op == 'minsert':
            return mk('tomap', comp) if init.op == 'emptymap' else mk('munion', init, comp)
        return None

    def storeform(self, ph, cases, init, I, n, bv, sub):
        plain = len(cases) == 1
        out = []
        nested = False

        def clean(ind, x):
            # the element itself may be read before it is overwritten
            ci = canon(ind)
            m = {}
            for y in subterms(x):
                if y.op == 'idx' and (y.args[1] is ind or canon(y.args[1]) is ci):
                    if y.args[0] is ph:
                        m[y] = E.getidx(init, ind)
                    elif ph.op == 'phi' and y.args[0].op == 'phi' and y.args[0].args[0] == ph.args[0] and self.sibling(y.args[0], ci):
                        m[y] = E.getidx(self.norm(y.args[0].args[3]), ind)
            x = subst(x, m) if m else x
            if contains(x, lambda y: y is ph) or contains(ind, lambda y: y is ph):
                return None
            return resimp(x)
        for v, fs in cases:
            if v is ph:
                continue
            if any(contains(f, lambda y: y is ph) for f, b in fs):
                return None
            ff = () if plain else tuple((sub(f), b) for f, b in fs if contains(f, lambda y: y is I))
            if v.op == 'store':
                ind = v.args[1]
                if not self.injective(ind, I):
                    return None
                x = clean(ind, v.args[2])
                if x is None:
                    return None
                out.append((ff, sub(tup(ind, x))))
            else:
                nested = True
                c = v.args[1]

                def inner(c):
                    if c.op == 'comp':
                        a = []
                        for fs2, y in c.args[3]:
                            y = inner(y)
                            if y is None or any(contains(f, lambda z: z is ph) for f, b in fs2):
                                return None
                            a.append((fs2, y))
                        return mk('comp', c.args[0], c.args[1], c.args[2], tuple(a))
                    ind, x = c.args[2:4]
                    if not self.injective(ind, I):
                        return None
                    x = clean(ind, x)
                    return None if x is None else tup(ind, x)
                c = inner(c)
                if c is None or contains(c, lambda y: y is ph):
                    return None
                out.append((ff, sub(c)))
        comp = alpha(mk('comp', 'flat' if nested else ('map' if plain else 'filter'), n, bv, tuple(dict.fromkeys(out))))
        r = stores(init, comp)
        return r

    def sibling(self, q, ci):
        """another location of the same loop that is only overwritten at the same index in each iteration"""
        for v, fs, st in self.eng.backs.get(q, ()):
            if v is q:
                continue
            if not (v.op == 'store' and v.args[0] is q and canon(v.args[1]) is ci):
                return False
        return True

    def injective(self, ind, I):
        if ind is I:
            return True
        c, I = canon(ind), canon(I)
        if c is I:
            return True
        if c.op == 'poly':
            own = [(m, k) for m, k in c.args if any(contains(x, lambda y: y.op == 'ix' and y.args[0] == I.args[0]) for x, e in m)]
            return len(own) == 1 and own[0][0] == ((I, 1),)
        if ind.op == 'agg':
            return any(self.injective(x, I) for x in ind.args[2:])
        return False

    def norm_in(self, t, st):
        """normalise a back-edge value in the context of its own path"""
        p = getattr(self, '_bp', None)
        if p is None:
            p = self._bp = {}
        k = id(st)
        if k not in p:
            p[k] = Path(self, st)
        return self.norm(t, p[k])


def stores(init, comp):
    """init with the elements listed by comp overwritten; a full overwrite is a map"""
    kind, n, I, cs = comp.args
    if kind == 'map' and len(cs) == 1 and not cs[0][0]:
        ind, x = cs[0][1].args[2:4]
        if ind is I and n is canon(t_len(init)):
            return mk('comp', 'map', n, I, (((), x),))
    return mk('stores', init, comp)


def bvdepth(vals):
    d = 0
    for v in vals:
        for t in subterms(v):
            if t.op == 'bv':
                d += 1
    return d


def alpha(t):
    """rename the bound variables of comprehensions by nesting depth"""
    def go(x, env, depth):
        if isinstance(x, tuple):
            return tuple(go(y, env, depth) for y in x)
        if not isinstance(x, T):
            return x
        if x in env:
            return env[x]
        if x.op == 'comp':
            I2 = mk('bv', depth + 1)
            e2 = dict(env)
            e2[x.args[2]] = I2
            return mk('comp', x.args[0], go(x.args[1], env, depth), I2, go(x.args[3], e2, depth + 1))
        if x.op == 'fold' and len(x.args) == 5:
            n, I, acc, init, v = x.args
            e2 = dict(env)
            e2[I], e2[acc] = mk('bv', depth + 1), mk('bv', 'acc%d' % (depth + 1))
            return mk('fold', go(n, env, depth), e2[I], e2[acc], go(init, env, depth), go(v, e2, depth + 1))
        a = tuple(go(y, env, depth) for y in x.args)
        return x if a == x.args else mk(x.op, *a, ty=x.ty)
    return go(t, {}, 0)


def exited(events, key):
    for e in events:
        if e[0] == 'exit' and e[1] == key:
            return True
    return False


def resimp1(x):
    """smart constructor for the top node"""
    a, o = x.args, x.op
    if o in ('add', 'sub', 'mul', 'div', 'rem'):
        return E.t_arith(o, *a)
    if o == 'neg':
        return E.t_arith('neg', a[0], a[1])
    if o == 'idx':
        return E.getidx(*a)
    if o == 'mget':
        return E.getkey(*a)
    if o == 'fld':
        return E.getfield(a[2], a[0], a[1])
    if o == 'eq':
        return E.t_eq(*a)
    if o == 'lt':
        return E.t_lt(*a)
    if o == 'not':
        return E.t_not(*a)
    if o == 'len':
        return t_len(*a)
    if o == 'contains':
        return E.has_key(*a)
    return x
