"""C03: the partition structure is the equivalence closure of the united pairs."""
from ..rules import *

LEVEL = 'other'
TECHNIQUE = 'path-sensitive dataflow over MIR: union-find heap-update discipline'
RULE = ('Abstract interpretation (value numbering, one abstract state per path, loops by header values and one '
        'symbolic iteration) of find, unite and classes with all their helpers inlined. Every store into the parent array must be '
        'a self-parent at creation, a compression onto the root of the same walk, or one link between the roots of the two '
        'united elements; every path of unite must end with the two roots equal or linked; find must return the element '
        'stored at the fixpoint of the parent walk; classes must append each element to the class of its representative.')
PROP = {
    'title': 'Partition is the equivalence closure of the united pairs',
    'statement': 'After any sequence of unite and find calls, two elements have the same representative exactly when they are '
                 'connected by united pairs; a query never merges or splits classes, and the representative is itself a member of '
                 'the class. Splitting a list of elements into classes puts every listed element, with its multiplicity, into '
                 'exactly one class, together with exactly the listed elements equivalent to it, in order of first appearance.',
    'quantifier': {'over': ['histories', 'inputs'], 'text': 'every sequence of unite, find and classes calls on any hashable element type'},
    'why_tests_cant': 'Tests run a handful of short unite sequences on small integers; wrong links show only for particular tree '
                      'shapes and orders of operations.',
    'anchors': {'files': ['src/partitions.rs'],
                'mechanism': 'parent/rank/index/element arrays updated by the root walk, the lookup of an element and the linking of two roots',
                'state': ['index map, elements, rank and parent vectors behind the cell'],
                'observe_at': ['Partition::find', 'Partition::unite', 'Partition::classes']},
}

INL = None


def cellfields(ctx):
    a = [x for p, x in ctx.lib.adts.items() if p.endswith('partitions::PartitionImpl')]
    if not a:
        raise Und('no PartitionImpl')
    return [f['name'] for f in a[0]['variants'][0]['fields']]


class Roles:
    """which field of the cell content is what, from the creation path of an element"""

    def __init__(self, names):
        self.i = {n: k for k, n in enumerate(names)}

    def __getattr__(self, n):
        return self.i.get(n)


def base_cell(t):
    """the cell version a field term was read from"""
    while True:
        if t.op in ('with', 'store', 'push', 'minsert'):
            t = t.args[0]
        elif t.op == 'fld':
            t = t.args[2]
        elif t.op == 'phi' and t.args[1][0] == 'U':
            return t
        else:
            return t


class Walk:
    def __init__(self, s, path, parent, index, elements):
        self.s, self.p = s, path
        self.P, self.I, self.E = parent, index, elements
        self.new = []      # (key term, index term) of elements created on this path
        for e in path.evs('write'):
            _, cell, cp, x, sp = e
            if cell[0] == 'U' and len(cp) == 1 and cp[0][1] == index:
                x = path.norm(x)
                if x.op == 'minsert':
                    self.new.append((x.args[1], x.args[2]))

    def is_version(self, t, fieldno):
        """t is some version of field fieldno of the cell"""
        while t.op in ('store', 'push', 'minsert'):
            t = t.args[0]
        return t.op == 'fld' and t.args[0] == fieldno

    def node(self, t, seen=()):
        """the key whose tree node t belongs to"""
        p = self.p
        if t.op == 'mget' and self.is_version(t.args[0], self.I):
            return t.args[1]
        for k, i in self.new:
            if canon(i) is canon(t):
                return k
        if t.op == 'idx' and self.is_version(t.args[0], self.P):
            return self.node(t.args[1], seen)
        if t.op == 'phi' and t not in seen:
            k = self.node(p.norm(t.args[3]), seen + (t,))
            if k is None:
                return None
            for v, fs, st in self.s.eng.backs.get(t, ()):
                v = self.s.norm_in(v, st)
                if not self.step(v, t):
                    return None
            return k
        return None

    def step(self, v, t):
        """v is an ancestor of t (or t)"""
        n = 0
        while v is not t and n < 6:
            if v.op == 'idx' and self.is_version(v.args[0], self.P):
                v = v.args[1]
            elif v.op == 'phi' and self.p.norm(v.args[3]) is t:
                v = t
            else:
                return False
            n += 1
        return v is t

    def fix(self, t):
        """the path knows parent[t] == t"""
        for c, v in self.p.facts():
            if c.op == 'eq' and v == 1:
                for a, b in (c.args[:2], c.args[1::-1]):
                    if a is t and b.op == 'idx' and b.args[1] is t and self.is_version(b.args[0], self.P):
                        return True
        return False

    def same(self, t):
        """t and everything known equal to it"""
        out = [t]
        for c, v in self.p.facts():
            if c.op == 'eq' and v == 1:
                for a, b in (c.args[:2], c.args[1::-1]):
                    if a in out and b not in out and b.op == 'phi':
                        out.append(b)
        return out

    def root(self, t):
        """key whose root t is"""
        for x in self.same(t):
            if self.fix(x):
                for y in self.same(t):
                    k = self.node(y)
                    if k is not None:
                        return k
        # a fresh element is its own root
        for k, i in self.new:
            if canon(i) is canon(t):
                return k
        return None


def stores(path, parent):
    """stores into elements of the parent array: (index, value, sp)"""
    for e in path.evs('write'):
        _, cell, cp, x, sp = e
        if cell[0] == 'U' and len(cp) == 2 and cp[0][1] == parent:
            yield path.norm(cp[1][1]) if isinstance(cp[1][1], T) else cp[1][1], path.norm(x), sp


def find_parent(ctx, s, names):
    if 'parent' in names:
        return names.index('parent')
    raise Und('no parent field')


def all_inline(ctx):
    return dict(inline_if=lambda g: g.file.endswith('partitions.rs') and g.kind != 'Closure')


def setup(ctx):
    names = cellfields(ctx)
    for n in ('parent', 'index', 'elements'):
        if n not in names:
            raise Und('fields are %s' % names)
    return names


def check_creation(ctx, s, names, key, fname):
    P, I, Ee = names.index('parent'), names.index('index'), names.index('elements')
    n = 0
    for p in s.paths:
        w = [(e[2], p.norm(e[3]), e[4]) for e in p.evs('write') if e[1][0] == 'U' and len(e[2]) == 1]
        ins = [x for cp, x, sp in w if cp[0][1] == I and x.op == 'minsert']
        if not ins and not w:
            continue
        for x in ins:
            n += 1
            k, i = x.args[1], x.args[2]
            # the new index must be the length of elements and of parent at that point
            els = [y for cp, y, sp in w if cp[0][1] == Ee and y.op == 'push' and y.args[1] is k]
            if not els:
                oth = [y for cp, y, sp in w if cp[0][1] == Ee]
                if oth and all(opaque_in(y) is None or True for y in oth) and all(y.op == 'push' for y in oth):
                    raise Bad('a new element %s is registered but %s is stored as the element' % (show(k), show(oth[0].args[1])), ctx.where(s.fn))
                if not oth:
                    raise Bad('a new element is registered in the index but not stored among the elements', ctx.where(s.fn))
                raise Und('elements update %s' % show(oth[0]))
            if not any(canon(t_len(y.args[0])) is canon(i) for y in els):
                raise Bad('a new element is stored at position %s but registered under index %s' % (
                    show(canon(t_len(els[0].args[0]))), show(i)), ctx.where(s.fn))
            ps = [y for cp, y, sp in w if cp[0][1] == P and y.op == 'push']
            if not ps:
                if any(cp[0][1] == P for cp, y, sp in w):
                    raise Und('parent update is not a push')
                raise Bad('a new element gets no parent entry', ctx.where(s.fn))
            if not any(canon(y.args[1]) is canon(i) for y in ps):
                raise Bad('a new element starts with parent %s instead of itself (%s)' % (show(ps[0].args[1]), show(i)), ctx.where(s.fn))
    return n


def run(ctx):
    def find_():
        names = setup(ctx)
        f = ctx.fn('Partition::find', public=True)
        s = ctx.summary(f, **all_inline(ctx))
        P, I, Ee = names.index('parent'), names.index('index'), names.index('elements')
        rets = s.returns()
        if not rets:
            raise Und('no return path')
        for p in rets:
            w = Walk(s, p, P, I, Ee)
            r = p.ret
            if r.op != 'idx' or not w.is_version(r.args[0], Ee):
                raise Und('result %s' % show(r))
            i = r.args[1]
            if opaque_in(i, phis=[x for x in subterms(i) if x.op == 'phi']):
                raise Und('result index %s' % show(i))
            k = w.root(i)
            if k is None:
                k = w.node(i)
                if k is None:
                    raise Und('index %s is not on the walk' % show(i))
                raise Bad('the result is the element at %s, which is on the walk but not known to be the root (no path fact that it is its own parent)' % show(i), ctx.where(f))
            if k.op != 'arg' or k.args[0] != 1:
                raise Bad('the root is that of %s, not of the queried element' % show(k), ctx.where(f))
        return '%d paths end at the fixpoint of the parent walk' % len(rets)
    ctx.ob('find returns the root element', find_)

    def create():
        names = setup(ctx)
        n = 0
        for fn in ('Partition::find', 'Partition::unite'):
            s = ctx.summary(ctx.fn(fn, public=True), **all_inline(ctx))
            n += check_creation(ctx, s, names, None, fn)
        if n == 0:
            raise Und('no creation path found')
        return '%d creation sites on paths' % n
    ctx.ob('a new element becomes its own singleton class', create)

    def lookups():
        names = setup(ctx)
        P, I, Ee = names.index('parent'), names.index('index'), names.index('elements')
        # a known element is never registered again
        for fn in ('Partition::find', 'Partition::unite'):
            f = ctx.fn(fn, public=True)
            s = ctx.summary(f, **all_inline(ctx))
            for p in s.paths:
                facts = p.facts()
                for e in p.evs('write'):
                    if e[1][0] == 'U' and len(e[2]) == 1 and e[2][0][1] == I:
                        x = p.norm(e[3])
                        if x.op == 'minsert':
                            k = x.args[1]
                            c = [(t, v) for t, v in facts if t.op == 'contains' and t.args[1] is k]
                            if any(v == 1 for t, v in c) and not any(v == 0 for t, v in c):
                                raise Bad('an element that is already present is registered again', ctx.where(f, e[4]))
                            if not any(v == 0 for t, v in c):
                                raise Bad('an element is registered without a test that it is absent', ctx.where(f, e[4]))
        return ''
    ctx.ob('a known element keeps its index', lookups)

    def finds_keep():
        names = setup(ctx)
        P, I, Ee = names.index('parent'), names.index('index'), names.index('elements')
        f = ctx.fn('Partition::find', public=True)
        s = ctx.summary(f, **all_inline(ctx))
        n = 0
        for p in s.paths:
            w = Walk(s, p, P, I, Ee)
            for i, v, sp in stores(p, P):
                n += 1
                a, b = w.node(i), w.node(v)
                if a is None or b is None:
                    raise Und('parent[%s] := %s' % (show(i), show(v)))
                if a is not b:
                    raise Bad('a query links %s to the tree of another element' % show(i), ctx.where(f, sp))
                check_comp(ctx, f, w, i, v, sp)
        return '%d compressing stores' % n
    ctx.ob('queries never merge classes', finds_keep)

    def unite_():
        names = setup(ctx)
        P, I, Ee = names.index('parent'), names.index('index'), names.index('elements')
        f = ctx.fn('Partition::unite', public=True)
        s = ctx.summary(f, **all_inline(ctx))
        rets = s.returns()
        if not rets:
            raise Und('no return path')
        n = 0
        for p in s.paths:
            w = Walk(s, p, P, I, Ee)
            links = []
            for i, v, sp in stores(p, P):
                ki, kv = w.root(i), w.root(v)
                if ki is not None and kv is not None and ki is not kv:
                    links.append((ki, kv, i, v, sp))
                    continue
                a, b = w.node(i), w.node(v)
                if a is None or b is None:
                    raise Und('parent[%s] := %s' % (show(i), show(v)))
                if a is not b:
                    raise Bad('parent[%s] := %s joins two trees, but not root to root' % (show(i), show(v)), ctx.where(f, sp))
                check_comp(ctx, f, w, i, v, sp)
            if p.kind != 'return':
                continue
            n += 1
            keys = []
            for ki, kv, i, v, sp in links:
                if {ki, kv} != {mk('arg', 1), mk('arg', 2)}:
                    raise Bad('unite links the roots of %s and %s' % (show(ki), show(kv)), ctx.where(f, sp))
            if len(links) > 1:
                raise Bad('two links on one path of unite: the roots become each other\'s parents', ctx.where(f, links[1][4]))
            if links:
                ki, kv, i, v, sp = links[0]
                # the roots must be known different, else a self-parent would be rewritten (harmless) - require nothing
                continue
            # no link: the roots must be known equal
            ok = False
            und = False
            for c, v in p.facts():
                if c.op == 'eq' and v == 1:
                    a, b = c.args[0], c.args[1]
                    ka, kb = w.root(a), w.root(b)
                    if ka is not None and kb is not None and ka is not kb:
                        ok = True
                    if a.op == 'arg' and b.op == 'arg':
                        ok = True
            if not ok:
                if any(opaque_in(c, phis=[x for x in subterms(c) if x.op == 'phi']) for c, v in p.facts()):
                    raise Und('unrecognised condition')
                raise Bad('a path of unite returns without linking the two roots although they may differ; conditions: ' +
                          '; '.join('%s=%s' % (show(c), v) for c, v in p.facts() if c.op in ('lt', 'eq'))[:300], ctx.where(f))
        return '%d return paths' % n
    ctx.ob('unite links the two roots or they are equal', unite_)

    def classes_():
        f = ctx.fn('Partition::classes', public=True)
        s = ctx.summary(f)
        rets = s.returns()
        if len(rets) != 1 or rets[0].ret.op != 'phi':
            raise Und('result is not the value of one loop')
        C = rets[0].ret
        key = C.args[0]
        backs = s.eng.backs.get(C, [])
        if C.args[3].op != 'agg' or len(C.args[3].args) != 2:
            raise Und('initial value')
        seen = set()
        calls = ('Partition::find',)
        for v, fs, st in backs:
            p = Path_(s, st)
            v = p.norm(v)
            ix = [x for x in subterms(v) if x.op == 'ix' and x.args[0] == key]
            ks = [(c, val) for c, val in p.facts() if c.op == 'contains']
            if v is C:
                if len(ks) >= 1 and opaque_in(ks[0][0], calls, [x for x in subterms(ks[0][0]) if x.op == 'phi']) is None:
                    raise Bad('an element is dropped: a path through the loop leaves the classes unchanged', ctx.where(f))
                raise Und('path leaves the result unchanged')
            if len(ks) != 1:
                raise Und('grouping is not by one map lookup')
            c, val = ks[0]
            M, k = c.args
            elem = [x for x in subterms(k) if x.op == 'idx' and x.args[0] is mk('arg', 1)]
            if k.op != 'call':
                why = opaque_in(k)
                if why is None:
                    raise Bad('elements are grouped by %s instead of by their representative' % show(k), ctx.where(f))
                raise Und('key %s' % show(k))
            if not k.args[0].endswith('find') or k.args[1] is not mk('arg', 0):
                raise Und('key %s' % show(k))
            x = k.args[2]
            if M.op != 'phi':
                raise Und('map %s' % show(M))
            M2 = p.norm(p.st_val(M))
            phis = (C, M)
            if val == 1:
                want = mk('store', C, mk('mget', M, k), mk('push', mk('idx', C, mk('mget', M, k)), x))
                expect(v, want, 'the class list after an element with a known representative', ctx.where(f), calls, phis)
                expect(M2, M, 'the class map after an element with a known representative', ctx.where(f), calls, phis)
                seen.add(1)
            else:
                want = mk('push', C, agg('array', None, x))
                expect(v, want, 'the class list after an element with a new representative', ctx.where(f), calls, phis)
                expect(M2, mk('minsert', M, k, mk('len', C)), 'the class map after an element with a new representative', ctx.where(f), calls, phis)
                seen.add(0)
            lim = [y for y in subterms(x) if y.op == 'ix']
            if x.op != 'idx' or x.args[0] is not mk('arg', 1) or not lim or canon(lim[0].args[1]) is not canon(t_len(mk('arg', 1))):
                if x.op == 'idx' and opaque_in(x) is None:
                    raise Bad('the loop visits %s, not every listed element' % show(x), ctx.where(f))
                raise Und('loop element %s' % show(x))
        if seen != {0, 1}:
            raise Und('cases %s' % seen)
        return 'both cases of the grouping step'
    ctx.ob('classes groups every element by its representative', classes_)


def Path_(s, st):
    from ..summary import Path
    p = Path(s, st)

    def st_val(ph):
        for v, fs, st2 in s.eng.backs.get(ph, ()):
            if st2 is st:
                return v
        return ph
    p.st_val = st_val
    return p


def check_comp(ctx, f, w, i, v, sp):
    """a store inside one tree must point to an ancestor of i, strictly towards the root, or to the root"""
    if w.root(v) is not None:
        return
    if w.step(v, i):
        return
    raise Bad('parent[%s] := %s points to a node that is not an ancestor' % (show(i), show(v)), ctx.where(f, sp))
