"""Shared rules about periodic graphs: query terms, iteration over all elements, seen-set loops."""
from .rules import *
from .matnf import mnorm, deep

P = ''
NC = dict(writes_cells=())          # graph queries depend only on the graph (decided by C01)
G = A(0)


def gc(name, *a):
    return mk('call', P + name, *a)


def V(g=G):
    return gc('Graph::vertices', g)


def INC(v, g=G):
    return gc('Graph::incidences', g, v)


def fullname(ctx, suffix):
    return ctx.fn(suffix, public=True)


def dummies(*ts):
    """loop values to plain atoms, the same for every term"""
    m = {}
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == 'phi' and x not in m:
                m[x] = mk('arg', 'w%d' % len(m))
    return [canon(resimp(subst(t, m))) for t in ts]


EXPAND = ('Graph::position_normalized', 'Graph::edge_vector', 'Graph::directed_edges', 'Edge::new', 'Graph::dim')
CTX = [None]


def expand(t):
    """replace derived queries by what they are in the current source"""
    ctx = CTX[0]
    if ctx is None:
        return t
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x.op == 'call' and x.args[0] in EXPAND:
                fs = [f for f in ctx.lib.fns if f.kind != 'Closure' and f.short == x.args[0]]
                if len(fs) != 1:
                    continue
                s = ctx.summary(fs[0], **NC)
                r = s.returns()
                if len(r) != 1 or len(s.paths) != 1:
                    continue
                y = r[0].ret
                if any(z.op == 'phi' for z in subterms(y)):
                    continue
                m[x] = subst(freshbv(y), {A(i): a for i, a in enumerate(x.args[1:])})
        if not m:
            return t
        t = canon(resimp(subst(t, m)))
    return t


_fresh = [100]


def freshbv(t):
    """rename bound variables apart"""
    bs = {x for x in subterms(t) if x.op == 'bv'}
    m = {}
    for b in bs:
        _fresh[0] += 1
        m[b] = mk('bv', _fresh[0])
    return subst(t, m, binders=True) if m else t


def gexpect(got, want, what, where=None, calls=(), facts=(), bind=None, known=()):
    """expect, but quiet when the form uses other queries or private fields than the definition does"""
    got, want = canon(got), canon(want)
    if got is want:
        return
    cw = calls_in(want) | set(calls)
    extra = calls_in(got) - cw
    if extra:
        got, want = expand(got), expand(want)
        if got is want:
            return
        cw = calls_in(want) | set(calls)
        extra = calls_in(got) - cw
    if extra:
        raise Und('%s: uses %s' % (what, ', '.join(sorted(x.rsplit('::', 2)[-1] for x in extra))))
    gf = lambda t: {x for x in subterms(t) if x.op == 'fld' and x.args[2] is G}
    if gf(got) - gf(want) - set(known):
        raise Und('%s: reads %s' % (what, show(first(gf(got) - gf(want)))))
    pg = {x for x in subterms(got) if x.op == 'phi'}
    pw = {x for x in subterms(want) if x.op == 'phi'}
    if pg - pw:
        raise Und('%s: not in closed form: %s' % (what, show(got)))
    a, b, *fs = dummies(got, want, *[t for t, _ in facts])
    expect(a, b, what, where, calls=tuple(cw), facts=[(t, v) for t, (_, v) in zip(fs, facts)], bind=bind)


def subst_ix(t, m):
    return canon(resimp(subst(t, m)))


def cphi(s, ph):
    """the loop value as it appears in normalised terms"""
    c = canon(s.norm(ph))
    return c if c.op == 'phi' and c.args[0] == ph.args[0] and c.args[1:3] == ph.args[1:3] else ph


def backs(s):
    """(path, loop key, {phi: new value}) for every way around a loop"""
    for p in s.backs():
        key = p.raw_ret
        ev = [e for e in p.events if e[0] == 'back' and e[1] == key]
        if not ev:
            continue
        e = ev[-1]
        new = {}
        for cp, ph in p.st.loops[key].items():
            if ph in s.inv:
                continue
            c = cphi(s, ph)
            new[c] = canon(p.norm(e[2][cp])) if cp in e[2] else c
        yield p, key, new


def phis(s):
    out = {}
    for p in s.paths:
        for e in p.events:
            if e[0] == 'loop':
                for cp, ph in e[2].items():
                    if isinstance(ph, T) and ph.op == 'phi' and ph not in s.inv:
                        out[cphi(s, ph)] = canon(p.norm(ph.args[3]))
    return out


def index_of(t, coll):
    """the index e with coll[e] in t; Und when there is none or several"""
    coll = canon(coll)
    es = {x.args[1] for x in subterms(t) if x.op == 'idx' and x.args[0] is coll}
    if len(es) != 1:
        raise Und('%d elements of %s used' % (len(es), show(coll)))
    return es.pop()


def over_all(e, coll, what, where):
    """the index e runs over the whole collection"""
    n = canon(t_len(canon(coll)))
    if e.op == 'ix':
        if canon(e.args[1]) is n:
            return e
        b = canon(e.args[1])
        off = canon(mk('sub', 'i', n, b))
        if off.op == 'int' and off.args[0] > 0:
            raise Bad('the last %s of the %s are left out' % (show(off), what), where)
        if b.op == 'min' and n in b.args and any(x.op == 'int' for x in b.args):
            raise Bad('at most %s of the %s are considered' % (show(first({x for x in b.args if x.op == 'int'})), what), where)
        gexpect(e.args[1], n, 'the number of ' + what, where, calls=calls_in(n))
        return e
    ixs = [x for x in subterms(e) if x.op == 'ix']
    if len(ixs) == 1:
        b = canon(ixs[0].args[1])
        # n - 1 - ix: reversed
        if canon(mk('add', 'i', e, ixs[0])) is canon(mk('sub', 'i', b, INT(1))) and b is n:
            return ixs[0]
        off = canon(mk('sub', 'i', e, ixs[0]))
        if off.op == 'int' and off.args[0] > 0 and canon(add(b, off)) is n:
            raise Bad('the first %s of the %s are skipped' % (show(off), what), where)
        if opaque_in(canon(e), tuple(calls_in(n))) is None and opaque_in(b, tuple(calls_in(n))) is None:
            raise Bad('only some of the %s are considered (number %s of %s)' % (what, show(e), show(b)), where)
    elif e.op == 'int':
        raise Bad('only one of the %s is considered (number %s)' % (what, show(e)), where)
    raise Und('%s: index %s' % (what, show(e)))


def parts(k):
    """the components of a compound key"""
    if k.op == 'push':
        return parts(k.args[0]) + [strip(k.args[1])]
    if k.op == 'agg' and k.args[0] in ('tuple', 'array') and k.args[0] == 'tuple':
        return [y for x in k.args[2:] for y in parts(x)]
    return [strip(k)]


WRAP = ('into_iter', 'iter', 'clone', 'to_vec')


def strip(t):
    """without conversions between collections"""
    if t.op == 'call' and len(t.args) == 2 and t.args[0].rsplit('::', 1)[-1] in WRAP and t.args[0].split('::')[0] in ('Point', 'Vector'):
        return strip(t.args[1])
    if t.op == 'collect':
        return strip(t.args[-1])
    if t.op in ('sorted', 'comp', 'dedup') or t.op == 'agg':
        m = {x: strip(x) for x in subterms(t) if x.op == 'call' and len(x.args) == 2 and x.args[0].rsplit('::', 1)[-1] in WRAP and x.args[0].split('::')[0] in ('Point', 'Vector')}
        return canon(subst(t, m)) if m else t
    return t


def distinct(ctx, f, s, want, dup, end, what, levels):
    """the function answers `dup` iff two elements share a key; want(e0, e1..) lists the key parts for the elements of the levels;
    levels: functions (previous indices) -> collection. Returns detail."""
    w = ctx.where(f)
    # closed form: number of different keys against number of elements
    ph = phis(s)
    sets = [x for x, i in ph.items() if i.op == 'emptyset']
    outer = {x for x in sets}
    inner = [x for x, i in ph.items() if i in outer]
    tested = set()
    for p in s.paths:
        for t, v in p.facts():
            if t.op == 'contains' and (t.args[0] in sets or t.args[0] in inner or t.args[0].op == 'emptyset'):
                tested.add(t)
    if not tested:
        for p in s.returns():
            if not ph and p.ret.op == 'int' and not p.facts():
                raise Bad('always answers %s' % show(p.ret), w)
        raise Und('no test against the elements seen so far')
    if len({t.args[0] for t in tested}) != 1:
        raise Und('several sets of seen elements')
    S = first(tested).args[0]
    if S.op == 'emptyset':
        raise Bad('every element is compared with an empty set', w)
    keys = {t.args[1] for t in tested}
    if len(keys) != 1:
        raise Und('several keys are tested')
    K = keys.pop()
    # key parts
    es = []
    for lv in levels:
        coll = lv(*[E.getidx(c, e) for c, e in es])
        e = index_of(K, coll)
        over_all(e, coll, what[len(es)], w)
        es.append((canon(coll), e))
    wp = [canon(x) for x in want(*[E.getidx(c, e) for c, e in es])]
    kp = parts(K)
    match(kp, wp, w)
    # the set starts empty for each element of the outer levels
    if len(levels) == 1:
        if S in inner:
            raise Und('nested sets')
    else:
        if S in inner:
            raise Bad('the set of seen elements is shared between all %s' % what[0], w)
    k0 = S.args[0]
    n = 0
    for p, key, new in backs(s):
        ns = new.get(S)
        if ns is None or key != k0:
            continue
        hit = has(p, mk('contains', S, K), 1)
        if hit:
            raise Bad('an element with a key seen before is passed over', w)
        if ns is S:
            raise Bad('an element is not remembered', w)
        if ns.op != 'sinsert' or ns.args[0] is not S:
            raise Und('seen set becomes %s' % show(ns))
        if ns.args[1] is not K:
            try:
                match(parts(ns.args[1]), kp, w)
            except Bad as e:
                raise Bad('the remembered key is not the tested one: %s' % e, w)
        n += 1
    if not n:
        raise Und('no element is remembered')
    r = 0
    for p in s.returns():
        if has(p, mk('contains', S, K), 1):
            if p.ret is not INT(dup):
                raise Bad('answers %s when two elements share a key' % show(p.ret), w)
            r += 1
        elif not any(t.op == 'contains' for t, v in p.facts()):
            if p.ret is INT(1 - end):
                raise Bad('answers %s when all keys differ' % show(p.ret), w)
            if p.ret is not INT(end):
                raise Und('answer %s' % show(p.ret))
            r += 1
    if r < 2:
        raise Und('%d answers' % r)
    return 'key: %s' % '; '.join(show(x) for x in kp)


def match(kp, wp, w):
    """key parts are exactly the wanted ones"""
    left = list(wp)
    odd = []
    for k in kp:
        if k in left:
            left.remove(k)
        else:
            odd.append(k)
    if not left and not odd:
        return
    if len(left) == len(odd) == 1:
        gexpect(odd[0], left[0], 'the key compared', w, calls=('Edge::canonical',))
        return
    cw = set().union(*[calls_in(x) for x in wp])
    if left and not odd:
        raise Bad('the key compared lacks %s' % show(left[0]), w)
    if all(calls_in(x) <= cw and opaque_in(x, tuple(cw)) is None for x in odd) and not left:
        raise Und('additional key part %s' % show(odd[0]))
    raise Und('key parts %s' % '; '.join(show(x) for x in kp))


def updates(new, base):
    """[(index tuple, increment)] turning base into new, Und when it is not a chain of entry updates"""
    if new is base:
        return []
    if new.op != 'store':
        raise Und('update %s' % show(new))
    F, e, x = new.args
    cur = canon(E.getidx(F, e))
    out = updates(F, base)
    if x.op == 'store':
        try:
            return out + [((e,) + ix, d) for ix, d in updates(x, cur)]
        except Und:
            pass
    return out + [((e,), canon(mk('sub', 'i', x, cur)))]


def uncovered(cs):
    """a consistent truth assignment of the conditions under which none of the conjunctions holds"""
    import itertools
    atoms = list(dict.fromkeys(t for c in cs for t, v in c))
    if len(atoms) > 8 or any(v not in (0, 1) for c in cs for t, v in c):
        return None
    for vs in itertools.product((0, 1), repeat=len(atoms)):
        a = dict(zip(atoms, vs))
        if any(all(a[t] == v for t, v in c) for c in cs):
            continue
        if consistent(a):
            return list(a.items())
    return None


def consistent(a):
    sign, order = {}, {}
    for t, v in a.items():
        if t.op == 'call' and t.args[0].startswith('LabelVector::is_'):
            k = t.args[0][16:]
            x = t.args[1]
            y = canon(neg(x))
            if y in sign:
                x, k = y, {'negative': 'positive', 'positive': 'negative'}.get(k, k)
            if k not in ('negative', 'zero', 'positive'):
                return False
            ok = sign.setdefault(x, {'negative', 'zero', 'positive'})
            ok &= {k} if v else {'negative', 'zero', 'positive'} - {k}
            if not ok:
                return False
        elif t.op in ('eq', 'lt', 'le', 'gt', 'ge'):
            x, y = t.args[-2:]
            o = {'eq': {0}, 'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}}[t.op]
            if (y, x) in order:
                x, y, o = y, x, {-z for z in o}
            ok = order.setdefault((x, y), {-1, 0, 1})
            ok &= o if v else {-1, 0, 1} - o
            if not ok:
                return False
        else:
            return False        # not understood
    return True


def unions(s):
    """(path, loop key, partition, a, b) for every pair united"""
    out = []
    for p, key, new in backs(s):
        for m, x in new.items():
            y = x
            while y.op == 'upd' and y.args[0] == 'Partition::unite' and y.args[1] == 0:
                out.append((p, key, m, canon(y.args[3]), canon(y.args[4])))
                y = y.args[2]
            if y is not x and y is not m:
                raise Und('partition %s' % show(x))
    return out


def skipped(s, us, where, what, harmless=()):
    """no way around a loop that unites may leave the pair out, except when it is already united or equal"""
    keys = {(k, m) for p, k, m, a, b in us}
    for key, m in keys:
        a, b = next((a, b) for p, k, mm, a, b in us if k == key and mm is m)
        cs, idle = [], []
        for p, k, new in backs(s):
            if k != key:
                continue
            if new.get(m) is m:
                idle.append(p)
        for p in idle:
            ok = False
            seen_u = False
            fs = own_facts(p, key)
            for t, v in fs:
                if v == 1 and t.op == 'eq':
                    x, y = t.args[-2:]
                    if {x, y} == {a, b}:
                        ok = True
                    f1 = [z for z in (x, y) if z.op == 'call' and z.args[0] == 'Partition::find']
                    if len(f1) == 2 and {f1[0].args[2], f1[1].args[2]} == {a, b}:
                        ok = True
                if t in harmless:
                    ok = True
            if ok:
                continue
            extra = [(t, v) for t, v in fs if not t.op == 'contains' or v == 0]
            if extra:
                raise Bad('%s not united when %s' % (what, '; '.join('%s = %s' % (show(t), v) for t, v in extra[-2:])), where)
            raise Und('%s not united on some way' % what)


def own_facts(p, key):
    """facts of the path about the element of the loop"""
    return [(t, v) for t, v in p.facts() if contains(t, lambda z: z.op == 'ix' and z.args[0] == key)]
