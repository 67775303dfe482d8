"""Semantics of the library functions the analysed code calls (the abstract transformers)."""
from .terms import *

NOMODEL = object()
M = {}


def reg(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def model(eng, st, info, k):
    h = M.get(info.name)
    if h is None:
        return NOMODEL
    return h(eng, st, info, k)


# ------------------------------------------------------------------ helpers

def val(eng, st, a):
    """current value behind a (deref of &mut)"""
    if a.op == 'mref':
        return eng.read_cell(st, a.args[0], a.args[1])
    return a


def put(eng, st, m, x, sp=None):
    if m.op == 'mref':
        st.ev('write', m.args[0], m.args[1], x, sp or eng._sp)
        eng.write_cell(st, m.args[0], m.args[1], x)
        return True
    st.ev('lostwrite', m, x)
    return False


def E():
    from . import engine
    return engine


def t_len(v):
    e = E()
    o = v.op
    if o == 'agg' and v.args[0] == 'array':
        return INT(len(v.args) - 2)
    if o == 'agg' and v.args[0] in ('setlit', 'maplit') and len(v.args) <= 3:
        return INT(len(v.args) - 2)
    if o == 'push':
        return e.t_arith('add', 'i', t_len(v.args[0]), INT(1))
    if o in ('emptyvec', 'emptyset', 'emptymap'):
        return INT(0)
    if o == 'comp' and v.args[0] == 'map':
        return v.args[1]
    if o == 'range':
        return e.t_arith('sub', 'i', v.args[1], v.args[0])
    if o in ('store', 'storep', 'stores'):
        return t_len(v.args[0])
    if o in ('sorted', 'irev', 'iorder', 'deque'):
        return t_len(v.args[0])
    if o in ('imap',):
        return t_len(v.args[0])
    if o == 'ienum':
        return t_len(v.args[0])
    if o == 'izip':
        a, b = t_len(v.args[0]), t_len(v.args[1])
        return a if a is b else mk('min', a, b)
    if o == 'from_elem':
        return v.args[1]
    if o == 'repeat' and isinstance(v.args[1], int):
        return INT(v.args[1])
    if o == 'islice':
        lo, hi = v.args[1], v.args[2]
        if hi is None:
            hi = t_len(v.args[0])
        return e.t_arith('sub', 'i', hi, lo)
    if o == 'mkeys' or o == 'mvalues':
        return t_len(v.args[0])
    if o == 'str' and v.args[0].isascii():
        return INT(len(v.args[0]))
    if o == 'ite':
        a, b = t_len(v.args[1]), t_len(v.args[2])
        if a is b:
            return a
    return mk('len', v)


ITEROPS = {'imap', 'ifilter', 'ifilter_map', 'iflat_map', 'ienum', 'izip', 'ichain', 'itake_while', 'iskip_while'}


def is_lazy(t):
    if t.op in ITEROPS:
        return True
    if t.op in ('islice', 'irev', 'sorted'):
        return is_lazy(t.args[0])
    return False


def at(src, i):
    """element i of a non-lazy source"""
    if src.op == 'mref':
        return mk('mref', src.args[0], src.args[1] + (('i', i),))
    if src.op == 'islice' and src.args[0].op == 'mref':
        return at(src.args[0], E().t_arith('add', 'i', src.args[1], i))
    if src.op == 'irev' and src.args[0].op == 'mref':
        raise E().Undecided('reversed mutable iteration')
    return E().getidx(src, i)


# ------------------------------------------------------------------ pulling elements in a loop

def pull(eng, st, it, key, k, nested=0):
    """one step of iterating `it` in the loop `key`: k(st, SOME(x)) / k(st, NONE)"""
    def item(st, it, kk, key):
        """enumerate possible items; kk(st, value, index) -> list"""
        o = it.op
        if o == 'phi' and iter_cell(eng, st, it.args[1]):
            return item(st, iter_source(eng, st, it), kk, key)
        if o == 'imap':
            return item(st, it.args[0], lambda s, v, i: eng.invoke_value(s, it.args[1], [v], lambda s2, r: kk(s2, r, i)), key)
        if o == 'ifilter':
            def test(s, v, i):
                def after(s2, r):
                    return eng.alts(s2, [([(r, 1)], lambda s3: kk(s3, v, None)),
                                         ([(r, 0)], lambda s3: skip(s3))])
                return eng.invoke_value(s, it.args[1], [v], after)
            return item(st, it.args[0], test, key)
        if o == 'ifilter_map':
            def test2(s, v, i):
                return eng.invoke_value(s, it.args[1], [v], lambda s2, r: split_opt(
                    eng, s2, r, lambda s3, x: kk(s3, x, None), lambda s3: skip(s3)))
            return item(st, it.args[0], test2, key)
        if o == 'itake_while':
            def test3(s, v, i):
                return eng.invoke_value(s, it.args[1], [v], lambda s2, r: eng.alts(s2, [
                    ([(r, 1)], lambda s3: kk(s3, v, None)), ([(r, 0)], lambda s3: k(s3, NONE))]))
            return item(st, it.args[0], test3, key)
        if o == 'iflat_map':
            return item(st, it.args[0], lambda s, v, i: eng.invoke_value(
                s, it.args[1], [v], lambda s2, r: item(s2, iter_of(r), lambda s3, v3, i3: kk(s3, v3, None), key + ('f',))), key)
        if o == 'ienum':
            return item(st, it.args[0], lambda s, v, i: kk(s, tup(i if i is not None else mk('enumix', key), v), i), key)
        if o == 'izip':
            a, b = it.args
            if not is_lazy(a) and not is_lazy(b):
                def vlen(x):
                    if x.op == 'mref':
                        return t_len(eng.read_cell(st, x.args[0], x.args[1]))
                    return t_len(x)
                I = mk('ix', key, vlen(a))
                bound(st, I)
                return kk(st, tup(at(a, I), at(b, I)), I)
            return item(st, a, lambda s, v, i: item(s, b, lambda s2, v2, i2: kk(s2, tup(v, v2), i), key), key)
        if o == 'ichain':
            out = []
            for j, x in enumerate(it.args):
                s2 = st.copy() if j < len(it.args) - 1 else st
                out.extend(item(s2, x, kk, key + ('c%d' % j,)))
            return out
        if o in ('irev', 'sorted') and is_lazy(it.args[0]):
            return item(st, it.args[0], lambda s, v, i: kk(s, v, None), key)
        if o == 'agg' and it.args[0] in ('array', 'setlit', 'maplit') and 0 < len(it.args) - 2 <= 6:
            out = []
            n = len(it.args) - 2
            for j in range(n):
                s2 = st.copy() if j < n - 1 else st
                out.extend(kk(s2, it.args[2 + j], INT(j)))
            return out
        if o in ('emptyvec', 'emptyset', 'emptymap') or o == 'agg' and it.args[0] == 'array' and len(it.args) == 2:
            return []
        if o == 'agg' and it.args[0] == OPT:
            return kk(st, it.args[2], INT(0)) if it.args[1] == 1 else []
        if o == 'push' and False:
            pass
        if o == 'comp':
            I = mk('ix', key, it.args[1])
            bound(st, I)
            out = []
            cases = it.args[3]
            for j, (fs, v) in enumerate(cases):
                m = {it.args[2]: I}
                s2 = st.copy() if j < len(cases) - 1 else st
                if all(assume_(s2, resimp(subst(t, m)), b) for t, b in fs):
                    v2 = resimp(subst(v, m))
                    if it.args[0] == 'flat':
                        out.extend(item(s2, iter_of(v2), lambda s3, v3, i3: kk(s3, v3, None), key + ('f',)))
                    else:
                        out.extend(kk(s2, v2, I if len(cases) == 1 and not fs else None))
            return out
        if o == 'ite':
            s2 = st.copy()
            out = []
            if assume_(s2, it.args[0], 1):
                out.extend(item(s2, it.args[1], kk, key))
            if assume_(st, it.args[0], 0):
                out.extend(item(st, it.args[2], kk, key))
            return out
        if o == 'mref':
            # iter_mut
            cell, path = it.args
            v = eng.read_cell(st, cell, path)
            I = mk('ix', key, t_len(v))
            bound(st, I)
            return kk(st, mk('mref', cell, path + (('i', I),)), I)
        if o == 'islice' and it.args[0].op == 'mref':
            cell, path = it.args[0].args
            I = mk('ix', key, t_len(it))
            bound(st, I)
            return kk(st, mk('mref', cell, path + (('i', E().t_arith('add', 'i', it.args[1], I)),)), I)
        if is_lazy(it):
            # part of a lazy source: an unknown element of it
            return item(st, it.args[0], lambda s, v, i: kk(s, mk('elem', v), None), key)
        if o == 'mentries':
            I = mk('ix', key, t_len(it.args[0]))
            bound(st, I)
            ky = at(mk('mkeys', it.args[0]), I)
            return kk(st, tup(ky, E().getkey(it.args[0], ky)), I)
        if o == 'mentries_mut':
            m = it.args[0]
            v = val(eng, st, m)
            I = mk('ix', key, t_len(v))
            bound(st, I)
            ky = at(mk('mkeys', v), I)
            return kk(st, tup(ky, mk('mref', m.args[0], m.args[1] + (('k', ky),))), I)
        I = mk('ix', key, t_len(it))
        bound(st, I)
        return kk(st, at(it, I), I)

    def skip(s):
        # nothing changed by this element: the iteration goes round again
        s.ev('skip', key)
        if key in s.loops:
            eng.back(s, key)
        return []
    s2 = st.copy()
    out = item(s2, it, lambda s, v, i: k(s, SOME(v)), key)
    n = None if is_lazy(it) else t_len(it)
    if not (n is not None and n.op == 'int' and n.args[0] > 0 and key not in st.loops and False):
        st.ev('exhausted', key, it)
        out = out + k(st, NONE)
    return out


def assume_(st, t, v):
    return E().assume(st, t, v)


def bound(st, I):
    n = I.args[1]
    st.facts.setdefault(E().t_lt(I, n), 1)
    st.facts.setdefault(E().t_lt(I, INT(0)), 0)
    st.facts.setdefault(E().t_eq(n, INT(0)), 0)
    if n.op == 'sub' and n.args[2].op != 'int':
        pass


def iter_cell(eng, st, cell):
    """does this local hold an iterator (rather than a collection)?"""
    if cell[0] != 'L':
        return False
    for fr in st.frames:
        if fr.fid == cell[1]:
            try:
                t = eng.crate.types[fr.fn.locals[cell[2]]['ty']]
            except Exception:
                return False
            return 'Iter' in t or 'iter::' in t or 'ops::Range' in t or 'Chars' in t or 'Drain' in t or 'Split' in t or 'Enumerate' in t
    return False


def iter_source(eng, st, ph):
    """the source a loop-carried iterator ranges over (its value on entry)"""
    x = ph
    n = 0
    while x.op == 'phi' and n < 6 and iter_cell(eng, st, x.args[1]):
        x = x.args[3]
        n += 1
    return None if x is ph else x


def iter_of(v):
    return v


def split_opt(eng, st, v, some, none):
    """fork on an Option value"""
    e = E()
    if v.op == 'agg' and v.args[0] == OPT:
        return some(st, v.args[2]) if v.args[1] == 1 else none(st)
    if v.op == 'ite':
        s2 = st.copy()
        out = []
        if e.assume(s2, v.args[0], 1):
            out += split_opt(eng, s2, v.args[1], some, none)
        if e.assume(st, v.args[0], 0):
            out += split_opt(eng, st, v.args[2], some, none)
        return out
    d = eng.discr(st, v)
    return eng.alts(st, [([(d, 1)], lambda s: some(s, e.getfield(v, 0, 1))),
                         ([(d, 0)], lambda s: none(s))])


def split_res(eng, st, v, ok, err):
    e = E()
    if v.op == 'agg' and v.args[0] == RES:
        return ok(st, v.args[2]) if v.args[1] == 0 else err(st, v.args[2])
    d = eng.discr(st, v)
    return eng.alts(st, [([(d, 0)], lambda s: ok(s, e.getfield(v, 0, 0))),
                         ([(d, 1)], lambda s: err(s, e.getfield(v, 0, 1)))])


# ------------------------------------------------------------------ closures as pure functions

def eval_cases(eng, st, f, args, strict=True):
    """paths of calling closure f: [(facts, value)] ; None when it has effects or cannot be followed"""
    s0 = st.copy()
    n0 = len(s0.rel)
    res = []
    saved, eng._finished = eng._finished, []
    heap0 = {c: v for c, v in s0.heap.items()}
    depth = len(s0.frames)

    def kk(s, v):
        res.append((tuple(s.rel[n0:]), v, s))
        return []
    try:
        work = list(eng.invoke_value(s0, f, args, kk))
        n = 0
        while work:
            n += 1
            if n > 4000 or len(res) > 64:
                return None
            x = work.pop()
            work.extend(eng.step(x))
        fin = eng._finished
    finally:
        eng._finished = saved
    for s in fin:
        if s.kind in ('panic', 'back'):
            eng._finished.append(s)
    hidden = any(s.kind == 'back' for s in fin)
    for fs, v, s in res:
        for c, x in s.heap.items():
            if c[0] == 'L' and len(c[1]) > len(s.frames[-1].fid):
                continue
            if heap0.get(c) is not x and not (c[0] == 'U' and c not in heap0):
                return None
        if s.epoch != st.epoch:
            return None
    if not res:
        return None
    return [(fs, v) for fs, v, s in res], hidden


def as_comp(eng, st, it):
    """turn an iterator/collection into comp(kind, len, I, cases), or return it unchanged"""
    if not is_lazy(it):
        return it
    r = comp_cases(eng, st, it)
    return r if r is not None else it


def comp_cases(eng, st, it):
    o = it.op
    if o == 'ichain':
        ps = [as_comp(eng, st, x) for x in it.args]
        return None if ps == list(it.args) else mk('ichain', *ps)
    if o == 'imap' or o == 'ifilter' or o == 'ifilter_map' or o == 'iflat_map':
        base = it.args[0]
        if base.op == 'ichain':
            ps = [as_comp(eng, st, mk(o, x, *it.args[1:])) for x in base.args]
            return None if any(is_lazy(x) and x.op != 'ichain' for x in ps) else mk('ichain', *ps)
        if is_lazy(base):
            base = comp_cases(eng, st, base)
            if base is None or is_lazy(base):
                return None
        if base.op == 'comp' and base.args[0] == 'flat':
            out = []
            eng._bv += 1
            try:
                for fs, coll in base.args[3]:
                    s2 = st.copy()
                    if not all(assume_(s2, t, b) for t, b in fs):
                        continue
                    inner = comp_cases(eng, s2, mk(o, coll, *it.args[1:]))
                    if inner is None:
                        return None
                    out.append((fs, inner))
            finally:
                eng._bv -= 1
            return mk('comp', 'flat', base.args[1], base.args[2], tuple(out))
        eng._bv += 1
        try:
            if base.op == 'comp':
                n, I, cases = base.args[1], base.args[2], base.args[3]
            else:
                if base.op == 'mref':
                    return None
                n = t_len(base)
                I = mk('bv', eng._bv)
                cases = (((), at_any(base, I)),)
            out = []
            kind = base.args[0] if base.op == 'comp' else 'map'
            for fs, v in cases:
                s2 = st.copy()
                if not all(assume_(s2, t, b) for t, b in fs):
                    continue
                r = eval_cases(eng, s2, it.args[1], [v])
                if r is None:
                    return None
                rs, hidden = r
                for fs2, r2 in rs:
                    if o == 'imap':
                        out.append((fs + fs2, r2))
                    elif o == 'iflat_map':
                        out.append((fs + fs2, as_comp(eng, s2, iter_of(r2))))
                        kind = 'flat'
                    elif o == 'ifilter':
                        kind = 'filter'
                        if r2 is TRUE:
                            out.append((fs + fs2, v))
                        elif r2 is not FALSE:
                            c, b = E().canon_bool(r2, 1)
                            kn = dict(fs2).get(c)
                            if kn is None or kn == b:
                                out.append((fs + fs2 + ((c, b),), v))
                    elif o == 'ifilter_map':
                        kind = 'filter'
                        if r2.op == 'agg' and r2.args[0] == OPT:
                            if r2.args[1] == 1:
                                out.append((fs + fs2, r2.args[2]))
                        else:
                            out.append((fs + fs2 + ((eng.discr(s2, r2), 1),), E().getfield(r2, 0, 1)))
            if kind == 'map' and len(out) > 1:
                # a plain map with several cases
                c = merge_cases(out)
                if c is not None:
                    out = [((), c)]
            return mk('comp', kind, n, I, tuple(out))
        finally:
            eng._bv -= 1
    if o in ('ienum', 'izip', 'islice', 'irev', 'iskip_while', 'itake_while') and any(isinstance(x, T) and x.op == 'mref' for x in it.args):
        return None
    if o == 'ienum':
        base = it.args[0]
        if is_lazy(base):
            base = comp_cases(eng, st, base)
            if base is None or base.op != 'comp' or base.args[0] != 'map':
                return None
            return mk('comp', 'map', base.args[1], base.args[2],
                      tuple((fs, tup(base.args[2], v)) for fs, v in base.args[3]))
        I = mk('bv', eng._bv + 1)
        return mk('comp', 'map', t_len(base), I, (((), tup(I, at_any(base, I))),))
    if o == 'izip':
        a, b = it.args
        if is_lazy(a):
            a = comp_cases(eng, st, a)
        if is_lazy(b):
            b = comp_cases(eng, st, b)
        if a is None or b is None:
            return None
        I = mk('bv', eng._bv + 1)
        return mk('comp', 'map', t_len(mk('izip', a, b)), I, (((), tup(at_any(a, I), at_any(b, I))),))
    if o == 'islice' and it.args[2] is not None:
        base = comp_cases(eng, st, it.args[0])
        if base is not None and base.op == 'comp' and base.args[0] == 'map' and len(base.args[3]) == 1:
            I = base.args[2]
            return mk('comp', 'map', t_len(it), I, tuple(
                (fs, resimp(subst(v, {I: E().t_arith('add', 'i', it.args[1], I)}))) for fs, v in base.args[3]))
    return None


def merge_cases(out):
    """[(facts, v)] partition on one boolean/discriminant -> ite chain"""
    if len(out) == 1:
        return out[0][1] if not out[0][0] else None
    # find a fact whose term appears in all cases at the same position
    firsts = [fs[0] if fs else None for fs, v in out]
    if None in firsts:
        return None
    t0 = firsts[0][0]
    if any(f[0] is not t0 for f in firsts):
        return None
    groups = {}
    for fs, v in out:
        groups.setdefault(fs[0][1], []).append((fs[1:], v))
    if set(groups) != {0, 1}:
        return None
    a = merge_cases(groups[1])
    b = merge_cases(groups[0])
    if a is None or b is None:
        return None
    if a is b:
        return a
    return mk('ite', t0, a, b)


def at_any(src, I):
    if src.op == 'mentries':
        ky = at(mk('mkeys', src.args[0]), I)
        return tup(ky, E().getkey(src.args[0], ky))
    return at(src, I)


def resimp(t):
    """re-apply the smart constructors bottom up"""
    e = E()
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        a = tuple(go(y) for y in x.args)
        o = x.op
        if o in ('add', 'sub', 'mul', 'div', 'rem'):
            r = e.t_arith(o, a[0], a[1], a[2])
        elif o == 'neg':
            r = e.t_arith('neg', a[0], a[1])
        elif o == 'idx':
            r = e.getidx(*a)
        elif o == 'mget':
            r = e.getkey(*a)
        elif o == 'fld':
            r = e.getfield(a[2], a[0], a[1])
        elif o == 'eq':
            r = e.t_eq(*a)
        elif o == 'lt':
            r = e.t_lt(*a)
        elif o == 'not':
            r = e.t_not(*a)
        elif o == 'len':
            r = t_len(*a)
        elif o == 'contains':
            r = e.has_key(*a)
        elif o == 'ite':
            r = t_ite(*a)
        else:
            r = x if a == x.args else mk(o, *a, ty=x.ty)
        memo[x.id] = r
        return r
    return go(t)


def t_ite(c, a, b):
    if c.op == 'int':
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return t_ite(c.args[0], b, a)
    return mk('ite', c, a, b)


# ------------------------------------------------------------------ identities

def ident(eng, st, info, k):
    a = info.args[0]
    return k(st, a)


def ident_val(eng, st, info, k):
    return k(st, val(eng, st, info.args[0]))


for n in ('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'Iterator::cloned', 'Iterator::copied',
          'Option::cloned', 'Option::copied', 'str::to_string', 'ToString::to_string', 'str::to_owned',
          'Vec::into_boxed_slice', 'Rc::clone', 'slice::to_owned', 'String::from', 'Vec::as_slice', 'String::as_str',
          'slice::iter', 'Vec::iter', 'Iterator::by_ref', 'BTreeSet::iter', 'HashSet::iter', 'VecDeque::iter',
          'HashSet::into_iter', 'String::clone', 'Iterator::peekable', 'Iterator::fuse', 'str::as_bytes',
          'Vec::into_iter', 'hint::must_use', 'num_traits::identities', 'Vec::into_vec', 'slice::into_vec',
          'hint::black_box', 'convert::identity', 'AsRef::as_ref', 'Borrow::borrow', 'Option::as_ref',
          'Option::as_deref', 'String::as_bytes', 'slice::copied', 'iter::zip_', 'Cow::into_owned'):
    M[n] = ident_val


@reg('Iterator::by_ref', 'Deref::deref', 'DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut',
     'Vec::as_mut_slice', 'slice::iter_mut', 'Vec::iter_mut', 'VecDeque::iter_mut')
def m_same(eng, st, info, k):
    a = info.args[0]
    if info.name in ('Deref::deref',):
        a = val(eng, st, a)
    return k(st, a)


@reg('IntoIterator::into_iter')
def m_into_iter(eng, st, info, k):
    a = info.args[0]
    ty = info.argty[0] or ''
    t = ty.lstrip('&').replace('mut ', '')
    if a.op == 'mref':
        if 'Map<' in t.split('<')[0] + '<':
            return k(st, mk('mentries_mut', a))
        if ty.startswith('&mut') or not ('Iter' in t or 'iter::' in t or 'Range' in t):
            return k(st, a)
        return k(st, a)
    if t.startswith('std::collections::HashMap<') or t.startswith('std::collections::BTreeMap<'):
        return k(st, mk('mentries', a))
    return k(st, norm_range(a))


def norm_range(a):
    if a.op == 'agg' and isinstance(a.args[0], str):
        if a.args[0] == 'std::ops::Range':
            return mk('range', a.args[2], a.args[3])
        if a.args[0] == 'std::ops::RangeFrom':
            return mk('range', a.args[2], mk('infinity'))
    return a


@reg('RangeInclusive::new')
def m_rincl(eng, st, info, k):
    a, b = info.args
    return k(st, mk('range', a, E().t_arith('add', 'i', b, INT(1))))


@reg('HashMap::iter', 'BTreeMap::iter', 'HashMap::into_iter', 'BTreeMap::into_iter', 'HashMap::drain')
def m_miter(eng, st, info, k):
    return k(st, mk('mentries', val(eng, st, info.args[0])))


@reg('HashMap::iter_mut', 'BTreeMap::iter_mut')
def m_miterm(eng, st, info, k):
    return k(st, mk('mentries_mut', info.args[0]))


@reg('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys', 'BTreeMap::into_keys')
def m_keys(eng, st, info, k):
    return k(st, mk('mkeys', val(eng, st, info.args[0])))


@reg('HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'BTreeMap::into_values')
def m_values(eng, st, info, k):
    return k(st, mk('mvalues', val(eng, st, info.args[0])))


# ------------------------------------------------------------------ iterator adapters

def adapter(op):
    def h(eng, st, info, k):
        return k(st, mk(op, norm_range(info.args[0]), info.args[1]))
    return h


M['Iterator::map'] = adapter('imap')
M['Iterator::filter'] = adapter('ifilter')
M['Iterator::filter_map'] = adapter('ifilter_map')
M['Iterator::flat_map'] = adapter('iflat_map')
M['Iterator::take_while'] = adapter('itake_while')
M['Iterator::map_while'] = adapter('ifilter_map')
M['Option::into_iter'] = ident_val


@reg('Iterator::zip', 'iter::zip')
def m_zip(eng, st, info, k):
    return k(st, mk('izip', norm_range(info.args[0]), norm_range(map_entries(info, 1))))


def map_entries(info, i):
    a = info.args[i]
    ty = (info.argty[i] or '').lstrip('&')
    if ty.startswith('std::collections::HashMap<') or ty.startswith('std::collections::BTreeMap<'):
        return mk('mentries', a)
    return a


@reg('Iterator::chain')
def m_chain(eng, st, info, k):
    return k(st, mk('ichain', norm_range(info.args[0]), norm_range(map_entries(info, 1))))


@reg('Iterator::enumerate')
def m_enum(eng, st, info, k):
    return k(st, mk('ienum', norm_range(info.args[0])))


@reg('Iterator::rev')
def m_rev(eng, st, info, k):
    a = norm_range(info.args[0])
    return k(st, mk('irev', a))


def part(it, lo, hi):
    """the items lo..hi (hi None: to the end) of an iterator"""
    o = it.op
    add = lambda a, b: E().t_arith('add', 'i', a, b)
    if o == 'range' and hi is None:
        return mk('range', add(it.args[0], lo), it.args[1])
    if o == 'imap':
        return mk('imap', part(it.args[0], lo, hi), *it.args[1:])
    if o == 'izip':
        return mk('izip', *[part(x, lo, hi) for x in it.args])
    if o == 'ienum':
        b = part(it.args[0], lo, hi)
        if not is_lazy(b) and b.op != 'mref' and not (b.op == 'islice' and b.args[0].op == 'mref'):
            return mk('izip', mk('range', lo, add(lo, t_len(b))), b)
        return mk('islice', it, lo, hi)
    if o == 'islice' and it.args[2] is None and hi is None:
        return mk('islice', it.args[0], add(it.args[1], lo), None)
    if hi is not None and not is_lazy(it):
        hi = mk('min', hi, t_len(it))
    return mk('islice', it, lo, hi)


@reg('Iterator::skip')
def m_skip(eng, st, info, k):
    a = norm_range(info.args[0])
    return k(st, part(a, info.args[1], None))


@reg('Iterator::take')
def m_take(eng, st, info, k):
    a = norm_range(info.args[0])
    if a.op == 'irepeat':
        return k(st, mk('from_elem', a.args[0], info.args[1]))
    return k(st, part(a, INT(0), info.args[1]))


@reg('iter::repeat')
def m_repeat(eng, st, info, k):
    return k(st, mk('irepeat', info.args[0]))


@reg('iter::repeat_n')
def m_repeat_n(eng, st, info, k):
    return k(st, mk('from_elem', info.args[0], info.args[1]))


@reg('iter::once')
def m_once(eng, st, info, k):
    return k(st, agg('array', None, info.args[0]))


@reg('iter::empty')
def m_iempty(eng, st, info, k):
    return k(st, agg('array', None))


@reg('Itertools::sorted', 'Itertools::sorted_unstable')
def m_sorted(eng, st, info, k):
    return k(st, mk('sorted', as_comp(eng, st, norm_range(info.args[0]))))


@reg('Itertools::unique', 'Itertools::dedup')
def m_unique(eng, st, info, k):
    a = as_comp(eng, st, norm_range(val(eng, st, info.args[0])))
    t = mk('call', info.name, a, ty=info.destty)
    st.ev('call', info.name, (a,), t, info.rid, info.sp, (a,), st.frames[-1].fn.id)
    return k(st, t)


@reg('Iterator::collect', 'FromIterator::from_iter', 'Itertools::collect_vec', 'From::from', 'Into::into')
def m_collect(eng, st, info, k):
    ty = info.destty or ''
    if info.name in ('From::from', 'Into::into'):
        ty0 = ty.split('<')[0]
        if not any(x in ty0 for x in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap', 'VecDeque', 'Vec', 'BigInt', 'Ratio',
                                       'String', 'f64', 'i64', 'usize', 'i32', 'u64', 'i128', 'T')):
            return NOMODEL
        a0 = val(eng, st, info.args[0])
        if 'BigInt' in ty0 or 'Ratio' in ty0 or ty0.endswith('String') or ty0 in E().INTS or ty0 == 'f64':
            if info.fn is not None:
                return NOMODEL
            return k(st, a0)
        if ty0 == 'T' and a0.op != 'agg':
            return k(st, a0)
    a = norm_range(val(eng, st, info.args[0]))
    a = as_comp(eng, st, a)
    return k(st, collected(a, ty))


def collected(a, ty):
    t = ty.split('<')[0]
    if t.endswith('HashSet') or t.endswith('BTreeSet'):
        if a.op == 'agg' and a.args[0] == 'array':
            return mk('agg', 'setlit', None, *a.args[2:])
        if a.op in ('toset',):
            return a
        return mk('toset', a)
    if t.endswith('HashMap') or t.endswith('BTreeMap'):
        if a.op == 'agg' and a.args[0] == 'array':
            return mk('agg', 'maplit', None, *a.args[2:])
        if a.op == 'mentries':
            return a.args[0]
        return mk('tomap', a)
    if t.endswith('Vec') or t.endswith('VecDeque') or t == '':
        return a
    if t.endswith('String'):
        return mk('tostring', a)
    return mk('collect', t, a)


# ------------------------------------------------------------------ iterator consumers

@reg('Iterator::next')
def m_next(eng, st, info, k):
    a = info.args[0]
    if a.op != 'mref':
        return NOMODEL
    v = eng.read_cell(st, a.args[0], a.args[1])
    if v.op == 'phi' and v.args[1] == a.args[0]:
        src = iter_source(eng, st, v)
        if src is None:
            if len(a.args[1]):
                return NOMODEL
            src = v.args[3]
        return pull(eng, st, src, v.args[0], k)
    v = norm_range(v)
    if is_lazy(v) or v.op in ('mentries', 'comp') and not (v.op == 'comp' and v.args[0] == 'map'):
        key = st.frames[-1].fid + (st.frames[-1].bb, 'n')
        rest = mk('islice', v, INT(1), None)
        return pull(eng, st, v, key, lambda s, r: (put(eng, s, a, rest), k(s, r))[1])
    n = t_len(v)
    e = E()
    rest = mk('islice', v, INT(1), None) if v.op != 'islice' else \
        mk('islice', v.args[0], e.t_arith('add', 'i', v.args[1], INT(1)), v.args[2])

    def some(s):
        put(eng, s, a, rest)
        return k(s, SOME(at_any(v, INT(0))))
    return eng.alts(st, [([(e.t_eq(n, INT(0)), 0)], some), ([(e.t_eq(n, INT(0)), 1)], lambda s: k(s, NONE))])


def pseudo_loop(eng, st, src, tag, body, done, effects=()):
    """iterate src as a loop: body(st, item, again) / done(st)"""
    key = st.frames[-1].fid + (st.frames[-1].bb, tag)
    tg = []
    for f in effects:
        for m in mrefs_in(f):
            tg.append((m.args[0], tuple(m.args[1])))
    # closures held in cells
    eng.do_havoc(st, key, tg)

    def again(s):
        eng.back(s, key)
        return []

    def step(s, r):
        if r is NONE:
            s.ev('exit', key, 'done')
            return done(s)
        return body(s, r.args[2], again)
    return pull(eng, st, src, key, step)


@reg('Iterator::all', 'Iterator::any')
def m_all(eng, st, info, k):
    src = norm_range(val(eng, st, info.args[0]))
    f = info.args[1]
    isall = info.name.endswith('all')
    stop, end = (FALSE, TRUE) if isall else (TRUE, FALSE)

    def body(s, x, again):
        def after(s2, r):
            hit, cont = (0, 1) if isall else (1, 0)

            def found(s3):
                s3.ev('exit', 'found', None)
                return k(s3, stop)
            return eng.alts(s2, [([(r, hit)], found), ([(r, cont)], again)])
        return eng.invoke_value(s, f, [x], after)
    return pseudo_loop(eng, st, src, 'all', body, lambda s: k(s, end), (f, info.args[0]) if info.args[0].op != 'mref' else (f,))


@reg('Iterator::find', 'Iterator::position', 'Iterator::find_map', 'DoubleEndedIterator::rfind')
def m_find(eng, st, info, k):
    src = norm_range(val(eng, st, info.args[0]))
    f = info.args[1]
    nm = info.name.split('::')[1]
    if nm == 'rfind':
        src, nm = mk('irev', src), 'find'

    def body(s, x, again):
        ixs = [t for t in subterms(x) if t.op == 'ix' and t.args[0][-1] == 'find']

        def after(s2, r):
            if nm == 'find_map':
                return split_opt(eng, s2, r, lambda s3, v: k(s3, SOME(v)), again)
            res = x if nm == 'find' else (ixs[0] if ixs else mk('posof', x))
            return eng.alts(s2, [([(r, 1)], lambda s3: k(s3, SOME(res))), ([(r, 0)], again)])
        return eng.invoke_value(s, f, [x], after)
    return pseudo_loop(eng, st, src, 'find', body, lambda s: k(s, NONE), (f,))


@reg('Iterator::for_each')
def m_for_each(eng, st, info, k):
    f = info.args[1]
    src = norm_range(val(eng, st, info.args[0]))
    return pseudo_loop(eng, st, src, 'each',
                       lambda s, x, again: eng.invoke_value(s, f, [x], lambda s2, r: again(s2)),
                       lambda s: k(s, UNIT), (f, info.args[0]))


@reg('Iterator::sum', 'Iterator::product', 'Iterator::count', 'Iterator::max', 'Iterator::min', 'Iterator::last')
def m_sum(eng, st, info, k):
    a = as_comp(eng, st, norm_range(val(eng, st, info.args[0])))
    nm = info.name.split('::')[1]
    if nm == 'count':
        return k(st, t_len(a) if not is_lazy(a) else mk('count', a))
    if nm in ('max', 'min', 'last'):
        return k(st, mk('call', 'Iterator::' + nm, a, ty=info.destty))
    return k(st, mk(nm, a))


@reg('Iterator::fold')
def m_fold(eng, st, info, k):
    it, init, f = info.args
    it = norm_range(val(eng, st, it))
    acc = mk('bv', 'acc%d' % eng._bv)
    c = as_comp(eng, st, mk('imap', it, mk('identity'))) if False else as_comp(eng, st, it)
    if not is_lazy(c):
        eng._bv += 1
        try:
            I = c.args[2] if c.op == 'comp' else mk('bv', eng._bv)
            n = t_len(c)
            if c.op != 'comp':
                r = eval_cases(eng, st, f, [acc, at_any(c, I)])
            elif c.args[0] == 'map' and len(c.args[3]) == 1:
                r = eval_cases(eng, st, f, [acc, c.args[3][0][1]])
            else:
                r = None
        finally:
            eng._bv -= 1
        if r is not None:
            rs, hidden = r
            v = merge_cases(rs) if len(rs) > 1 else (rs[0][1] if not rs[0][0] else None)
            if v is not None and not hidden:
                return k(st, fold_term(n, I, acc, init, v))
    return k(st, mk('fold', it, init, f))


@reg('Iterator::max_by', 'Iterator::min_by', 'Iterator::max_by_key', 'Iterator::min_by_key')
def m_max_by(eng, st, info, k):
    c = as_comp(eng, st, norm_range(val(eng, st, info.args[0])))
    if is_lazy(c):
        return NOMODEL
    return k(st, mk('call', 'Iterator::' + info.name.split('::')[1], c, info.args[1], ty=info.destty))


@reg('Iterator::reduce')
def m_reduce(eng, st, info, k):
    it, f = info.args
    c = as_comp(eng, st, norm_range(val(eng, st, it)))
    if is_lazy(c) or c.op == 'comp' and not (c.args[0] == 'map' and len(c.args[3]) == 1 and not c.args[3][0][0]):
        return NOMODEL
    e = E()
    acc = mk('bv', 'acc%d' % eng._bv)
    eng._bv += 1
    try:
        I = c.args[2] if c.op == 'comp' else mk('bv', eng._bv)
        nx = e.t_arith('add', 'i', I, INT(1))
        el = lambda i: subst(c.args[3][0][1], {I: i}) if c.op == 'comp' else at_any(c, i)
        r = eval_cases(eng, st, f, [acc, el(nx)])
    finally:
        eng._bv -= 1
    if r is None or r[1]:
        return NOMODEL
    v = merge_cases(r[0]) if len(r[0]) > 1 else (r[0][0][1] if not r[0][0][0] else None)
    if v is None:
        return NOMODEL
    n = t_len(c)
    t = fold_term(e.t_arith('sub', 'i', n, INT(1)), I, acc, el(INT(0)), v)
    z = e.t_eq(n, INT(0))
    return eng.alts(st, [([(z, 0)], lambda s: k(s, SOME(t))), ([(z, 1)], lambda s: k(s, NONE))])


def fold_term(n, I, acc, init, v):
    """acc := init; for I in 0..n: acc := v   as a closed term where possible"""
    if v.op == 'add':
        x = None
        if v.args[1] is acc:
            x = v.args[2]
        elif v.args[2] is acc:
            x = v.args[1]
        if x is not None and not contains(x, lambda t: t is acc):
            s = mk('sum', mk('comp', 'map', n, I, (((), x),)))
            return E().t_arith('add', v.args[0], init, s)
    if v.op == 'mul':
        x = v.args[2] if v.args[1] is acc else None
        if x is not None and not contains(x, lambda t: t is acc):
            s = mk('product', mk('comp', 'map', n, I, (((), x),)))
            return s if init is INT(1) else E().t_arith('mul', v.args[0], init, s)
    return mk('fold', n, I, acc, init, v)


@reg('Extend::extend', 'Vec::extend', 'Vec::extend_from_slice', 'Vec::append')
def m_extend(eng, st, info, k):
    m = info.args[0]
    a = as_comp(eng, st, norm_range(val(eng, st, info.args[1])))
    old = val(eng, st, m)
    if 'HashSet' in (info.argty[0] or '') or 'BTreeSet' in (info.argty[0] or ''):
        put(eng, st, m, mk('sunion', old, a), info.sp)
    elif 'Map<' in (info.argty[0] or ''):
        put(eng, st, m, mk('munion', old, a), info.sp)
    else:
        put(eng, st, m, mk('vextend', old, a) if t_len(old) is not INT(0) else a, info.sp)
    if info.name == 'Vec::append':
        put(eng, st, info.args[1], agg('array', None))
    return k(st, UNIT)


# ------------------------------------------------------------------ arithmetic

ARITH = {'Add::add': 'add', 'Sub::sub': 'sub', 'Mul::mul': 'mul', 'Div::div': 'div', 'Rem::rem': 'rem'}
ARITHA = {'AddAssign::add_assign': 'add', 'SubAssign::sub_assign': 'sub', 'MulAssign::mul_assign': 'mul',
          'DivAssign::div_assign': 'div', 'RemAssign::rem_assign': 'rem'}


def m_arith(eng, st, info, k):
    e = E()
    op = ARITH[info.name]
    a, b = (val(eng, st, x) for x in info.args)
    kd = e.kind_of([info.argty[0], info.argty[1]])
    return k(st, e.t_arith(op, kd, a, b))


def m_aritha(eng, st, info, k):
    e = E()
    op = ARITHA[info.name]
    m = info.args[0]
    a, b = val(eng, st, m), val(eng, st, info.args[1])
    kd = e.kind_of([info.argty[0], info.argty[1]])
    put(eng, st, m, e.t_arith(op, kd, a, b), info.sp)
    return k(st, UNIT)


for n in ARITH:
    M[n] = m_arith
for n in ARITHA:
    M[n] = m_aritha


@reg('Neg::neg')
def m_neg(eng, st, info, k):
    e = E()
    return k(st, e.t_arith('neg', e.kind_of(info.argty), val(eng, st, info.args[0])))


@reg('PartialEq::eq', 'PartialEq::ne')
def m_eq(eng, st, info, k):
    e = E()
    a, b = (val(eng, st, x) for x in info.args)
    r = e.t_eq(a, b)
    return k(st, r if info.name.endswith('eq') else e.t_not(r))


@reg('PartialOrd::lt', 'PartialOrd::gt', 'PartialOrd::le', 'PartialOrd::ge')
def m_lt(eng, st, info, k):
    a, b = (val(eng, st, x) for x in info.args)
    return k(st, E().t_cmp(info.name.split('::')[1], a, b))


@reg('Ord::cmp', 'f64::total_cmp')
def m_cmp(eng, st, info, k):
    a, b = (val(eng, st, x) for x in info.args)
    return k(st, mk('cmp', a, b))


@reg('PartialOrd::partial_cmp')
def m_pcmp(eng, st, info, k):
    a, b = (val(eng, st, x) for x in info.args)
    return k(st, SOME(mk('cmp', a, b)))


@reg('Ord::max', 'cmp::max')
def m_max(eng, st, info, k):
    return k(st, mk('max', *info.args))


@reg('Ord::min', 'cmp::min')
def m_min(eng, st, info, k):
    return k(st, mk('min', *info.args))


def mat(info):
    return any(w in (info.destty or '') for w in ('Matrix<', 'Vector', 'Point<', 'AffineMap'))


@reg('Zero::zero')
def m_zero(eng, st, info, k):
    if mat(info) or info.fn is not None:
        return NOMODEL
    return k(st, INT(0))


@reg('One::one')
def m_one(eng, st, info, k):
    if mat(info) or info.fn is not None:
        return NOMODEL
    return k(st, INT(1))


def selfmat(info):
    return any(w in (info.argty[0] or '') for w in ('Matrix<', 'Vector', 'Point<', 'AffineMap'))


@reg('Zero::is_zero')
def m_is_zero(eng, st, info, k):
    if selfmat(info):
        return NOMODEL
    return k(st, E().t_eq(val(eng, st, info.args[0]), INT(0)))


@reg('One::is_one')
def m_is_one(eng, st, info, k):
    if selfmat(info):
        return NOMODEL
    return k(st, E().t_eq(val(eng, st, info.args[0]), INT(1)))


@reg('Signed::is_negative', 'BigInt::is_negative', 'num::is_negative')
def m_is_neg(eng, st, info, k):
    if info.fn is not None:
        return NOMODEL
    return k(st, E().t_lt(val(eng, st, info.args[0]), INT(0)))


@reg('Signed::is_positive', 'num::is_positive')
def m_is_pos(eng, st, info, k):
    if info.fn is not None:
        return NOMODEL
    return k(st, E().t_lt(INT(0), val(eng, st, info.args[0])))


@reg('Signed::abs', 'num_traits::abs', 'num::abs')
def m_abs(eng, st, info, k):
    return k(st, mk('abs', val(eng, st, info.args[0])))


@reg('Ratio::from_integer', 'Ratio::from')
def m_fromint(eng, st, info, k):
    return k(st, info.args[0])


@reg('Ratio::floor')
def m_floor(eng, st, info, k):
    return k(st, mk('floor', val(eng, st, info.args[0])))


@reg('Ratio::ceil')
def m_ceil(eng, st, info, k):
    e = E()
    return k(st, e.t_neg('q', mk('floor', e.t_neg('q', val(eng, st, info.args[0])))) if hasattr(e, 't_neg') else mk('neg', 'q', mk('floor', mk('neg', 'q', val(eng, st, info.args[0])))))


@reg('Ratio::fract')
def m_fract(eng, st, info, k):
    x = val(eng, st, info.args[0])
    return k(st, E().t_arith('rem', 'q', x, INT(1)))


@reg('Ratio::trunc')
def m_trunc(eng, st, info, k):
    return k(st, mk('trunc', val(eng, st, info.args[0])))


@reg('num::rem_euclid', 'Euclid::rem_euclid')
def m_remeu(eng, st, info, k):
    return k(st, mk('remeu', val(eng, st, info.args[0]), val(eng, st, info.args[1])))


@reg('num::div_euclid', 'Integer::div_floor')
def m_diveu(eng, st, info, k):
    return k(st, mk('diveu', val(eng, st, info.args[0]), val(eng, st, info.args[1])))


@reg('Integer::mod_floor')
def m_modf(eng, st, info, k):
    return k(st, mk('remfl', val(eng, st, info.args[0]), val(eng, st, info.args[1])))


@reg('BigInt::pow', 'num::pow')
def m_pow(eng, st, info, k):
    e = E()
    x, n = val(eng, st, info.args[0]), info.args[1]
    if n.op == 'int' and 0 < n.args[0] <= 4:
        r = x
        for _ in range(n.args[0] - 1):
            r = e.t_arith('mul', 'i', r, x)
        return k(st, r)
    return k(st, mk('pow', x, n))


@reg('Default::default')
def m_default(eng, st, info, k):
    t = info.destty or ''
    if 'PhantomData' in t:
        return k(st, agg('std::marker::PhantomData', 0))
    b = t.split('<')[0]
    if b.endswith('Vec') or b.endswith('VecDeque'):
        return k(st, agg('array', None))
    if b.endswith('HashMap') or b.endswith('BTreeMap'):
        return k(st, mk('emptymap'))
    if b.endswith('HashSet') or b.endswith('BTreeSet'):
        return k(st, mk('emptyset'))
    if t in E().INTS:
        return k(st, INT(0))
    if t == 'bool':
        return k(st, FALSE)
    return NOMODEL


# ------------------------------------------------------------------ Option / Result

@reg('Option::unwrap', 'Option::expect')
def m_unwrap(eng, st, info, k):
    v = val(eng, st, info.args[0]) if info.args[0].op == 'mref' else info.args[0]
    v0 = v

    def none(s):
        s.ev('unwrap', 'none', v0, s.frames[-1].fn.id, info.sp)
        return eng.end(s, 'panic')
    return split_opt(eng, st, v, k, none)


@reg('Result::unwrap', 'Result::expect')
def m_runwrap(eng, st, info, k):
    v = info.args[0]

    def err(s, e_):
        s.ev('unwrap', 'err', v, s.frames[-1].fn.id, info.sp)
        return eng.end(s, 'panic')
    return split_res(eng, st, v, k, err)


@reg('Option::is_some')
def m_is_some(eng, st, info, k):
    v = val(eng, st, info.args[0])
    d = eng.discr(st, v)
    return k(st, d if d.op == 'int' else E().t_eq(d, INT(1)) if False else mkbool(d, 1))


@reg('Option::is_none')
def m_is_none(eng, st, info, k):
    v = val(eng, st, info.args[0])
    d = eng.discr(st, v)
    return k(st, E().t_not(d if d.op == 'int' else mkbool(d, 1)))


def mkbool(d, n):
    """boolean term: discriminant d (of a two-variant type) is n; the discriminant itself when n==1"""
    return d if n == 1 else E().t_not(d)


@reg('Result::is_ok')
def m_is_ok(eng, st, info, k):
    v = val(eng, st, info.args[0])
    d = eng.discr(st, v)
    return k(st, E().t_not(d))


@reg('Result::is_err')
def m_is_err(eng, st, info, k):
    v = val(eng, st, info.args[0])
    return k(st, eng.discr(st, v))


@reg('Option::unwrap_or')
def m_uor(eng, st, info, k):
    return split_opt(eng, st, info.args[0], k, lambda s: k(s, info.args[1]))


@reg('Option::unwrap_or_else')
def m_uore(eng, st, info, k):
    return split_opt(eng, st, info.args[0], k, lambda s: eng.invoke_value(s, info.args[1], [], k))


@reg('Option::unwrap_or_default')
def m_uord(eng, st, info, k):
    return split_opt(eng, st, info.args[0], k, lambda s: k(s, mk('default', info.destty)))


@reg('Option::map')
def m_omap(eng, st, info, k):
    return split_opt(eng, st, info.args[0],
                     lambda s, x: eng.invoke_value(s, info.args[1], [x], lambda s2, r: k(s2, SOME(r))),
                     lambda s: k(s, NONE))


@reg('Option::and_then')
def m_oand(eng, st, info, k):
    return split_opt(eng, st, info.args[0],
                     lambda s, x: eng.invoke_value(s, info.args[1], [x], k),
                     lambda s: k(s, NONE))


@reg('Option::filter')
def m_ofilter(eng, st, info, k):
    return split_opt(eng, st, info.args[0],
                     lambda s, x: eng.invoke_value(s, info.args[1], [x], lambda s2, r: eng.alts(
                         s2, [([(r, 1)], lambda s3: k(s3, SOME(x))), ([(r, 0)], lambda s3: k(s3, NONE))])),
                     lambda s: k(s, NONE))


@reg('Option::map_or')
def m_omapor(eng, st, info, k):
    return split_opt(eng, st, info.args[0],
                     lambda s, x: eng.invoke_value(s, info.args[2], [x], k),
                     lambda s: k(s, info.args[1]))


@reg('Option::map_or_else')
def m_omapore(eng, st, info, k):
    return split_opt(eng, st, info.args[0],
                     lambda s, x: eng.invoke_value(s, info.args[2], [x], k),
                     lambda s: eng.invoke_value(s, info.args[1], [], k))


@reg('Option::is_some_and', 'Option::is_none_or')
def m_osa(eng, st, info, k):
    return split_opt(eng, st, info.args[0],
                     lambda s, x: eng.invoke_value(s, info.args[1], [x], k),
                     lambda s: k(s, FALSE if info.name.endswith('some_and') else TRUE))


@reg('Option::or')
def m_oor(eng, st, info, k):
    return split_opt(eng, st, info.args[0], lambda s, x: k(s, SOME(x)), lambda s: k(s, info.args[1]))


@reg('Option::or_else')
def m_oore(eng, st, info, k):
    return split_opt(eng, st, info.args[0], lambda s, x: k(s, SOME(x)),
                     lambda s: eng.invoke_value(s, info.args[1], [], k))


@reg('Option::ok_or')
def m_okor(eng, st, info, k):
    return split_opt(eng, st, info.args[0], lambda s, x: k(s, OKV(x)), lambda s: k(s, agg(RES, 1, info.args[1])))


@reg('Option::ok_or_else')
def m_okore(eng, st, info, k):
    return split_opt(eng, st, info.args[0], lambda s, x: k(s, OKV(x)),
                     lambda s: eng.invoke_value(s, info.args[1], [], lambda s2, r: k(s2, agg(RES, 1, r))))


@reg('Result::ok')
def m_rok(eng, st, info, k):
    return split_res(eng, st, info.args[0], lambda s, x: k(s, SOME(x)), lambda s, e_: k(s, NONE))


@reg('Result::err')
def m_rerr(eng, st, info, k):
    return split_res(eng, st, info.args[0], lambda s, x: k(s, NONE), lambda s, e_: k(s, SOME(e_)))


@reg('Result::map')
def m_rmap(eng, st, info, k):
    return split_res(eng, st, info.args[0],
                     lambda s, x: eng.invoke_value(s, info.args[1], [x], lambda s2, r: k(s2, OKV(r))),
                     lambda s, e_: k(s, agg(RES, 1, e_)))


@reg('Result::map_err')
def m_rmaperr(eng, st, info, k):
    return split_res(eng, st, info.args[0], lambda s, x: k(s, OKV(x)),
                     lambda s, e_: eng.invoke_value(s, info.args[1], [e_], lambda s2, r: k(s2, agg(RES, 1, r))))


@reg('Result::and_then')
def m_rand(eng, st, info, k):
    return split_res(eng, st, info.args[0], lambda s, x: eng.invoke_value(s, info.args[1], [x], k),
                     lambda s, e_: k(s, agg(RES, 1, e_)))


@reg('Result::unwrap_or')
def m_ruor(eng, st, info, k):
    return split_res(eng, st, info.args[0], k, lambda s, e_: k(s, info.args[1]))


CF = 'std::ops::ControlFlow'


@reg('Try::branch')
def m_branch(eng, st, info, k):
    v = info.args[0]
    ty = info.argty[0] or ''
    if 'Option<' in ty.split('<')[0] + '<':
        return split_opt(eng, st, v, lambda s, x: k(s, agg(CF, 0, x)), lambda s: k(s, agg(CF, 1, NONE)))
    return split_res(eng, st, v, lambda s, x: k(s, agg(CF, 0, x)), lambda s, e_: k(s, agg(CF, 1, agg(RES, 1, e_))))


@reg('FromResidual::from_residual')
def m_fromres(eng, st, info, k):
    return k(st, info.args[0])


@reg('Option::take')
def m_otake(eng, st, info, k):
    v = val(eng, st, info.args[0])
    put(eng, st, info.args[0], NONE, info.sp)
    return k(st, v)


@reg('Option::as_mut')
def m_oasmut(eng, st, info, k):
    m = info.args[0]
    v = val(eng, st, m)
    return split_opt(eng, st, v, lambda s, x: k(s, SOME(mk('mref', m.args[0], m.args[1] + (('f', 0, 1),)))),
                     lambda s: k(s, NONE))


@reg('Option::insert', 'Option::replace')
def m_oins(eng, st, info, k):
    m = info.args[0]
    old = val(eng, st, m)
    put(eng, st, m, SOME(info.args[1]), info.sp)
    if info.name.endswith('replace'):
        return k(st, old)
    return k(st, mk('mref', m.args[0], m.args[1] + (('f', 0, 1),)))


@reg('Option::get_or_insert_with', 'Option::get_or_insert')
def m_ogoi(eng, st, info, k):
    m = info.args[0]
    v = val(eng, st, m)
    ref = mk('mref', m.args[0], m.args[1] + (('f', 0, 1),))

    def none(s):
        if info.name.endswith('with'):
            return eng.invoke_value(s, info.args[1], [], lambda s2, r: (put(eng, s2, m, SOME(r), info.sp), k(s2, ref))[1])
        put(eng, s, m, SOME(info.args[1]), info.sp)
        return k(s, ref)
    return split_opt(eng, st, v, lambda s, x: k(s, ref), none)


# ------------------------------------------------------------------ closures

@reg('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def m_call(eng, st, info, k):
    f, t = info.args
    args = list(t.args[2:]) if t.op == 'agg' else [t]
    fv = val(eng, st, f)
    if fv.op == 'agg' and isinstance(fv.args[0], tuple):
        # a closure we can follow; pass the location on so that its captured state stays shared
        fn = eng.crate.by_id.get(fv.args[0][1])
        if fn is not None and len(st.frames) < 18 and sum(1 for x in st.frames if x.fn is fn) < 2:
            t1 = fn.ty(1)
            selfarg = f if (t1['k'] == 'ref' and t1['mut'] and f.op == 'mref') else fv
            return eng.push(st, fn, [selfarg] + args, k, info.sp)
    return eng.invoke_value(st, fv, args, k, info.sp)


# ------------------------------------------------------------------ memory

@reg('mem::replace')
def m_replace(eng, st, info, k):
    m, x = info.args
    old = val(eng, st, m)
    put(eng, st, m, x, info.sp)
    return k(st, old)


@reg('mem::take')
def m_take_(eng, st, info, k):
    m = info.args[0]
    old = val(eng, st, m)
    t = (info.destty or '').split('<')[0]
    d = agg('array', None) if t.endswith('Vec') else mk('emptymap') if t.endswith('Map') else \
        mk('emptyset') if t.endswith('Set') else NONE if t.endswith('Option') else mk('default', info.destty)
    put(eng, st, m, d, info.sp)
    return k(st, old)


@reg('mem::swap')
def m_swap(eng, st, info, k):
    a, b = info.args
    x, y = val(eng, st, a), val(eng, st, b)
    put(eng, st, a, y, info.sp)
    put(eng, st, b, x, info.sp)
    return k(st, UNIT)


@reg('UnsafeCell::new', 'Cell::new', 'RefCell::new', 'OnceCell::new_')
def m_ucnew(eng, st, info, k):
    return k(st, mk('cellnew', info.args[0]))


@reg('UnsafeCell::get', 'UnsafeCell::get_mut')
def m_ucget(eng, st, info, k):
    a = info.args[0]
    c = val(eng, st, a) if a.op == 'mref' and info.name.endswith('get') else a
    if a.op == 'mref':
        c = val(eng, st, a)
    st.ev('cellget', c, info.sp, st.frames[-1].fn.id)
    return k(st, mk('mref', ('U', c), ()))


@reg('mut_ptr::as_ref', 'ptr::as_ref', 'const_ptr::as_ref', 'mut_ptr::as_mut')
def m_asref(eng, st, info, k):
    a = info.args[0]
    if info.name.endswith('as_mut'):
        return k(st, SOME(a))
    return k(st, SOME(val(eng, st, a)))


@reg('mut_ptr::cast_const', 'mut_ptr::cast')
def m_ptrcast(eng, st, info, k):
    return k(st, info.args[0])


@reg('Box::new_uninit')
def m_boxuninit(eng, st, info, k):
    fr = st.frames[-1]
    cell = ('B', fr.fid, fr.bb)
    st.heap[cell] = BOT
    return k(st, mk('mref', cell, ()))


@reg('boxed::box_assume_init_into_vec_unsafe')
def m_boxinto(eng, st, info, k):
    a = info.args[0]
    v = val(eng, st, a)
    for _ in range(4):
        if v.op == 'agg' and v.args[0] != 'array' and len(v.args) == 3:
            v = v.args[2]
        elif v.op == 'with':
            v = v.args[2]
        else:
            break
    return k(st, v)


@reg('Box::new', 'Rc::new', 'Arc::new', 'RefCell::into_inner')
def m_boxnew(eng, st, info, k):
    return k(st, info.args[0])


# ------------------------------------------------------------------ Vec and friends

@reg('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity')
def m_vecnew(eng, st, info, k):
    return k(st, agg('array', None))


@reg('String::new', 'String::with_capacity')
def m_strnew(eng, st, info, k):
    return k(st, STR(''))


@reg('vec::from_elem')
def m_fromelem(eng, st, info, k):
    return k(st, mk('from_elem', info.args[0], info.args[1]))


@reg('Vec::push', 'VecDeque::push_back', 'BinaryHeap::push')
def m_push(eng, st, info, k):
    m, x = info.args
    v = val(eng, st, m)
    st.ev('push', m, x, info.sp)
    if v.op == 'agg' and v.args[0] == 'array' and len(v.args) < 12:
        put(eng, st, m, mk('agg', *(v.args + (x,))), info.sp)
    else:
        put(eng, st, m, mk('push', v, x), info.sp)
    return k(st, UNIT)


@reg('VecDeque::push_front')
def m_pushf(eng, st, info, k):
    m, x = info.args
    v = val(eng, st, m)
    st.ev('push', m, x, info.sp)
    put(eng, st, m, mk('pushf', v, x), info.sp)
    return k(st, UNIT)


@reg('Vec::pop', 'VecDeque::pop_back', 'VecDeque::pop_front', 'BinaryHeap::pop')
def m_pop(eng, st, info, k):
    m = info.args[0]
    v = val(eng, st, m)
    e = E()
    n = t_len(v)
    st.ev('pop', m, info.sp)

    def some(s):
        if v.op == 'push' and info.name in ('Vec::pop', 'VecDeque::pop_back'):
            put(eng, s, m, v.args[0], info.sp)
            return k(s, SOME(v.args[1]))
        put(eng, s, m, mk('rest', v), info.sp)
        return k(s, SOME(mk('popped', v)))
    return eng.alts(st, [([(e.t_eq(n, INT(0)), 0)], some), ([(e.t_eq(n, INT(0)), 1)], lambda s: k(s, NONE))])


@reg('Vec::insert')
def m_vinsert(eng, st, info, k):
    m, i, x = info.args
    st.ev('push', m, x, info.sp)
    put(eng, st, m, mk('vinsert', val(eng, st, m), i, x), info.sp)
    return k(st, UNIT)


@reg('Vec::len', 'slice::len', 'VecDeque::len', 'HashSet::len', 'BTreeSet::len', 'HashMap::len', 'BTreeMap::len',
     'str::len', 'String::len', 'ExactSizeIterator::len')
def m_len(eng, st, info, k):
    return k(st, t_len(norm_range(val(eng, st, info.args[0]))))


@reg('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty',
     'HashMap::is_empty', 'BTreeMap::is_empty', 'str::is_empty', 'String::is_empty')
def m_isempty(eng, st, info, k):
    return k(st, E().t_eq(t_len(val(eng, st, info.args[0])), INT(0)))


def is_map(ty):
    t = (ty or '').lstrip('&').replace('mut ', '')
    b = t.split('<')[0]
    return b.endswith('HashMap') or b.endswith('BTreeMap')


def rng(i, v):
    """(lo, hi) when i is a range value"""
    if i.op == 'agg' and isinstance(i.args[0], str) and i.args[0].startswith('std::ops::Range'):
        n = i.args[0].split('::')[-1]
        xs = i.args[2:]
        if n == 'Range':
            return xs[0], xs[1]
        if n == 'RangeFrom':
            return xs[0], t_len(v)
        if n == 'RangeTo':
            return INT(0), xs[0]
        if n == 'RangeFull':
            return INT(0), t_len(v)
        if n == 'RangeToInclusive':
            return INT(0), E().t_arith('add', 'i', xs[0], INT(1))
    if i.op == 'range':
        return i.args
    return None


@reg('Index::index')
def m_index(eng, st, info, k):
    a, i = info.args
    v = val(eng, st, a)
    e = E()
    if is_map(info.argty[0]):
        st.ev('mapindex', v, i, info.sp, st.frames[-1].fn.id)
        return k(st, e.getkey(v, i))
    r = rng(i, v)
    if r:
        st.ev('sliceindex', v, r, info.sp, st.frames[-1].fn.id)
        return k(st, mk('islice', v, r[0], r[1]))
    st.ev('index', v, i, info.sp, st.frames[-1].fn.id)
    return k(st, e.getidx(v, i))


@reg('IndexMut::index_mut')
def m_indexmut(eng, st, info, k):
    m, i = info.args
    v = val(eng, st, m)
    if m.op != 'mref':
        return NOMODEL
    if is_map(info.argty[0]):
        return k(st, mk('mref', m.args[0], m.args[1] + (('k', i),)))
    if rng(i, v):
        return NOMODEL
    st.ev('index', v, i, info.sp, st.frames[-1].fn.id)
    return k(st, mk('mref', m.args[0], m.args[1] + (('i', i),)))


@reg('slice::get', 'Vec::get', 'VecDeque::get')
def m_get(eng, st, info, k):
    v = val(eng, st, info.args[0])
    i = info.args[1]
    e = E()
    if rng(i, v):
        return NOMODEL
    c = e.t_lt(i, t_len(v))
    return eng.alts(st, [([(c, 1)], lambda s: k(s, SOME(e.getidx(v, i)))), ([(c, 0)], lambda s: k(s, NONE))])


@reg('slice::get_mut', 'Vec::get_mut')
def m_getm(eng, st, info, k):
    m, i = info.args
    if m.op != 'mref':
        return NOMODEL
    v = val(eng, st, m)
    c = E().t_lt(i, t_len(v))
    return eng.alts(st, [([(c, 1)], lambda s: k(s, SOME(mk('mref', m.args[0], m.args[1] + (('i', i),))))),
                         ([(c, 0)], lambda s: k(s, NONE))])


@reg('slice::first', 'Vec::first', 'VecDeque::front')
def m_first(eng, st, info, k):
    v = val(eng, st, info.args[0])
    e = E()
    c = e.t_eq(t_len(v), INT(0))
    return eng.alts(st, [([(c, 0)], lambda s: k(s, SOME(e.getidx(v, INT(0))))), ([(c, 1)], lambda s: k(s, NONE))])


def lastix(v):
    return E().t_arith('sub', 'i', t_len(v), INT(1))


@reg('slice::last', 'Vec::last', 'VecDeque::back')
def m_last(eng, st, info, k):
    v = val(eng, st, info.args[0])
    e = E()
    c = e.t_eq(t_len(v), INT(0))
    return eng.alts(st, [([(c, 0)], lambda s: k(s, SOME(e.getidx(v, lastix(v))))), ([(c, 1)], lambda s: k(s, NONE))])


@reg('slice::last_mut', 'Vec::last_mut', 'slice::first_mut')
def m_lastm(eng, st, info, k):
    m = info.args[0]
    if m.op != 'mref':
        return NOMODEL
    v = val(eng, st, m)
    e = E()
    c = e.t_eq(t_len(v), INT(0))
    i = INT(0) if 'first' in info.name else lastix(v)
    return eng.alts(st, [([(c, 0)], lambda s: k(s, SOME(mk('mref', m.args[0], m.args[1] + (('i', i),))))),
                         ([(c, 1)], lambda s: k(s, NONE))])


@reg('slice::swap', 'Vec::swap')
def m_vswap(eng, st, info, k):
    m, i, j = info.args
    if m.op != 'mref':
        return NOMODEL
    v = val(eng, st, m)
    e = E()
    x, y = e.getidx(v, i), e.getidx(v, j)
    put(eng, st, m, mk('store', mk('store', v, i, y), j, x), info.sp)
    return k(st, UNIT)


@reg('slice::sort', 'Vec::sort', 'slice::sort_unstable')
def m_sort(eng, st, info, k):
    m = info.args[0]
    put(eng, st, m, mk('sorted', val(eng, st, m)), info.sp)
    return k(st, UNIT)


@reg('slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def m_sortby(eng, st, info, k):
    m = info.args[0]
    put(eng, st, m, mk('sortedby', val(eng, st, m), info.args[1]), info.sp)
    return k(st, UNIT)


@reg('Vec::dedup')
def m_dedup(eng, st, info, k):
    m = info.args[0]
    put(eng, st, m, mk('dedup', val(eng, st, m)), info.sp)
    return k(st, UNIT)


@reg('slice::reverse')
def m_reverse(eng, st, info, k):
    m = info.args[0]
    put(eng, st, m, mk('irev', val(eng, st, m)), info.sp)
    return k(st, UNIT)


@reg('Vec::clear', 'HashMap::clear', 'HashSet::clear', 'BTreeMap::clear', 'BTreeSet::clear', 'VecDeque::clear')
def m_clear(eng, st, info, k):
    m = info.args[0]
    x = agg('array', None) if 'Vec' in info.name else mk('emptymap') if 'Map' in info.name else mk('emptyset')
    put(eng, st, m, x, info.sp)
    return k(st, UNIT)


# ------------------------------------------------------------------ sets and maps

@reg('HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def m_setnew(eng, st, info, k):
    return k(st, mk('emptyset'))


@reg('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity')
def m_mapnew(eng, st, info, k):
    return k(st, mk('emptymap'))


@reg('HashSet::contains', 'BTreeSet::contains', 'HashMap::contains_key', 'BTreeMap::contains_key', 'slice::contains',
     'Vec::contains', 'VecDeque::contains')
def m_contains(eng, st, info, k):
    return k(st, E().has_key(val(eng, st, info.args[0]), val(eng, st, info.args[1])))


@reg('HashSet::insert', 'BTreeSet::insert')
def m_sinsert(eng, st, info, k):
    m, x = info.args
    v = val(eng, st, m)
    st.ev('push', m, x, info.sp)
    r = E().t_not(E().has_key(v, x))
    if m.op != 'mref':
        return NOMODEL
    put(eng, st, m, mk('sinsert', v, x), info.sp)
    return k(st, r)


@reg('HashSet::remove', 'BTreeSet::remove')
def m_sremove(eng, st, info, k):
    m, x = info.args
    v = val(eng, st, m)
    r = E().has_key(v, x)
    put(eng, st, m, mk('sremove', v, x), info.sp)
    return k(st, r)


@reg('HashMap::insert', 'BTreeMap::insert')
def m_minsert(eng, st, info, k):
    m, kk, x = info.args
    v = val(eng, st, m)
    st.ev('push', m, tup(kk, x), info.sp)
    put(eng, st, m, mk('minsert', v, kk, x), info.sp)
    old = mk('oldentry', v, kk)
    # Some(previous) exactly when the key was present
    return k(st, old)


@reg('HashMap::remove', 'BTreeMap::remove')
def m_mremove(eng, st, info, k):
    m, kk = info.args
    v = val(eng, st, m)
    put(eng, st, m, mk('mremove', v, kk), info.sp)
    return k(st, mk('oldentry', v, kk))


@reg('HashMap::get', 'BTreeMap::get', 'HashSet::get', 'BTreeSet::get')
def m_mget(eng, st, info, k):
    v = val(eng, st, info.args[0])
    kk = val(eng, st, info.args[1])
    e = E()
    c = e.has_key(v, kk)
    if 'Set' in info.name:
        r = kk
    else:
        r = e.getkey(v, kk)
    return eng.alts(st, [([(c, 1)], lambda s: k(s, SOME(r))), ([(c, 0)], lambda s: k(s, NONE))])


@reg('HashMap::get_mut', 'BTreeMap::get_mut')
def m_mgetm(eng, st, info, k):
    m, kk = info.args
    if m.op != 'mref':
        return NOMODEL
    v = val(eng, st, m)
    c = E().has_key(v, kk)
    r = mk('mref', m.args[0], m.args[1] + (('k', kk),))
    return eng.alts(st, [([(c, 1)], lambda s: k(s, SOME(r))), ([(c, 0)], lambda s: k(s, NONE))])


@reg('HashMap::entry', 'BTreeMap::entry')
def m_entry(eng, st, info, k):
    return k(st, mk('entry', info.args[0], info.args[1]))


@reg('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def m_orins(eng, st, info, k):
    en = info.args[0]
    if en.op != 'entry' or en.args[0].op != 'mref':
        return NOMODEL
    m, kk = en.args
    v = val(eng, st, m)
    c = E().has_key(v, kk)
    ref = mk('mref', m.args[0], m.args[1] + (('k', kk),))

    def absent(s):
        if info.name.endswith('with'):
            return eng.invoke_value(s, info.args[1], [], lambda s2, r: ins(s2, r))
        if info.name.endswith('default'):
            ty = (info.destty or '').replace('&mut ', '').split('<')[0]
            d = agg('array', None) if ty.endswith('Vec') else mk('emptymap') if ty.endswith('Map') else \
                mk('emptyset') if ty.endswith('Set') else INT(0) if ty in E().INTS else mk('default', ty)
            return ins(s, d)
        return ins(s, info.args[1])

    def ins(s, x):
        vv = val(eng, s, m)
        s.ev('push', m, tup(kk, x), info.sp)
        put(eng, s, m, mk('minsert', vv, kk, x), info.sp)
        return k(s, ref)
    return eng.alts(st, [([(c, 1)], lambda s: k(s, ref)), ([(c, 0)], absent)])


# ------------------------------------------------------------------ formatting
def decode_template(bs, args):
    """the pieces of a compiled format string: literals and ('fmt', trait, flags, width, precision, value)"""
    out = []
    i = 0
    n = 0
    bs = list(bs)
    le = lambda j, w: sum(b << (8 * q) for q, b in enumerate(bs[j:j + w]))
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(STR(bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0x80:
            w = le(i, 2)
            out.append(STR(bytes(bs[i + 2:i + 2 + w]).decode()))
            i += 2 + w
        else:
            f = wd = pr = None
            if b & 1:
                f = le(i, 4)
                i += 4
            if b & 2:
                wd = le(i, 2)
                i += 2
            if b & 4:
                pr = le(i, 2)
                i += 2
            if b & 8:
                n = le(i, 2)
                i += 2
            a = args[n]
            n += 1
            kind, v = (a.args[0].rsplit('_', 1)[-1], a.args[1]) if a.op == 'call' and a.args[0].startswith('Argument::new_') else ('?', a)
            out.append(mk('fmt', kind, f, wd, pr, v))
    return out


@reg('Arguments::new', 'Arguments::from_str', 'Arguments::from_str_nonconst')
def m_fmtargs(eng, st, info, k):
    if info.name != 'Arguments::new':
        s = val(eng, st, info.args[0])
        return k(st, mk('fmtargs', s))
    t, a = (val(eng, st, x) for x in info.args[:2])
    if t.op in ('bytes', 'str') and a.op == 'agg' and a.args[0] == 'array':
        try:
            b = t.args[0] if t.op == 'bytes' else t.args[0].encode()
            vs = [mk('call', x.args[0], val(eng, st, x.args[1])) if x.op == 'call' and len(x.args) > 1 else x for x in a.args[2:]]
            return k(st, mk('fmtargs', *decode_template(b, vs)))
        except Exception:
            pass
    return k(st, mk('call', info.name, t, a))
