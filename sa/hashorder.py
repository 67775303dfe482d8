"""Flow-sensitive taint of MIR: what depends on the iteration order of hash containers (or on time, randomness, addresses).

Marks of a place:
  S  a sequence or iterator whose order is a hash order        P  its positions have been used (enumerate, take, ..)
  L  an element met in a loop over such a sequence             C  a counter of such a loop
  T  some elements were left out by position
  E  a value selected or numbered by hash order                U  depends on the order in a way not decided here
"""
import re

from .mir import strip_generics, strip_lt

HASHITER = re.compile(r'hash_set::(Iter|IntoIter|Drain|Intersection|Union|Difference|SymmetricDifference|ExtractIf)\b|'
                      r'hash_map::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf)\b')
SETTY = re.compile(r'^(&(mut )?)*std::collections::(HashSet|HashMap|BTreeSet|BTreeMap|BinaryHeap)<')
HASHTY = re.compile(r'^(&(mut )?)*std::collections::(HashSet|HashMap)<')
BTREE = re.compile(r'^(&(mut )?)*std::collections::(BTreeSet|BTreeMap|BinaryHeap)<')
SCALAR = re.compile(r'^(&(mut )?)*(bool|[iu](8|16|32|64|128|size)|std::cmp::Ordering|\(\)|std::option::Option<std::cmp::Ordering>)$')

PASS = set('iter into_iter iter_mut map filter filter_map flat_map flatten cloned copied clone to_vec to_owned into rev chain inspect peekable by_ref deref deref_mut as_ref as_mut as_slice '
           'as_mut_slice borrow borrow_mut unwrap expect unwrap_or unwrap_or_default unwrap_or_else ok ok_or branch from_residual from_output collect from_iter collect_vec unique dedup_by intersperse '
           'join concat format from new to_string some replace take_mut or_insert or_insert_with or_default entry get get_mut and_modify keys values values_mut into_keys into_values drain union intersection difference '
           'symmetric_difference into_boxed_slice into_vec box_assume_init_into_vec_unsafe write as_str as_bytes map_while fuse cycle once repeat and_then is_some_and '.split())
POS = set('enumerate zip take skip step_by take_while skip_while windows chunks chunks_exact tuple_windows scan dedup map_windows split_at split_first split_last zip_eq first_chunk'.split())
TRUNC = set('take skip step_by take_while skip_while'.split())
CLEAN = set('len count is_empty all any contains contains_key max min sum product eq ne size_hint capacity is_subset is_superset is_disjoint with_capacity all_unique is_some is_none is_ok is_err drop '
            'partial_cmp_none reserve'.split())
SORTS = set('sort sort_unstable sorted sorted_unstable'.split())
KEYSORTS = set('sort_by sort_by_key sort_unstable_by sort_unstable_by_key sort_by_cached_key sorted_by sorted_by_key sorted_unstable_by sorted_unstable_by_key sorted_by_cached_key k_smallest'.split())
PICK = set('next next_back first last nth nth_back pop pop_front pop_back front back peek remove swap_remove first_mut last_mut choose at_most_one exactly_one'.split())
SEARCH = set('find position find_map rposition fold try_fold reduce min_by min_by_key max_by max_by_key partition partition_point binary_search'.split())
GROW = set('push push_back push_front insert extend append push_str write_fmt write_str write_all write_char extend_from_slice hash hash_slice write_u32 write_u64 write_usize'.split())
WILD = re.compile(r'RandomState::new$|SystemTime::now$|Instant::now$|thread_rng$|rand::random$|ThreadId|thread::current$|process::id$|::as_ptr$.*addr')

NONE = frozenset()


def last(path):
    p = strip_generics(path)
    return p.split('::')[-1]


class HashOrder:
    def __init__(self, crate):
        self.c = crate
        self.memo = {}
        self.stack = []
        self.sites = {}      # (fn path, span) -> what, where a hash order is produced
        self.prints = []     # output of order-dependent text
        self.info = {}
        self.steps = 0

    # ------------------------------------------------------------- static facts
    def fninfo(self, f):
        r = self.info.get(f.id)
        if r is not None:
            return r
        pts = {}

        def tgt(place):
            """keys a place may denote (derefs followed)"""
            keys = {(place[0],)}
            for p in place[1:]:
                if p[0] == '*':
                    nk = set()
                    for k in keys:
                        nk |= pts.get(k, None) or {k}
                    keys = nk
                elif p[0] == 'f':
                    keys = {k + (p[1],) if len(k) < 4 else k for k in keys}
            return keys
        muts = [self.c.tstr(l['ty']) for l in f.locals]
        lens = False
        ch = True
        n = 0
        while ch and n < 12:
            ch = False
            n += 1
            for b in f.blocks:
                if b.get('cl'):
                    continue
                for s in b['s']:
                    if s[0] != '=' or len(s[1]) != 1:
                        continue
                    d = (s[1][0],)
                    rv = s[2]
                    new = set()
                    if rv[0] == 'ref':
                        new = tgt(rv[2])
                    elif rv[0] == 'rawptr':
                        new = tgt(rv[2]) if isinstance(rv[2], list) else set()
                    elif rv[0] == 'cast' and 'BoxDeref' in rv[1] and rv[2][0] in ('copy', 'move'):
                        new = {(rv[2][1][0],)}
                    elif rv[0] in ('use', 'cast'):
                        o = rv[1] if rv[0] == 'use' else rv[2]
                        if o[0] in ('copy', 'move'):
                            for k in tgt(o[1]):
                                new |= pts.get(k, set())
                                if k not in pts and k[0] <= f.argc and len(o[1]) > 1 and ('&mut' in muts[s[1][0]] or '*mut' in muts[s[1][0]]):
                                    new.add(k)
                    elif rv[0] == 'agg':
                        for i, o in enumerate(rv[2]):
                            if o[0] in ('copy', 'move'):
                                for k in tgt(o[1]):
                                    q = pts.get(k, set())
                                    if q - pts.get(d + (i,), set()):
                                        pts.setdefault(d + (i,), set()).update(q)
                                        ch = True
                    new.discard(d)
                    if new - pts.get(d, set()):
                        pts.setdefault(d, set()).update(new)
                        ch = True
                t = b['t']
                if t[0] == 'call' and t[3] is not None and len(t[3]) == 1:
                    nm = last(t[1][1].get('path', '')) if t[1][0] == 'const' else ''
                    lens = lens or nm in ('len', 'is_empty')
                    d = (t[3][0],)
                    if '&mut' in muts[t[3][0]] or '*mut' in muts[t[3][0]] or 'Entry<' in muts[t[3][0]]:
                        for a in t[2][:1]:
                            if a[0] in ('copy', 'move'):
                                new = set()
                                for k in tgt(a[1]):
                                    if '&' in muts[a[1][0]] or '*mut' in muts[a[1][0]] or 'Entry<' in muts[a[1][0]]:
                                        new |= pts.get(k) or ({k} if k[0] <= f.argc else set())
                                new.discard(d)
                                if new - pts.get(d, set()):
                                    pts.setdefault(d, set()).update(new)
                                    ch = True
        defs = {}
        for i, b in enumerate(f.blocks):
            for s in b['s']:
                if s[0] == '=' and len(s[1]) == 1:
                    defs.setdefault(s[1][0], set()).add(i)
            if b['t'][0] == 'call' and b['t'][3] is not None and len(b['t'][3]) == 1:
                defs.setdefault(b['t'][3][0], set()).add(i)
        auto = {i for i, t in enumerate(muts) if HASHITER.search(t) and '&mut' not in t[:4]}
        r = dict(pts=pts, tgt=tgt, ty=muts, lens=lens, defs=defs, auto=auto, loops=f.loops() if f.blocks else {})
        self.info[f.id] = r
        return r

    # ------------------------------------------------------------- analysis of one body
    def analyse(self, f, args):
        """args: marks per argument -> (marks of the result by sub-path, marks added to each argument)"""
        key = (f.id, tuple(args))
        if key in self.memo:
            return self.memo[key]
        if key in self.stack or len(self.stack) > 14:
            return {(): frozenset('U') if any(args) else NONE}, {}
        self.stack.append(key)
        try:
            r = Body(self, f, args).run()
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r


class Body:
    def __init__(self, ho, f, args):
        self.ho, self.f, self.c = ho, f, ho.c
        i = ho.fninfo(f)
        self.pts, self.tgt, self.ty, self.lens, self.defs, self.auto, self.loops = i['pts'], i['tgt'], i['ty'], i['lens'], i['defs'], i['auto'], i['loops']
        self.init = {}
        for n in range(f.argc):
            if n < len(args) and args[n]:
                self.init[(n + 1,)] = args[n]
        self.gen = set()
        self.site = {}
        self.counted = {}

    def hashloops(self, b):
        return [body for h, body in self.loops.items() if b in body and body & self.gen]

    # -------------------------------------------------- places
    def read(self, st, place, b):
        m = set()
        for k in self.tgt(place):
            for q, v in st.items():
                n = min(len(q), len(k))
                if q[:n] == k[:n]:
                    m |= v
        # the reference itself carries what it was made from
        r = (place[0],)
        if r in st:
            m |= st[r]
        if place[0] in self.auto:
            m.add('S')
        for p in place[1:]:
            if p[0] not in ('*', 'f', 'd') and 'S' in m and not SETTY.match(self.ty[place[0]]):
                m = self.pick(m, b, index=True)
        return frozenset(m)

    def pick(self, m, b, index=False):
        """one element of a sequence"""
        if 'S' not in m:
            return set(m)
        r = set(m) - {'S', 'P', 'T'}
        if 'T' in m:
            r.add('E')
        inl = any(b in body for body in self.loops.values())
        if inl:
            self.gen.add(b)
            r.add('L')
            if 'P' in m:
                r.add('C')
        elif self.lens:
            r.add('U')
        else:
            r.add('E')
        return r

    def write(self, st, place, marks, b):
        ks = self.tgt(place)
        strong = len(ks) == 1 and all(p[0] in ('f', 'd') for p in place[1:])
        t = self.ty[place[0]] if len(place) == 1 else ''
        if BTREE.match(t) or HASHTY.match(t):
            marks = set(marks) - ({'S', 'L'} if 'Vec<' not in t else set())
        elif t and SCALAR.match(t):
            if 'S' in marks:
                marks = (set(marks) - {'S', 'P', 'T'}) | {'U'}
        marks = frozenset(marks)
        for k in ks:
            if strong:
                for q in [q for q in st if q[:len(k)] == k]:
                    del st[q]
                if marks:
                    st[k] = marks
            elif marks:
                st[k] = st.get(k, NONE) | marks

    def grow(self, st, place, marks, b, elem=True):
        """marks of a value stored into what place refers to"""
        marks = set(marks)
        for k in self.tgt(place + [['*']]):
            m = set(marks)
            if 'L' in m and k[0] > self.f.argc or 'L' in m and k[0] == 0 or 'L' in m and self.hashloops(b):
                out = [body for body in self.hashloops(b) if not (self.defs.get(k[0], set()) & body)]
                if out:
                    m.discard('L')
                    m.add('S')
            m.discard('C')
            if m:
                st[k] = st.get(k, NONE) | frozenset(m)

    def clear(self, st, place):
        for k in list(self.tgt(place + [['*']])) + [(place[0],)]:
            for q in [q for q in st if q[:len(k)] == k]:
                m = st[q]
                if 'S' in m:
                    m = (m - {'S', 'P', 'T'}) | ({'E'} if 'P' in m else set())
                    st[q] = frozenset(m)

    def op(self, st, o, b):
        if o[0] not in ('copy', 'move'):
            return NONE
        m = self.read(st, o[1], b)
        # what a mutable reference refers to
        seen, work = set(), [k for k in self.tgt(o[1])]
        while work:
            k = work.pop()
            for q in self.pts.get(k, ()):
                if q not in seen:
                    seen.add(q)
                    work.append(q)
        for k in seen:
            if k[0] in self.auto:
                m = m | {'S'}
            for q, v in st.items():
                n = min(len(q), len(k))
                if q[:n] == k[:n]:
                    m = m | v
        return m

    # -------------------------------------------------- run
    def run(self):
        f = self.f
        if not f.blocks:
            return {(): NONE}, {}
        for _ in range(4):
            g = set(self.gen)
            states = {0: dict(self.init)}
            work, n = [0], 0
            while work and n < 4000:
                n += 1
                b = work.pop(0)
                st = dict(states[b])
                self.block(st, b)
                for s in f.succs(b):
                    if f.blocks[s].get('cl'):
                        continue
                    old = states.get(s)
                    if old is None:
                        states[s] = dict(st)
                        work.append(s)
                    else:
                        ch = False
                        for k, v in st.items():
                            if not v <= old.get(k, NONE):
                                old[k] = old.get(k, NONE) | v
                                ch = True
                        if ch and s not in work:
                            work.append(s)
            if self.gen == g:
                break
        ret, out = {}, {}
        for b, st in states.items():
            if f.blocks[b]['t'][0] == 'return':
                st = dict(st)
                for s in f.blocks[b]['s']:
                    self.stmt(st, s, b)
                for k, v in st.items():
                    if k[0] == 0:
                        ret[k[1:]] = ret.get(k[1:], NONE) | v
                    elif k[0] <= f.argc:
                        d = v - self.init.get((k[0],), NONE)
                        if d and '&' in self.ty[k[0]] or d and f.kind == 'Closure':
                            out.setdefault(k[0], {})
                            out[k[0]][k[1:]] = out[k[0]].get(k[1:], NONE) | d
        if 0 in self.auto:
            ret[()] = ret.get((), NONE) | {'S'}
        return ret, out

    def block(self, st, b):
        blk = self.f.blocks[b]
        for s in blk['s']:
            self.stmt(st, s, b)
        if blk['t'][0] == 'call':
            self.call(st, blk['t'], b, blk.get('sp'))

    def stmt(self, st, s, b):
        if s[0] != '=':
            return
        dst, rv = s[1], s[2]
        k = rv[0]
        if k == 'use':
            o = rv[1]
            if o[0] in ('copy', 'move') and len(dst) == 1 and len(self.tgt(o[1])) == 1:
                # field-wise copy
                src = next(iter(self.tgt(o[1])))
                subs = {q[len(src):]: v for q, v in st.items() if q[:len(src)] == src and len(q) > len(src)}
                m = set()
                for q, v in st.items():
                    if q == src[:len(q)]:
                        m |= v
                if o[1][0] in self.auto:
                    m.add('S')
                if any(p[0] not in ('*', 'f', 'd') for p in o[1][1:]):
                    m = self.read(st, o[1], b)
                self.write(st, dst, m, b)
                for q, v in subs.items():
                    st[(dst[0],) + q] = v
            else:
                self.write(st, dst, self.op(st, o, b), b)
        elif k == 'ref' or k == 'rawptr':
            pl = rv[2] if isinstance(rv[2], list) else rv[1]
            # a mutable reference is looked through
            if k == 'ref' and rv[1] == 'mut' or k == 'rawptr':
                self.write(st, dst, NONE, b)
            else:
                self.write(st, dst, self.read(st, pl, b), b)
        elif k == 'agg':
            ms = [self.op(st, o, b) for o in rv[2]]
            a = rv[1].get('a')
            if a in ('tuple', 'adt', 'closure') and len(dst) == 1:
                self.write(st, dst, NONE, b)
                for i, m in enumerate(ms):
                    if a != 'closure' and 'C' in m and any('L' in x and 'C' not in x for x in ms):
                        m = m | {'E'}
                    if m:
                        kk = (dst[0], i)
                        st[kk] = m
            else:
                self.write(st, dst, frozenset(set().union(*ms)) if ms else NONE, b)
        elif k == 'bin':
            ms = [self.op(st, o, b) for o in rv[1:] if isinstance(o, list) and o and o[0] in ('copy', 'move', 'const')]
            m = set().union(*ms) if ms else set()
            name = next((x for x in rv[1:] if isinstance(x, str)), '')
            if name in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                m = {'U'} if m & set('SEU') else set()
            elif self.hashloops(b) and name.startswith(('Add', 'Sub', 'Mul')) and self.selfinc(dst, rv, b):
                m.add('C')
            self.write(st, dst, m, b)
        elif k in ('un', 'len', 'discr'):
            m = set()
            for o in rv[1:]:
                if isinstance(o, list) and o and o[0] in ('copy', 'move'):
                    m |= self.op(st, o, b)
                elif isinstance(o, list) and o and isinstance(o[0], int):
                    m |= self.read(st, o, b) if k == 'un' else set()
            if k == 'discr':
                m = set()
            self.write(st, dst, m, b)
        elif k == 'cast':
            m = set(self.op(st, rv[2], b))
            fr = self.c.tstr(rv[4]) if len(rv) > 4 and isinstance(rv[4], int) else ''
            if 'Expose' in rv[1] or rv[1] == 'PtrToInt' or (fr.startswith('*') and SCALAR.match(self.c.tstr(rv[3])) and rv[1] == 'Transmute'):
                m.add('E')
                self.ho.sites[(self.f.path, s[3])] = 'an address becomes a number'
            self.write(st, dst, m, b)
        else:
            m = set()
            for o in rv[1:]:
                if isinstance(o, list) and o and o[0] in ('copy', 'move'):
                    m |= self.op(st, o, b)
            self.write(st, dst, m, b)

    def selfinc(self, dst, rv, b):
        """x = x + .. inside a loop over a hash order: a counter"""
        for o in rv[1:]:
            if isinstance(o, list) and o and o[0] in ('copy', 'move') and len(o[1]) == 1:
                l = o[1][0]
                for body in self.hashloops(b):
                    if any(d in body for d in self.defs.get(l, ())) and any(d not in body for d in self.defs.get(l, ())):
                        return True
        return False

    def closure_of(self, o):
        if o[0] not in ('copy', 'move'):
            return None
        t = self.ty[o[1][0]]
        if 'closure' not in t:
            return None
        for b in self.f.blocks:
            for s in b['s']:
                if s[0] == '=' and s[1] == [o[1][0]] and s[2][0] == 'agg' and s[2][1].get('a') == 'closure':
                    return s[2][1]['id'], s[2][2], o[1][0]
        return None

    def outs(self, st, o, subs, b, seq):
        """marks a callee added to what argument o refers to"""
        for sub, m in subs.items():
            m = set(m)
            if 'L' in m and seq:
                m.discard('L')
                m.add('S')
            if o[0] not in ('copy', 'move'):
                continue
            place = o[1]
            if sub and isinstance(sub[0], int) and (place[0],) + sub[:1] in self.pts:
                tg = self.pts[(place[0],) + sub[:1]]
                for k in tg:
                    mm = set(m)
                    if 'L' in mm and any(not (self.defs.get(k[0], set()) & body) for body in self.hashloops(b)):
                        mm = (mm - {'L'}) | {'S'}
                    st[k] = st.get(k, NONE) | frozenset(mm)
            else:
                self.grow(st, place, m, b)

    def call(self, st, t, b, sp):
        c, args, dst = t[1], t[2], t[3]
        fn = c[1] if c[0] == 'const' else {}
        path = fn.get('path', '')
        nm = last(path)
        ms = [self.op(st, a, b) for a in args]
        tys = [self.ty[a[1][0]] if a[0] in ('copy', 'move') else '' for a in args]
        allm = frozenset(set().union(*ms)) if ms else NONE
        rt = self.ty[dst[0]] if dst is not None and len(dst) == 1 else ''
        if WILD.search(strip_generics(path)) or WILD.search(strip_generics(fn.get('res_path') or '')):
            self.ho.sites[(self.f.path, sp)] = last(path)
            self.done(st, dst, {'E'}, b)
            return
        if path.endswith('new_pointer'):
            self.done(st, dst, {'E'}, b)
            return
        callee = fn.get('res') if fn.get('res_local') else (fn.get('id') if fn.get('local') else None)
        g = self.c.by_id.get(callee)
        if g is not None and g.blocks:
            ret, out = self.ho.analyse(g, tuple(frozenset(m) for m in ms))
            if dst is not None:
                self.write(st, dst, ret.get((), NONE), b)
                for sub, m in ret.items():
                    if sub and m and len(dst) == 1:
                        k = (dst[0],) + sub
                        st[k] = st.get(k, NONE) | m
                    elif sub and m:
                        self.write(st, dst, self.read(st, dst, b) | m, b)
            for i, subs in out.items():
                if i - 1 < len(args):
                    self.outs(st, args[i - 1], subs, b, False)
            return
        recv = ms[0] if ms else NONE
        rty = tys[0] if tys else ''
        hashrecv = HASHTY.match(rty)
        if hashrecv and nm in ('iter', 'into_iter', 'keys', 'values', 'drain', 'into_keys', 'into_values', 'iter_mut', 'values_mut') or (HASHITER.search(rt) and not allm & {'S'}):
            self.ho.sites[(self.f.path, sp)] = nm
        # closures
        cres = NONE
        for i, a in enumerate(args):
            cl = self.closure_of(a)
            if cl is None:
                continue
            cf = self.c.by_id.get(cl[0])
            if cf is None or not cf.blocks:
                continue
            cap = frozenset(set().union(*[self.op(st, o, b) for o in cl[1]])) if cl[1] else NONE
            seq = any('S' in m for j, m in enumerate(ms) if j != i)
            em = set()
            for j, m in enumerate(ms):
                if j != i:
                    em |= m
            if seq:
                em = (em - {'S'}) | {'L'}
                em.discard('P')
            key = tuple([cap] + [frozenset(em)] * (cf.argc - 1))
            ret, out = self.ho.analyse(cf, key)
            r = set()
            for m in ret.values():
                r |= m
            cres = cres | frozenset(r)
            for idx, subs in out.items():
                if idx == 1:
                    self.outs(st, a, subs, b, seq)
        r = set()
        # ---- growing containers
        if nm in GROW and args and (rty.startswith('&mut') or '&mut' in rty) and nm not in ('hash',):
            vals = set().union(*ms[1:]) if len(ms) > 1 else set()
            if nm in ('extend', 'append') and any(HASHTY.match(x) for x in tys[1:]) and not SETTY.match(self.ty_of_target(args[0])):
                self.ho.sites[(self.f.path, sp)] = nm
                vals.add('S')
            place = args[0][1] if args[0][0] in ('copy', 'move') else None
            base = self.ty_of_target(args[0])
            if place is not None:
                if SETTY.match(base) or SETTY.match(rty):
                    if nm == 'insert' and len(ms) == 3:
                        add = set(ms[2]) - {'L', 'C'}
                        if 'L' in ms[1] and 'C' in ms[2]:
                            add.add('E')
                        elif 'L' in ms[2] and 'L' not in ms[1]:
                            add.add('U')
                        if 'E' in ms[1]:
                            add.add('E')
                    elif nm == 'extend':
                        add = (vals - {'S', 'L', 'P', 'T'}) | ({'E'} if 'P' in vals else set())
                    else:
                        add = vals - {'L', 'S', 'C'}
                        if {'L', 'C', 'E'} <= vals:
                            add.add('E')
                    if add:
                        self.grow(st, place, add, b)
                else:
                    self.grow(st, place, vals, b)
            self.done(st, dst, set(), b)
            return
        if nm in ('hash', 'fmt') and len(args) == 2:
            if args[1][0] in ('copy', 'move') and ms[0]:
                self.grow(st, args[1][1], ms[0], b)
            self.done(st, dst, set(), b)
            return
        if nm in ('_print', '_eprint') and allm:
            if 'S' in allm or 'E' in allm or ('L' in allm and self.hashloops(b)):
                self.ho.prints.append((self.f, sp))
        if nm in SORTS:
            if rty.startswith('&mut'):
                self.clear(st, args[0][1])
                self.done(st, dst, set(), b)
            else:
                r = set(recv) - {'S', 'P', 'L', 'T'}
                if 'P' in recv:
                    r.add('E')
                if 'E' in cres:
                    r.add('E')
                self.done(st, dst, r, b)
            return
        if nm in KEYSORTS:
            v = self.keysort(args, nm)
            if v == 'clean':
                if rty.startswith('&mut'):
                    self.clear(st, args[0][1])
                r = set(recv) - {'S', 'P', 'T'}
            elif v == 'part':
                r = set(recv)
            else:
                if rty.startswith('&mut'):
                    had = 'S' in recv
                    self.clear(st, args[0][1])
                    if had:
                        self.grow(st, args[0][1], {'U'}, b)
                r = (set(recv) - {'S', 'P', 'T'}) | ({'U'} if 'S' in recv else set())
            self.done(st, dst, r if not rty.startswith('&mut') else set(), b)
            return
        if nm == 'with_capacity' or nm in CLEAN:
            r = {'E'} if 'E' in cres and 'S' not in allm else set()
            if nm in ('max', 'min', 'sum', 'product') and recv & {'E', 'U'}:
                r |= recv & {'E', 'U'}
            if nm in ('eq', 'ne') and any('S' in m for m in ms) and not any(HASHTY.match(x) for x in tys):
                r = {'U'}
            if nm == 'len' and self.hashloops(b) and args and args[0][0] in ('copy', 'move') and self.grown(args[0], b):
                r = {'C'}
            self.done(st, dst, r, b)
            return
        if nm in PICK and ('S' in recv):
            r = self.pick(recv, b)
            if 'P' in recv:
                r.add('C')
            if nm in ('next', 'next_back') and not any(b in body for body in self.loops.values()):
                pass
            if nm in ('remove', 'swap_remove') and SETTY.match(rty):
                r = set(recv)
            self.done(st, dst, r, b)
            return
        if nm in SEARCH and 'S' in recv:
            self.done(st, dst, {'U'}, b)
            return
        if nm in ('index', 'index_mut') and 'S' in recv:
            if SETTY.match(rty):
                r = set(recv)
            elif len(tys) > 1 and 'Range' in tys[1]:
                r = set(recv) | {'P'}
            else:
                r = self.pick(recv, b, index=True)
            self.done(st, dst, r, b)
            return
        if nm in ('extend', 'chain', 'zip', 'from_iter', 'interleave', 'merge', 'sorted', 'sorted_by', 'sorted_by_key', 'join') or nm in ('flat_map', 'flatten') and re.search(r'Hash(Set|Map)<', rt):
            # a set given by value is iterated inside
            if any(HASHTY.match(x) for x in tys) or nm in ('flat_map', 'flatten'):
                self.ho.sites[(self.f.path, sp)] = nm
                allm = allm | {'S'}
        if nm in POS and 'S' in allm:
            self.done(st, dst, set(allm) | {'P'} | cres | ({'T'} if nm in TRUNC else set()), b)
            return
        if nm in ('collect', 'from_iter', 'from', 'collect_vec', 'into', 'try_collect') and (SETTY.match(rt) or re.match(r'^std::(option::Option|result::Result)<std::collections::(Hash|BTree)', rt)):
            r = (set(allm) - {'S', 'P', 'L', 'T'})
            if 'P' in allm or 'E' in cres:
                r.add('E')
            self.done(st, dst, r, b)
            return
        if nm in ('replace', 'swap', 'take') and rty.startswith('&mut') and 'Iterator' not in path:
            r = set(recv)
            if nm == 'swap' and len(args) == 2:
                self.grow(st, args[1][1], ms[0], b)
                self.grow(st, args[0][1], ms[1], b)
            elif len(args) == 2:
                self.grow(st, args[0][1], ms[1], b)
            self.done(st, dst, r, b)
            return
        if 'S' in allm and nm not in PASS and not fn.get('trait', '').startswith(('std::iter::Iterator', 'itertools', 'std::ops')) and nm not in ('new_display', 'new_debug', 'new_v1', 'format'):
            r = (set(allm) - {'S', 'P', 'T'}) | {'U'} if not HASHITER.search(rt) else set(allm)
        else:
            r = set(allm)
            if 'S' not in r and 'E' in cres:
                r.add('E')
            if 'S' in cres and 'S' not in r:
                r |= {'S'}
            if 'S' in r and 'E' in cres:
                r.add('E')
        if SCALAR.match(rt):
            r = {'U'} if r & {'S', 'U', 'E'} else (r if not rt.startswith('bool') else set())
        if nm in ('map', 'filter_map', 'flat_map') and 'P' in recv and 'C' not in cres and 'E' not in cres:
            pass
        self.done(st, dst, r, b)

    def grown(self, o, b):
        base = {k[0] for k in self.tgt(o[1] + [['*']])}
        for body in self.hashloops(b):
            for x in body:
                t = self.f.blocks[x]['t']
                if t[0] == 'call' and t[2] and t[2][0][0] in ('copy', 'move') and t[1][0] == 'const' and last(t[1][1].get('path', '')) in GROW:
                    if {k[0] for k in self.tgt(t[2][0][1] + [['*']])} & base or True and self.ty_of_target(t[2][0]) == self.ty_of_target(o):
                        return True
        return False

    def ty_of_target(self, o):
        if o[0] not in ('copy', 'move'):
            return ''
        t = self.ty[o[1][0]]
        return re.sub(r"^(&('\w+ )?(mut )?)+", '', t)

    def done(self, st, dst, marks, b):
        if dst is not None:
            self.write(st, dst, frozenset(marks), b)

    # -------------------------------------------------- key functions of sorts
    def keysort(self, args, nm):
        """'clean' when the key determines the element, 'part' when it is a proper part of a tuple or struct, else 'unknown'"""
        for a in args[1:]:
            cl = self.closure_of(a)
            if cl is None:
                # a named function: the comparison of the whole element
                if a[0] == 'const' and re.search(r'(Ord::cmp|PartialOrd::partial_cmp|Clone::clone)$', strip_generics(a[1].get('path', ''))):
                    return 'clean'
                continue
            cf = self.c.by_id.get(cl[0])
            if cf is None:
                return 'unknown'
            proj, other = projections(cf)
            ety = self.c.tstr(cf.locals[2]['ty']) if cf.argc >= 2 else ''
            ety = re.sub(r"^(&('\w+ )?(mut )?)+", '', ety)
            if other:
                return 'part' if only_len(cf) else 'unknown'
            if not proj or () in proj:
                return 'clean'
            hm = any('hash_map::Iter' in t or 'hash_map::IntoIter' in t for t in [self.ty[args[0][1][0]]])
            if hm and any(p[:1] == (0,) and len(p) == 1 for p in proj):
                return 'clean'
            n = arity(self.c, ety)
            if n is None:
                return 'unknown'
            if {p[0] for p in proj} >= set(range(n)):
                return 'unknown'
            if hm:
                return 'unknown' if (0,) in {p[:1] for p in proj} else 'part'
            return 'part'
        return 'unknown'


def only_len(cf):
    """the key is a length"""
    ns = [last(b['t'][1][1].get('path', '')) for b in cf.blocks if b['t'][0] == 'call' and b['t'][1][0] == 'const']
    return bool(ns) and 'len' in ns and set(ns) <= {'len', 'cmp', 'partial_cmp', 'deref', 'as_slice', 'unwrap', 'reverse'}


def arity(c, t):
    if t.startswith('('):
        d, n = 0, 1
        for ch in t[1:-1]:
            if ch in '(<[':
                d += 1
            elif ch in ')>]':
                d -= 1
            elif ch == ',' and d == 0:
                n += 1
        return n
    k = strip_generics(t)
    for p, a in c.adts.items():
        if strip_generics(p).endswith(k) and k:
            vs = a.get('variants') or []
            if len(vs) == 1:
                fs = vs[0].get('fields') or []
                ns = [x for x in fs if 'PhantomData' not in str(c.tstr(x['ty']) if isinstance(x, dict) and isinstance(x.get('ty'), int) else '')]
                return len(ns)
    return None


def projections(cf):
    """the field paths of the element parameters a key function reads; other = it calls something that is not a comparison or copy"""
    src = {}
    for a in range(2, cf.argc + 1):
        src[a] = ()
    proj, other = set(), False
    for _ in range(6):
        for b in cf.blocks:
            for s in b['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                pl = None
                if rv[0] == 'use' and rv[1][0] in ('copy', 'move'):
                    pl = rv[1][1]
                elif rv[0] == 'ref':
                    pl = rv[2]
                if pl is not None and pl[0] in src and len(s[1]) == 1:
                    src[s[1][0]] = src[pl[0]] + tuple(p[1] for p in pl[1:] if p[0] == 'f')
            t = b['t']
            if t[0] == 'call' and t[3] is not None and len(t[3]) == 1 and t[1][0] == 'const':
                nm = last(t[1][1].get('path', ''))
                if nm in ('clone', 'deref', 'as_ref', 'borrow', 'as_str', 'as_slice') and t[2][0][0] in ('copy', 'move') and t[2][0][1][0] in src:
                    src[t[3][0]] = src[t[2][0][1][0]]
    used = False
    if 0 in src:
        proj.add(src[0])
        used = True
    for b in cf.blocks:
        if b.get('cl'):
            continue
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'const':
            nm = last(t[1][1].get('path', ''))
            if nm in ('cmp', 'partial_cmp', 'then', 'then_with', 'unwrap', 'reverse', 'clone', 'deref', 'as_ref', 'borrow', 'as_str', 'as_slice'):
                if nm in ('cmp', 'partial_cmp'):
                    for o in t[2]:
                        if o[0] in ('copy', 'move') and o[1][0] in src:
                            proj.add(src[o[1][0]])
                            used = True
                        else:
                            other = True
                if nm == 'then_with':
                    other = True
            else:
                other = True
        for s in b['s']:
            if s[0] == '=' and s[1] == [0] and s[2][0] == 'agg':
                for o in s[2][2]:
                    if o[0] in ('copy', 'move') and o[1][0] in src:
                        proj.add(src[o[1][0]])
                        used = True
                    else:
                        other = True
    return proj, other or not used
