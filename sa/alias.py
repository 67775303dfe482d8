"""References into interior-mutable cells: who makes them, how long they live, and what may replace the cell meanwhile.

A cell is a field of UnsafeCell type.  Its address comes from UnsafeCell::get; references made by dereferencing that
address are followed through copies, aggregates and calls whose result type can hold a reference.  A reference is in use at
a point when some later statement reads it (liveness).  Replacing the content (assignment, drop or unique reborrow through
the address, directly or in a callee) while such a reference is in use is the fault; so is making a unique reference while
another one is in use."""
from .engine import callees

GET = ('get', 'raw_get', 'as_ptr')


def place_locals(p):
    out = [p[0]]
    for e in p[1:]:
        if isinstance(e, list) and e and e[0] == 'i':
            out += [x for x in e[1:] if isinstance(x, int)][:1]
    return out


def operands(x, out):
    """places read in an rvalue or operand"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ('copy', 'move') and isinstance(x[1], list):
            out.append(x[1])
            return
        if x and x[0] in ('ref', 'rawptr') and len(x) == 3 and isinstance(x[2], list):
            out.append(x[2])
            return
        if x and x[0] in ('discr', 'len') and isinstance(x[1], list):
            out.append(x[1])
            return
        for y in x:
            operands(y, out)


class Fault(Exception):
    pass


class Flow:
    def __init__(self, crate):
        self.crate = crate
        self.cells = {}
        for path, a in crate.adts.items():
            for v in a['variants']:
                for i, fd in enumerate(v['fields']):
                    if fd.get('ty') is not None and 'UnsafeCell<' in crate.tstr(fd['ty']):
                        self.cells[(path, i)] = fd['name']
        self.reads, self.writes, self.ret = {}, {}, {}
        self.per = {}
        for f in crate.fns:
            self.per[f.id] = Body(self, f)
        # transitive effects, and references handed out
        for f in crate.fns:
            self.ret[f.id] = {}
        for _ in range(4):
            for f in crate.fns:
                self.per[f.id].derive()
        edges = {f.id: {r.get('res') or r['id'] for r in callees(f)} for f in crate.fns}
        for f in crate.fns:
            b = self.per[f.id]
            self.reads[f.id] = set(b.myreads)
            self.writes[f.id] = set(b.mywrites)
        ch = True
        while ch:
            ch = False
            for f in crate.fns:
                for g in edges[f.id]:
                    if g in self.writes:
                        for m in (self.reads, self.writes):
                            if not m[g] <= m[f.id]:
                                m[f.id] |= m[g]
                                ch = True

    def closures(self, ty, seen=None):
        seen = set() if seen is None else seen
        if ty in seen:
            return set()
        seen.add(ty)
        t = self.crate.types[ty]
        out = set()
        if t.get('k') == 'closure':
            out.add(t['id'])
        for y in list(t.get('args') or ()) + ([t['t']] if isinstance(t.get('t'), int) else []):
            if isinstance(y, int):
                out |= self.closures(y, seen)
        return out


class Body:
    def __init__(self, flow, f):
        self.flow, self.f, self.c = flow, f, flow.crate
        self.raw = {}             # local -> {cell}
        self.bor = {}             # local -> {cell: 'mut' | 'shared'}
        self.myreads, self.mywrites = set(), set()

    def holds(self, local):
        s = self.c.tstr(self.f.locals[local]['ty'])
        return '&' in s or "'" in s or '*' in s or '{closure' in s

    def cellof(self, place):
        """cell whose UnsafeCell the place is"""
        t = self.f.locals[place[0]]['ty']
        for i, e in enumerate(place[1:]):
            ty = self.c.types[t]
            if e == ['*'] or e == '*':
                t = ty.get('t', t)
                continue
            if isinstance(e, list) and e and e[0] == 'f':
                while ty.get('k') == 'ref':
                    ty = self.c.types[ty['t']]
                k = (ty.get('path'), e[1])
                if k in self.flow.cells:
                    return k
                t = e[2]
        return None

    def add(self, m, local, cells, kind=None):
        if kind is None:
            d = m.setdefault(local, set())
            n = len(d)
            d |= cells
            return len(d) != n
        d = m.setdefault(local, {})
        ch = False
        for c in cells:
            if d.get(c) != 'mut' and d.get(c) != kind:
                d[c] = kind
                ch = True
        return ch

    def src(self, place):
        """(raw cells, borrows) carried by reading the place"""
        l = place[0]
        return self.raw.get(l, set()), self.bor.get(l, {})

    def call(self, t):
        fn = t[1][1] if t[1][0] == 'const' else None
        return fn if isinstance(fn, dict) and fn.get('c') == 'fn' else None

    def derive(self):
        f = self.f
        for _ in range(12):
            ch = False
            for b in f.blocks:
                if b['cl']:
                    continue
                for s in b['s']:
                    if s[0] != '=':
                        continue
                    dst, rv = s[1], s[2]
                    d = dst[0]
                    if rv[0] in ('ref', 'rawptr'):
                        p = rv[2]
                        raw, bor = self.src(p)
                        deref = any(e in ('*', ['*']) for e in p[1:])
                        kind = 'mut' if rv[1] in ('mut', 'Mut') else 'shared'
                        if raw and deref:
                            if rv[0] == 'rawptr':
                                ch |= self.add(self.raw, d, raw)
                            else:
                                ch |= self.add(self.bor, d, raw, kind)
                                (self.mywrites if kind == 'mut' else self.myreads).update(raw)
                        elif raw:
                            ch |= self.add(self.raw, d, raw)
                        for c, k in bor.items():
                            ch |= self.add(self.bor, d, {c}, 'mut' if k == 'mut' and kind == 'mut' else 'shared')
                        if rv[0] == 'rawptr' and self.cellof(p):
                            ch |= self.add(self.raw, d, {self.cellof(p)})
                        continue
                    ps = []
                    operands(rv, ps)
                    if rv[0] == 'discr':
                        for p in ps:
                            if self.raw.get(p[0]) and any(e in ('*', ['*']) for e in p[1:]):
                                self.myreads |= self.raw[p[0]]
                        continue
                    for p in ps:
                        raw, bor = self.src(p)
                        deref = any(e in ('*', ['*']) for e in p[1:])
                        if raw and deref:
                            self.myreads |= raw
                        elif raw:
                            ch |= self.add(self.raw, d, raw)
                        if bor and self.holds(d):
                            for c, k in bor.items():
                                ch |= self.add(self.bor, d, {c}, k)
                    if len(dst) > 1 and self.raw.get(d) and any(e in ('*', ['*']) for e in dst[1:]):
                        self.mywrites |= self.raw[d]
                t = b['t']
                if t[0] == 'drop' and self.raw.get(t[1][0]) and any(e in ('*', ['*']) for e in t[1][1:]):
                    self.mywrites |= self.raw[t[1][0]]
                if t[0] != 'call':
                    continue
                fn = self.call(t)
                d = t[3][0]
                path = (fn or {}).get('path', '')
                args = []
                for a in t[2]:
                    operands(a, args)
                if fn and 'UnsafeCell' in path and path.split('::')[-1] in GET:
                    for a in args:
                        k = self.cellof_arg(a[0])
                        if k:
                            ch |= self.add(self.raw, d, {k})
                    continue
                rid = (fn or {}).get('res') or (fn or {}).get('id')
                for c, k in self.flow.ret.get(rid, {}).items():
                    if k in ('raw',):
                        ch |= self.add(self.raw, d, {c})
                    else:
                        ch |= self.add(self.bor, d, {c}, k)
                last = path.split('::')[-1]
                for a in args:
                    raw, bor = self.src(a)
                    if raw and not any(e in ('*', ['*']) for e in a[1:]):
                        if last in ('as_ref', 'as_ref_unchecked') and 'ptr' in path:
                            ch |= self.add(self.bor, d, raw, 'shared')
                            self.myreads |= raw
                        elif last in ('as_mut', 'as_mut_unchecked') and 'ptr' in path:
                            ch |= self.add(self.bor, d, raw, 'mut')
                            self.mywrites |= raw
                        elif rid not in self.flow.per:
                            if last in ('write', 'replace', 'swap', 'drop_in_place', 'take'):
                                self.mywrites |= raw
                            elif last in ('read',):
                                self.myreads |= raw
                            elif self.holds(d):
                                ch |= self.add(self.raw, d, raw)
                    if bor and self.holds(d) and not (rid in self.flow.per and not self.lends(rid)):
                        for c, k in bor.items():
                            ch |= self.add(self.bor, d, {c}, k)
            if not ch:
                break
        r = {}
        for c in self.raw.get(0, ()):
            r[c] = 'raw'
        for c, k in self.bor.get(0, {}).items():
            if self.holds(0):
                r[c] = k
        self.flow.ret[f.id] = r

    def lends(self, rid):
        return True

    def cellof_arg(self, local):
        """the UnsafeCell a reference local points to"""
        for b in self.f.blocks:
            for s in b['s']:
                if s[0] == '=' and s[1] == [local] and s[2][0] in ('ref', 'rawptr'):
                    k = self.cellof(s[2][2])
                    if k:
                        return k
                if s[0] == '=' and s[1] == [local] and s[2][0] == 'use' and s[2][1][0] in ('copy', 'move') and s[2][1][1] != [local]:
                    return self.cellof_arg(s[2][1][1][0])
        return None

    # ------------------------------------------------------------ liveness
    def liveness(self):
        f = self.f
        n = len(f.blocks)
        gen = [None] * n
        live_in = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                if f.blocks[b]['cl']:
                    continue
                out = set()
                for s in f.succs(b):
                    if s is not None:
                        out |= live_in[s]
                i = self.through(b, out)
                if i != live_in[b]:
                    live_in[b] = i
                    ch = True
        self.live_in = live_in

    def after_term(self, b):
        out = set()
        for s in self.f.succs(b):
            if s is not None:
                out |= self.live_in[s]
        if self.f.blocks[b]['t'][0] == 'return':
            out = {0}
        return out

    def through(self, b, out, visit=None):
        """live before block b given live after; visit(position, live after position)"""
        f = self.f
        blk = f.blocks[b]
        t = blk['t']
        live = set(out)
        if t[0] == 'return':
            live = {0}
        if visit:
            visit(('t', t), set(live))
        if t[0] == 'call':
            if len(t[3]) == 1:
                live.discard(t[3][0])
            else:
                live.add(t[3][0])
            ps = []
            operands(t[2], ps)
            operands(t[1], ps)
            for p in ps:
                live.update(place_locals(p))
        elif t[0] == 'drop':
            if len(t[1]) > 1:
                live.update(place_locals(t[1]))
        elif t[0] != 'return':
            ps = []
            operands(t[1:], ps)
            for p in ps:
                live.update(place_locals(p))
        for s in reversed(blk['s']):
            if visit:
                visit(('s', s), set(live))
            if s[0] == '=':
                if len(s[1]) == 1:
                    live.discard(s[1][0])
                else:
                    live.update(place_locals(s[1]))
                ps = []
                operands(s[2], ps)
                for p in ps:
                    live.update(place_locals(p))
            elif s[0] in ('live', 'dead'):
                live.discard(s[1])
        return live

    # ------------------------------------------------------------ conflicts
    def events(self, pos):
        """[(cell, 'write' | 'read', description, excluded locals)]"""
        k, s = pos
        out = []
        if k == 's' and s[0] == '=':
            dst, rv = s[1], s[2]
            star = lambda p: any(e in ('*', ['*']) for e in p[1:])
            if rv[0] == 'ref' and self.raw.get(rv[2][0]) and star(rv[2]):
                for c in self.raw[rv[2][0]]:
                    out.append((c, 'write' if rv[1] == 'mut' else 'read', 'borrowed again' if rv[1] == 'mut' else 'read', {dst[0]}, s[3] if len(s) > 3 else ''))
            if len(dst) > 1 and self.raw.get(dst[0]) and star(dst):
                for c in self.raw[dst[0]]:
                    out.append((c, 'write', 'replaced', set(), s[3] if len(s) > 3 else ''))
        elif k == 't':
            if s[0] == 'drop' and self.raw.get(s[1][0]) and any(e in ('*', ['*']) for e in s[1][1:]):
                for c in self.raw[s[1][0]]:
                    out.append((c, 'write', 'replaced', set(), ''))
            if s[0] == 'call':
                fn = self.call(s)
                rid = (fn or {}).get('res') or (fn or {}).get('id')
                ids = {rid} if rid in self.flow.per else set()
                ps = []
                operands(s[2], ps)
                for p in ps:
                    ids |= {i for i in self.flow.closures(self.f.locals[p[0]]['ty']) if i in self.flow.per}
                sp = s[5] if len(s) > 5 and isinstance(s[5], str) else ''
                for i in ids:
                    g = self.flow.per[i].f
                    # what a callee lends out of the same cell is not its effect on other references
                    for c in self.flow.writes[i]:
                        out.append((c, 'write', 'may be replaced by %s' % g.short, {s[3][0]}, sp))
                    for c in self.flow.reads[i] - self.flow.writes[i]:
                        out.append((c, 'read', 'is read by %s' % g.short, {s[3][0]}, sp))
        return out

    def args_of(self, pos):
        k, s = pos
        if k == 't' and s[0] == 'call':
            ps = []
            operands(s[2], ps)
            return {p[0] for p in ps}
        return set()

    def check(self):
        """[(cell, kind, what, local name, where)]"""
        out = []
        if not self.bor:
            return out
        self.liveness()
        names = {}

        def visit(pos, live):
            evs = self.events(pos)
            if not evs:
                return
            used = set(live) | self.args_of(pos)
            for c, kind, what, skip, where in evs:
                for l in used - skip:
                    b = self.bor.get(l, {}).get(c)
                    if b is None or not self.holds(l):
                        continue
                    if kind == 'write' or b == 'mut':
                        out.append((c, b, what, l, where))
        for b in range(len(self.f.blocks)):
            if self.f.blocks[b]['cl']:
                continue
            self.through(b, self.after_term(b), visit)
        return out
