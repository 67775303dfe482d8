"""Path-sensitive dataflow over MIR with value numbering.

A path is walked forward through the control-flow graph; values are hash-consed
terms; loops are cut at their headers (every location the loop can modify is
replaced by an opaque `phi` atom, its value on entry and on each back edge is
recorded); branch outcomes are facts in a finite map.  There is no solver and
nothing is executed: a path is dropped only when two facts on it contradict
syntactically.  Shared references are erased to the value they point at (the
borrow checker guarantees it cannot change under them); `&mut` references are
locations.
"""
from .terms import *
from . import mir

MAXSTATES = 6000
MAXSTEPS = 400000
MAXINLINE = 12


class Undecided(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'fid', 'bb', 'dest', 'target', 'k', 'blocks', 'loopst', 'prom', 'tmap')

    def __init__(self, fn, fid, dest, target, k, blocks=None):
        self.fn = fn
        self.fid = fid
        self.bb = 0
        self.dest = dest
        self.target = target
        self.k = k
        self.blocks = blocks if blocks is not None else fn.blocks
        self.loopst = ()
        self.tmap = None

    def copy(self):
        f = Frame(self.fn, self.fid, self.dest, self.target, self.k, self.blocks)
        f.bb = self.bb
        f.loopst = self.loopst
        f.tmap = self.tmap
        return f


class State:
    __slots__ = ('frames', 'heap', 'facts', 'rel', 'events', 'loops', 'epoch', 'nforks', 'kind', 'ret', 'cuts', 'seq')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.rel = ()
        self.events = None
        self.loops = {}
        self.epoch = 0
        self.kind = None
        self.ret = None
        self.cuts = False
        self.seq = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.rel = self.rel
        s.events = self.events
        s.loops = dict(self.loops)
        s.epoch = self.epoch
        s.cuts = self.cuts
        s.seq = self.seq
        return s

    def ev(self, *e):
        self.events = (self.events, e, len(self.rel))

    def event_list(self):
        out = []
        e = self.events
        while e is not None:
            out.append((e[1], e[2]))
            e = e[0]
        out.reverse()
        return out

    def evs(self, *kinds):
        return [e for e, _ in self.event_list() if e[0] in kinds]


# ---------------------------------------------------------------- facts

def canon_bool(t, v):
    """strip negations -> (t, v)"""
    while t.op == 'not':
        t = t.args[0]
        v = 1 - v
    return t, v


def float_const(bits, ty):
    import struct
    from fractions import Fraction
    from .poly import from_poly
    try:
        x = struct.unpack('<d', struct.pack('<Q', int(bits)))[0] if ty != 'f32' else struct.unpack('<f', struct.pack('<I', int(bits)))[0]
        return from_poly({(): Fraction(x)})
    except (ValueError, OverflowError, struct.error):
        return mk('float', bits)


def assume(st, t, val):
    """record t == val; False if contradictory.  val: int or ('not', frozenset)"""
    if isinstance(val, int):
        if t.op in ('not', 'eq', 'lt'):
            t, val = canon_bool(t, val)
    elif t.op == 'not' and isinstance(val, tuple):
        vs = frozenset(1 - x for x in val[1])
        t, val = t.args[0], ('not', vs)
    if isinstance(val, tuple) and t.op in BOOLOPS and len(val[1]) == 1:
        val = 1 - next(iter(val[1]))
        t, val = canon_bool(t, val)
    if t.op == 'int':
        return (t.args[0] == val) if isinstance(val, int) else t.args[0] not in val[1]
    old = st.facts.get(t)
    if old is not None:
        if isinstance(old, int):
            ok = (old == val) if isinstance(val, int) else old not in val[1]
            return ok
        if isinstance(val, int):
            if val in old[1]:
                return False
        else:
            val = ('not', old[1] | val[1])
            if val == old:
                return True
    st.facts[t] = val
    st.rel = st.rel + ((t, val),)
    return derive(st, t, val)


BOOLOPS = {'eq', 'lt', 'contains', 'is_some', 'any', 'all', 'bool', 'le_len'}


def derive(st, t, val):
    """finite consequences of a new fact"""
    if t.op == 'eq' and val == 1:
        a, b = t.args
        if a.op == 'agg' and b.op == 'agg' and a.args[:2] == b.args[:2]:
            for x, y in zip(a.args[2:], b.args[2:]):
                r = t_eq(x, y)
                if not assume(st, r, 1):
                    return False
        for x, y in ((a, b), (b, a)):
            if y.op == 'int':
                for lt, lv in list(st.facts.items()):
                    if lt.op == 'eq' and lv == 1 and x in lt.args and lt is not t:
                        o = lt.args[1] if lt.args[0] is x else lt.args[0]
                        if o.op == 'int' and o is not y:
                            return False
                # ordering facts
                z = y
                for f in (mk('lt', x, z), mk('lt', z, x)):
                    if st.facts.get(f) == 1:
                        return False
                    st.facts.setdefault(f, 0)
                if x.op == 'discr' or True:
                    if isinstance(st.facts.get(x), int) and st.facts[x] != y.args[0]:
                        return False
        if mk('lt', a, b) in st.facts and st.facts[mk('lt', a, b)] == 1:
            return False
        if mk('lt', b, a) in st.facts and st.facts[mk('lt', b, a)] == 1:
            return False
        st.facts.setdefault(mk('lt', a, b), 0)
        st.facts.setdefault(mk('lt', b, a), 0)
    if t.op == 'eq' and val == 0:
        a, b = t.args
        # trichotomy
        l1, l2 = mk('lt', a, b), mk('lt', b, a)
        if st.facts.get(l1) == 0 and st.facts.get(l2) == 0:
            pass
        elif st.facts.get(l1) == 0:
            st.facts.setdefault(l2, 1)
        elif st.facts.get(l2) == 0:
            st.facts.setdefault(l1, 1)
    if t.op == 'lt':
        a, b = t.args
        e = t_eq(a, b)
        rv = mk('lt', b, a)
        if val == 1:
            if st.facts.get(rv) == 1 or st.facts.get(e) == 1:
                return False
            st.facts.setdefault(rv, 0)
            if e.op == 'eq':
                st.facts.setdefault(e, 0)
        else:
            if st.facts.get(rv) == 0:
                # neither less nor greater
                if st.facts.get(e) == 0:
                    return False
                if e.op == 'eq':
                    st.facts.setdefault(e, 1)
            if st.facts.get(e) == 0:
                if st.facts.get(rv) == 0:
                    return False
                st.facts.setdefault(rv, 1)
    if t.op == 'discr' and t.args[0].op == 'cmp' and isinstance(val, int):
        a, b = t.args[0].args
        v = val if val < 2 else val - 256
        if v == -1:
            return assume(st, mk('lt', a, b), 1)
        if v == 1:
            return assume(st, mk('lt', b, a), 1)
        return assume(st, t_eq(a, b), 1)
    return True


def known(st, t):
    """truth value of a boolean term under the facts: 1, 0 or None"""
    t, v = canon_bool(t, 1)
    if t.op == 'int':
        return 1 if t.args[0] == v else 0
    f = st.facts.get(t)
    if isinstance(f, int):
        return 1 if f == v else 0
    return None


# ---------------------------------------------------------------- term builders

def t_not(t):
    if t.op == 'int':
        return INT(1 - t.args[0])
    if t.op == 'not':
        return t.args[0]
    return mk('not', t)


def t_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'int' and b.op == 'int':
        return FALSE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] and a.args[1] != b.args[1]:
        return FALSE
    # boolean compare
    for x, y in ((a, b), (b, a)):
        if y.op == 'int' and x.op in BOOLOPS | {'not'}:
            return x if y.args[0] == 1 else t_not(x)
    if b.id < a.id:
        a, b = b, a
    return mk('eq', a, b)


def t_lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'int' and b.op == 'int':
        return INT(int(a.args[0] < b.args[0]))
    return mk('lt', a, b)


def t_cmp(op, a, b):
    if op == 'eq':
        return t_eq(a, b)
    if op == 'ne':
        return t_not(t_eq(a, b))
    if op == 'lt':
        return t_lt(a, b)
    if op == 'gt':
        return t_lt(b, a)
    if op == 'le':
        return t_not(t_lt(b, a))
    if op == 'ge':
        return t_not(t_lt(a, b))


def t_arith(op, kind, a, b=None):
    if op in ('add', 'sub', 'mul') and a.op == 'int' and b.op == 'int':
        x, y = a.args[0], b.args[0]
        return INT({'add': x + y, 'sub': x - y, 'mul': x * y}[op])
    if op == 'neg' and a.op == 'int':
        return INT(-a.args[0])
    if op == 'rem' and a.op == 'int' and b.op == 'int' and b.args[0] > 0 and a.args[0] >= 0:
        return INT(a.args[0] % b.args[0])
    if op == 'div' and a.op == 'int' and b.op == 'int' and b.args[0] > 0 and a.args[0] >= 0 and kind == 'i':
        return INT(a.args[0] // b.args[0])
    if op == 'add':
        if a is INT(0):
            return b
        if b is INT(0):
            return a
    if op == 'sub' and b is INT(0):
        return a
    if op == 'neg':
        return mk('neg', kind, a)
    return mk(op, kind, a, b)


def getfield(v, i, variant=None):
    if v.op == 'mref' and v.args[0][0] == 'B':
        return v
    if v.op == 'agg':
        if variant is not None and v.args[1] != variant and v.args[1] is not None:
            return mk('bad', v, i)
        if i + 2 < len(v.args):
            return v.args[2 + i]
    if v.op == 'with' and v.args[1] == i:
        return v.args[2]
    if v.op == 'with':
        return getfield(v.args[0], i, variant)
    return mk('fld', i, variant, v)


def setfield(v, i, variant, x, n=None):
    if v.op == 'agg' and i + 2 < len(v.args):
        return mk('agg', *(v.args[:2 + i] + (x,) + v.args[3 + i:]))
    if v.op == 'with':
        if v.args[1] == i:
            return mk('with', v.args[0], i, x)
        return mk('with', setfield(v.args[0], i, variant, x), v.args[1], v.args[2])
    return mk('with', v, i, x)


def getidx(v, i):
    if v.op == 'comp' and v.args[0] == 'map' and len(v.args[3]) == 1 and not v.args[3][0][0]:
        from . import models
        return models.resimp(subst(v.args[3][0][1], {v.args[2]: i}))
    if v.op == 'range':
        return t_arith('add', 'i', v.args[0], i)
    if v.op == 'islice':
        return getidx(v.args[0], t_arith('add', 'i', v.args[1], i))
    if v.op == 'ite':
        return mk('ite', v.args[0], getidx(v.args[1], i), getidx(v.args[2], i))
    if v.op == 'store':
        if v.args[1] is i:
            return v.args[2]
        if v.args[1].op == 'int' and i.op == 'int':
            return getidx(v.args[0], i)
    if v.op == 'agg' and v.args[0] == 'array' and i.op == 'int' and i.args[0] + 2 < len(v.args):
        return v.args[2 + i.args[0]]
    if v.op == 'agg' and v.args[0] == 'array' and len(v.args) == 3 and i.op in ('ix', 'bv'):
        return v.args[2]            # the only element
    if v.op == 'push' and i.op == 'int' and v.args[0].op == 'agg' and v.args[0].args[0] == 'array':
        n = len(v.args[0].args) - 2
        if i.args[0] == n:
            return v.args[1]
        return getidx(v.args[0], i)
    if v.op == 'repeat' or v.op == 'from_elem':
        return v.args[0]
    return mk('idx', v, i)


def getkey(m, k):
    if m.op == 'minsert' and m.args[1] is k:
        return m.args[2]
    return mk('mget', m, k)


def has_key(m, k):
    """bool term"""
    if m.op == 'minsert' and m.args[1] is k:
        return TRUE
    if m.op == 'emptymap':
        return FALSE
    if m.op == 'sinsert' and m.args[1] is k:
        return TRUE
    if m.op == 'sremove' and m.args[1] is k:
        return FALSE
    if m.op in ('emptyset', 'emptyvec'):
        return FALSE
    if m.op == 'agg' and m.args[0] in ('setlit', 'maplit'):
        ks = m.args[2:]
        if m.args[0] == 'maplit':
            ks = tuple(getfield(x, 0) for x in ks)
        if k in ks:
            return TRUE
    return mk('contains', m, k)


def kind_of(tystrs):
    for s in tystrs:
        if s is None:
            continue
        for w in ('Matrix<', 'AffineMap<', 'CoordinateMap<', 'Automorphism<', 'Vector<', 'Point<', 'ScalarProduct<',
                  'LabelVector2d', 'LabelVector3d'):
            if w in s:
                return 'm'
    for s in tystrs:
        if s and ('Ratio<' in s or 'BigRational' in s):
            return 'q'
        if s and s.strip('&') in ('f64', 'f32'):
            return 'f'
    for s in tystrs:
        if s and ('BigInt' in s or s.strip('&') in INTS):
            return 'i'
    return 'p'


INTS = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
WIDTH = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64,
         'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'bool': 1, 'char': 21}


class Engine:
    def __init__(self, crate, inline=None, nomodel=(), max_states=MAXSTATES, writes_cells=None, pure=None):
        self.crate = crate
        self.inline = inline or (lambda f: False)
        self.nomodel = set(nomodel)
        self.max_states = max_states
        self.pure = pure
        self._writes = writes_cells
        self.backs = {}
        self.time_limit = 60
        self._sp = None
        self._bv = 0
        self._finished = []
        from . import models
        self.models = models

    # ------------------------------------------------------------ cells
    def cell_default(self, st, cell):
        if cell[0] == 'A':
            return mk('arg', cell[1])
        if cell[0] == 'U':
            return mk('cell0', cell[1], st.epoch)
        if cell[0] == 'O':
            return mk('deref', cell[1])
        return BOT

    def read_cell(self, st, cell, path):
        v = st.heap.get(cell)
        if v is None:
            v = self.cell_default(st, cell)
        for e in path:
            v = self.read_elem(v, e)
        return v

    def read_elem(self, v, e):
        if e[0] == 'f':
            return getfield(v, e[1], e[2])
        if e[0] == 'i':
            return getidx(v, e[1])
        if e[0] == 'k':
            return getkey(v, e[1])
        return mk('proj', e[1], v)

    def write_cell(self, st, cell, path, x):
        if not path:
            st.heap[cell] = x
            return
        v = st.heap.get(cell)
        if v is None:
            v = self.cell_default(st, cell)
        st.heap[cell] = self.upd(v, path, x)

    def upd(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if e[0] == 'f':
            return setfield(v, e[1], e[2], self.upd(getfield(v, e[1], e[2]), path[1:], x))
        if e[0] == 'i':
            new = self.upd(getidx(v, e[1]), path[1:], x)
            if v.op == 'store' and v.args[1] is e[1]:
                v = v.args[0]
            return mk('store', v, e[1], new)
        if e[0] == 'k':
            new = self.upd(getkey(v, e[1]), path[1:], x)
            if v.op == 'minsert' and v.args[1] is e[1]:
                v = v.args[0]
            return mk('minsert', v, e[1], new)
        return mk('storep', v, e[1], self.upd(mk('proj', e[1], v), path[1:], x))

    # ------------------------------------------------------------ places
    def resolve(self, st, fr, pl):
        """-> ('loc', cell, path) or ('val', term)"""
        cell = ('L', fr.fid, pl[0])
        path = ()
        val = None   # if not None, a pure value (not a location)
        variant = None
        for e in pl[1:]:
            k = e[0]
            if k == '*':
                v = val if val is not None else self.read_cell(st, cell, path)
                if v.op == 'mref':
                    cell, path, val = v.args[0], v.args[1], None
                else:
                    val = v
                    # keep location for Box deref: writes through a box local
                    if val is not None and self._is_box(fr, pl, e):
                        val = None
            elif k == 'f':
                if val is not None:
                    val = getfield(val, e[1], variant)
                    if val.op == 'mref' and False:
                        pass
                else:
                    path = path + (('f', e[1], variant),)
                variant = None
            elif k == 'd':
                variant = e[1]
            elif k in ('i', 'ci'):
                if k == 'i':
                    ix = self.read_cell(st, ('L', fr.fid, e[1]), ())
                else:
                    ix = INT(e[1]) if not e[3] else mk('fromend', e[1])
                if val is not None:
                    val = getidx(val, ix)
                else:
                    path = path + (('i', ix),)
            elif k == 'sub':
                s = mk('subslice', e[1], e[2], e[3], val if val is not None else self.read_cell(st, cell, path))
                val = s
            else:
                val = mk('unk', str(e), val if val is not None else self.read_cell(st, cell, path))
        if val is not None:
            return ('val', val)
        return ('loc', cell, path)

    def _is_box(self, fr, pl, e):
        return False

    def read(self, st, fr, pl):
        r = self.resolve(st, fr, pl)
        if r[0] == 'val':
            return r[1]
        v = self.read_cell(st, r[1], r[2])
        return v

    def write(self, st, fr, pl, x):
        r = self.resolve(st, fr, pl)
        if r[0] == 'val':
            # write through something we cannot locate
            st.ev('lostwrite', r[1], x)
            self.write_cell(st, ('O', r[1]), (), x)
            return
        cell, path = r[1], r[2]
        if cell[0] != 'L' or path or cell[1] != fr.fid:
            st.ev('write', cell, path, x, self._sp)
        self.write_cell(st, cell, path, x)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            return self.read(st, fr, o[1])
        if o[0] == 'const':
            return self.const(st, fr, o[1])
        return mk('unk', str(o))

    def const(self, st, fr, c):
        if c['c'] == 'fn':
            return mk('fn', c.get('res') or c['id'], c.get('res_path') or c['path'], c['path'])
        if c['c'] == 'promoted':
            return self.promoted(st, c)
        ty = self.crate.tstr(c['ty'])
        if 'v' in c:
            v = c['v']
            if isinstance(v, str):
                return STR(v)
            if c.get('float'):
                return float_const(v, ty)
            if v == 0 or v == 1 or True:
                return INT(v)
        if c.get('zst'):
            if ty == '()':
                return UNIT
            k = self.crate.types[c['ty']]
            if k['k'] == 'adt':
                return agg(k['path'], 0)
            if k['k'] == 'closure':
                return agg(('closure', k['id']), None)
            return mk('zst', ty)
        if 'bytes' in c:
            return mk('bytes', tuple(c['bytes']))
        if 'cparam' in c:
            return mk('cparam', c['cparam'])
        if 'def' in c:
            return mk('const', c['def'])
        return mk('const', c.get('opaque', '?'))

    def promoted(self, st, c):
        f = self.crate.by_id.get(c['def'])
        if f is None or c['idx'] >= len(f.promoted):
            return mk('promoted', c['def'], c['idx'])
        b = f.promoted[c['idx']]
        # straight-line evaluation in a scratch frame
        s2 = State()
        fr = Frame(f, ('prom', c['def'], c['idx']), None, None, None, blocks=b['blocks'])
        bb = 0
        for _ in range(50):
            blk = b['blocks'][bb]
            for s in blk['s']:
                if s[0] == '=':
                    x = self.rvalue(s2, fr, s[2], b)
                    self._sp = None
                    self.write(s2, fr, s[1], x)
            t = blk['t']
            if t[0] == 'goto':
                bb = t[1]
            elif t[0] == 'return':
                return self.read_cell(s2, ('L', fr.fid, 0), ())
            else:
                break
        return mk('promoted', c['def'], c['idx'])

    def opty(self, fr, o):
        """type string of an operand (best effort)"""
        if o[0] == 'const':
            c = o[1]
            return self.crate.tstr(c['ty']) if 'ty' in c else None
        pl = o[1]
        t = fr.fn.locals[pl[0]]['ty'] if fr.blocks is fr.fn.blocks else None
        return self.plty(t, pl)

    def plty(self, t, pl):
        T_ = self.crate.types
        for e in pl[1:]:
            if t is None:
                return None
            if e[0] == '*':
                x = T_[t]
                t = x.get('t')
                if t is None and x['k'] == 'adt' and x['args']:
                    t = x['args'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = T_[t].get('t')
            elif e[0] == 'd':
                pass
            elif e[0] == 'sub':
                pass
            else:
                return None
        return T_[t]['str'] if t is not None else None

    # ------------------------------------------------------------ rvalues
    BIN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem',
           'AddUnchecked': 'add', 'SubUnchecked': 'sub', 'MulUnchecked': 'mul'}
    CMP = {'Eq': 'eq', 'Ne': 'ne', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}

    def rvalue(self, st, fr, r, body=None):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            if r[1] == 'mut':
                x = self.resolve(st, fr, r[2])
                if x[0] == 'val':
                    if x[1].op == 'mref':
                        return x[1]
                    return mk('mref', ('O', x[1]), ())
                return mk('mref', x[1], x[2])
            x = self.resolve(st, fr, r[2])
            if x[0] == 'val':
                return x[1]
            v = self.read_cell(st, x[1], x[2])
            if v is BOT and x[1][0] == 'L':
                return mk('sref', x[1], x[2])
            return v
        if k == 'rawptr':
            x = self.resolve(st, fr, r[2])
            if x[0] == 'val':
                return x[1]
            return mk('mref', x[1], x[2])
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            op = r[1]
            if op in self.CMP:
                return t_cmp(self.CMP[op], a, b)
            ts = (self.opty(fr, r[2]), self.opty(fr, r[3]))
            kd = kind_of(ts)
            if op in self.BIN:
                return t_arith(self.BIN[op], kd, a, b)
            if op.endswith('WithOverflow'):
                v = t_arith(self.BIN[op[:-len('WithOverflow')]], kd, a, b)
                return tup(v, mk('ovf', v))
            if op in ('BitAnd', 'BitOr', 'BitXor') and ts[0] == 'bool':
                if op == 'BitAnd':
                    if FALSE in (a, b):
                        return FALSE
                    if a is TRUE:
                        return b
                    if b is TRUE:
                        return a
                if op == 'BitOr':
                    if TRUE in (a, b):
                        return TRUE
                    if a is FALSE:
                        return b
                    if b is FALSE:
                        return a
                return mk(op.lower(), a, b)
            if op == 'Cmp':
                return mk('cmp', a, b)
            return mk('binop', op, a, b)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if self.opty(fr, r[2]) == 'bool' or a.op in BOOLOPS or a.op == 'not':
                    return t_not(a)
                return mk('bitnot', a)
            if r[1] == 'Neg':
                return t_arith('neg', kind_of((self.opty(fr, r[2]),)), a)
            if r[1] == 'PtrMetadata':
                return self.models.t_len(a)
            return mk('unop', r[1], a)
        if k == 'discr':
            v = self.read(st, fr, r[1])
            return self.discr(st, v)
        if k == 'cast':
            a = self.operand(st, fr, r[2])
            to = self.crate.tstr(r[3])
            frm = self.crate.tstr(r[4])
            if 'Pointer' in r[1] or 'Unsize' in r[1] or 'PtrToPtr' in r[1]:
                return a
            if 'Transmute' in r[1] and a.op == 'mref':
                return a
            if frm in WIDTH and to in WIDTH:
                fs, ts = frm[0] == 'i', to[0] == 'i'
                if WIDTH[to] >= WIDTH[frm] and (fs == ts or (not fs and WIDTH[to] > WIDTH[frm])):
                    return a
                if a.op == 'int' and a.args[0] >= 0 and a.args[0] < 2 ** (WIDTH[to] - 1):
                    return a
                if a.op in BOOLOPS | {'not'}:
                    return a
            if frm in INTS and to in ('f64', 'f32'):
                return mk('tofloat', a)
            return mk('cast', frm, to, a)
        if k == 'agg':
            xs = [self.operand(st, fr, o) for o in r[2]]
            kd = r[1]
            if kd['a'] == 'tuple':
                if not xs:
                    return UNIT
                return tup(*xs)
            if kd['a'] == 'array':
                return agg('array', None, *xs)
            if kd['a'] == 'adt':
                a = self.crate.adts.get(kd['path'])
                isenum = a and a['kind'] == 'enum'
                return agg(kd['path'], kd['variant'] if isenum else None, *xs)
            if kd['a'] == 'closure':
                return agg(('closure', kd['id']), None, *xs)
            return mk('unk', str(kd), *xs)
        if k == 'repeat':
            return mk('repeat', self.operand(st, fr, r[1]), r[2])
        return mk('unk', str(r))

    def discr(self, st, v):
        if v.op == 'agg' and v.args[1] is not None:
            kd = v.args[0]
            a = self.crate.adts.get(kd) if isinstance(kd, str) else None
            if a:
                d = a['variants'][v.args[1]].get('discr')
                if d is not None:
                    if kd.endswith('Ordering') and d > 127:
                        d -= 256
                    return INT(d)
            return INT(v.args[1])
        if v.op == 'cmp':
            pass
        if v.op == 'with':
            return self.discr(st, v.args[0])
        f = st.facts.get(mk('discr', v))
        return mk('discr', v)

    # ------------------------------------------------------------ loops
    def havoc_targets(self, st, fr, body):
        """locations a loop body may change: [(cell, path)]; and whether it may write hidden cells"""
        targets = {}
        cells = False

        def add(cell, path):
            p = ()
            for e in path:
                if e[0] != 'f':
                    break
                p = p + (e,)
            targets.setdefault((cell, p), None)

        def add_place(pl):
            r = self.resolve(st, fr, pl)
            if r[0] == 'loc':
                add(r[1], r[2])

        def safe_place(pl):
            out = []
            for e in pl:
                if isinstance(e, list) and e[0] in ('i', 'ci', 'sub', '?'):
                    break
                out.append(e)
            return out
        used = set()
        for b in body:
            blk = fr.blocks[b]
            for s in blk['s']:
                if s[0] == '=':
                    add_place(safe_place(s[1]))
                    if s[2][0] in ('ref', 'rawptr') and s[2][1] not in ('shared', 'fake'):
                        add_place(safe_place(s[2][2]))
                    self._ops_locals(s[2], used)
                elif s[0] == 'setd':
                    add_place(safe_place(s[1]))
            t = blk['t']
            if t[0] == 'call':
                add_place(safe_place(t[3]))
                for o in t[2]:
                    if o[0] in ('copy', 'move'):
                        used.add(o[1][0])
                if t[1][0] in ('copy', 'move'):
                    used.add(t[1][1][0])
                else:
                    r = t[1][1]
                    f = self.crate.by_id.get(r.get('res') or r.get('id'))
                    if f is not None and self.writes_cells(f):
                        cells = True
        for l in used:
            v = st.heap.get(('L', fr.fid, l))
            if v is not None:
                for m in mrefs_in(v):
                    add(m.args[0], m.args[1])
        return list(targets), cells

    def do_havoc(self, st, key, targets, keep_refs=None):
        keys = sorted(targets, key=lambda x: len(x[1]))
        final = []
        for cell, p in keys:
            if any(c == cell and p[:len(q)] == q for c, q in final):
                continue
            final.append((cell, p))
        inits = {}
        for cell, p in final:
            cur = self.read_cell(st, cell, p)
            if cur is BOT:
                continue
            if keep_refs is not None and mrefs_in(cur) and cell[0] == 'L' and keep_refs(cell):
                continue
            inits[(cell, p)] = cur
        phis = {}
        for (cell, p), cur in inits.items():
            ph = mk('phi', key, cell, p, cur, ty=cur.ty)
            self.write_cell(st, cell, p, ph)
            phis[(cell, p)] = ph
        st.loops[key] = phis
        st.ev('loop', key, phis, self._sp)
        return phis

    def havoc(self, st, fr, header, body, key):
        targets, cells = self.havoc_targets(st, fr, body)
        if cells:
            self.drop_cells(st)
        return self.do_havoc(st, key, targets,
                             lambda cell: not self._reassigned_ref(fr, body, cell, fr.blocks))

    def drop_cells(self, st):
        st.epoch += 1
        for c in [c for c in st.heap if c[0] == 'U']:
            del st.heap[c]

    def _reassigned_ref(self, fr, body, cell, blocks):
        if cell[1] != fr.fid:
            return True
        for b in body:
            for s in blocks[b]['s']:
                if s[0] == '=' and s[1][0] == cell[2] and len(s[1]) == 1:
                    return True
            t = blocks[b]['t']
            if t[0] == 'call' and t[3][0] == cell[2] and len(t[3]) == 1:
                return True
        return False

    def _ops_locals(self, r, out):
        def go(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('copy', 'move') and isinstance(x[1], list):
                    out.add(x[1][0])
                else:
                    for y in x:
                        go(y)
        go(r)
        if r[0] in ('ref', 'rawptr'):
            out.add(r[2][0])
        if r[0] == 'discr':
            out.add(r[1][0])

    def back(self, st, key):
        """the state reaches the end of an iteration of loop `key`"""
        phis = st.loops[key]
        fin = {cp: self.read_cell(st, cp[0], cp[1]) for cp in phis}
        st.ev('back', key, fin, self._sp)
        facts = tuple(st.rel)
        for cp, ph in phis.items():
            self.backs.setdefault(ph, []).append((fin[cp], facts, st))
        st.kind = 'back'
        st.ret = key
        self._finished.append(st)

    # ------------------------------------------------------------ driver
    def run(self, fn, args=None, pre=None):
        """explore fn; -> list of finished states (kind: return/panic/back/unreachable)"""
        st = State()
        fid = (fn.id,)
        fr = Frame(fn, fid, None, None, None)
        st.frames.append(fr)
        for i in range(1, fn.argc + 1):
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                v = args[i - 1]
            else:
                t = fn.ty(i)
                if t['k'] == 'ref' and t['mut']:
                    v = mk('mref', ('A', i - 1), ())
                else:
                    v = mk('arg', i - 1, ty=t['str'])
            st.heap[('L', fid, i)] = v
        if pre:
            pre(st)
        return self.explore([st])

    def explore(self, states):
        self._finished = []
        self._bv = 0
        work = list(states)
        steps = 0
        import time
        end = time.time() + self.time_limit
        while work:
            st = work.pop()
            while True:
                steps += 1
                if steps > MAXSTEPS or len(self._finished) + len(work) > self.max_states \
                        or (steps & 63) == 0 and time.time() > end:
                    raise Undecided('path limit exceeded')
                r = self.step(st)
                if not r:
                    break
                st = r[0]
                work.extend(r[1:])
        done, self._finished = self._finished, []
        return done

    def end(self, st, kind, ret=None):
        st.kind = kind
        st.ret = ret
        self._finished.append(st)
        return []

    def goto(self, st, fr, bb):
        """move to bb handling loop entry/back edges -> [st] or [] when the path ends here"""
        src = fr.bb
        loops = fr.fn.loops() if fr.blocks is fr.fn.blocks else {}
        ls = fr.loopst
        while ls and bb not in loops[ls[-1]]:
            st.ev('exit', fr.fid + (ls[-1],), src)
            ls = ls[:-1]
        fr.loopst = ls
        if bb in loops:
            key = fr.fid + (bb,)
            if ls and bb in ls:
                while ls[-1] != bb:
                    st.ev('exit', fr.fid + (ls[-1],), src)
                    ls = ls[:-1]
                self.back(st, key)
                return []
            fr.loopst = ls + (bb,)
            self.havoc(st, fr, bb, loops[bb], key)
        fr.bb = bb
        return [st]

    def loopkey(self, st):
        """key of the innermost loop the state is in (or a per-block key)"""
        fr = st.frames[-1]
        if fr.loopst:
            return fr.fid + (fr.loopst[-1],)
        return fr.fid + (fr.bb, 'n')

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.blocks[fr.bb]
        self._sp = blk['sp']
        for s in blk['s']:
            if s[0] == '=':
                self._sp = s[3]
                x = self.rvalue(st, fr, s[2])
                if x.ty is None and x.op in ('fld', 'idx', 'mget', 'arg', 'call', 'phi', 'cell0', 'deref') \
                        and fr.blocks is fr.fn.blocks and s[2][0] == 'use':
                    x.ty = self.plty(fr.fn.locals[s[1][0]]['ty'], s[1])
                self.write(st, fr, s[1], x)
            elif s[0] == 'setd':
                self.write(st, fr, s[1], mk('setd', s[2], self.read(st, fr, s[1])))
        self._sp = blk['sp']
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return self.goto(st, fr, t[1])
        if k == 'drop':
            return self.goto(st, fr, t[2])
        if k == 'return':
            return self.do_return(st)
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            return self.branch(st, v, [(x[0], x[1]) for x in t[3]], t[4], self.crate.tstr(t[2]))
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            m = t[3]
            det = tuple(self.operand(st, fr, o) if isinstance(o, list) and o and o[0] in ('copy', 'move', 'const') else str(o)
                        for o in m[1:])
            st.ev('assert', m[0], c, t[2], det, fr.fn.id, blk['sp'])
            return self.goto(st, fr, t[4])
        if k == 'call':
            return self.do_call(st, fr, t, blk)
        if k == 'unreachable':
            return self.end(st, 'unreachable')
        if k == 'resume':
            return self.end(st, 'panic')
        return self.end(st, 'other')

    def branch(self, st, v, targets, other, ty):
        fr = st.frames[-1]
        if v.op == 'int':
            for val, bb in targets:
                vv = val
                if ty in ('i8', 'i16', 'i32', 'i64', 'isize', 'i128') and val >= 2 ** (WIDTH[ty] - 1):
                    vv = val - 2 ** WIDTH[ty]
                if vv == v.args[0] or val == v.args[0]:
                    return self.goto(st, fr, bb)
            return self.goto(st, fr, other)
        out = []

        def norm(x):
            if ty in ('i8', 'i16', 'i32', 'i64', 'isize', 'i128') and x >= 2 ** (WIDTH[ty] - 1):
                return x - 2 ** WIDTH[ty]
            return x
        alts = [(norm(val), bb) for val, bb in targets]
        oth_unreach = fr.blocks[other]['t'][0] == 'unreachable' and not fr.blocks[other]['s']
        if ty == 'bool' and len(alts) == 1:
            todo = [(alts[0][0], alts[0][1]), (1 - alts[0][0], other)]
        else:
            todo = list(alts)
            if not oth_unreach:
                if v.op == 'discr' and len(alts) == 1 and self.two_variant(v.args[0], fr):
                    todo.append((1 - alts[0][0], other))
                else:
                    todo.append((('not', frozenset(a[0] for a in alts)), other))
        sp = fr.blocks[fr.bb]['sp']
        for val, bb in todo:
            s2 = st.copy() if len(todo) > 1 else st
            if not assume(s2, v, val):
                continue
            self._sp = sp
            f2 = s2.frames[-1]
            s2.ev('branch', v, val, fr.fn.id, sp)
            out.extend(self.goto(s2, f2, bb))
        return out

    def two_variant(self, v, fr):
        t = v.ty
        if t is None:
            return False
        return t.startswith('std::option::Option') or t.startswith('std::result::Result') \
            or t.startswith('std::ops::ControlFlow')

    def do_return(self, st):
        fr = st.frames[-1]
        rv = self.read_cell(st, ('L', fr.fid, 0), ())
        if rv is BOT:
            rv = UNIT
        if fr.blocks is fr.fn.blocks:
            for l in reversed(fr.loopst):
                st.ev('exit', fr.fid + (l,), fr.bb)
        if len(st.frames) == 1 and fr.k is None:
            return self.end(st, 'return', rv)
        st.frames.pop()
        st.ev('leave', fr.fn.id)
        return fr.k(st, rv)

    # assign the result of a call (or of one alternative of a model)
    def ret(self, st, dest, target, v):
        fr = st.frames[-1]
        self._sp = fr.blocks[fr.bb]['sp']
        if v.ty is None and v.op not in ('int', 'str', 'agg', 'uninit') and fr.blocks is fr.fn.blocks:
            v.ty = self.plty(fr.fn.locals[dest[0]]['ty'], dest)
        self.write(st, fr, dest, v)
        if target is None:
            return self.end(st, 'panic')
        return self.goto(st, fr, target)

    def alts(self, st, lst):
        """lst: [(facts [(t,val)], fn(state)->list)] -> list of states"""
        out = []
        n = len(lst)
        for i, (fs, k) in enumerate(lst):
            s2 = st.copy() if i < n - 1 else st
            if all(assume(s2, t, v) for t, v in fs):
                out.extend(k(s2))
        return out

    def panic(self, st, what, *detail):
        st.ev('panic', what, what, detail, st.frames[-1].fn.id, self._sp, None)
        return self.end(st, 'panic')

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, t, blk):
        c = t[1]
        dest, target, macro = t[3], t[4], t[5]
        args = [self.operand(st, fr, o) for o in t[2]]
        k = lambda s, v: self.ret(s, dest, target, v)
        if c[0] != 'const':
            f = self.operand(st, fr, c)
            return self.invoke_value(st, f, args, k, blk['sp'])
        ref = c[1]
        if ref['c'] != 'fn':
            f = self.const(st, fr, ref)
            return self.invoke_value(st, f, args, k, blk['sp'])
        if ref['path'].endswith('convert::Into::into'):
            ref = self.crate.into_from(ref)
        argty = [self.opty(fr, o) for o in t[2]]
        destty = self.plty(fr.fn.locals[dest[0]]['ty'], dest) if fr.blocks is fr.fn.blocks else None
        return self.call(st, ref, args, argty, destty, k, blk['sp'], target is None, macro)

    def call(self, st, ref, args, argty, destty, k, sp, diverges=False, macro=None):
        """k(state, value) -> list of states"""
        rid = ref.get('res') or ref['id']
        rpath = ref.get('res_path') or ref['path']
        f = self.crate.by_id.get(rid)
        nm = mir.short(ref['path'])
        info = CallInfo(ref, rid, rpath, nm, f, args, argty, destty, sp, macro)
        info.lname = mir.short(rpath) if f is None else f.short
        if f is not None and f.kind != 'Closure' and not diverges and len(st.frames) < MAXINLINE and self.inline(f) \
                and self.reenter(st, f):
            return self.push(st, f, args, k, sp)
        if diverges:
            st.ev('panic', nm, rpath, tuple(self.value(st, a) for a in args), st.frames[-1].fn.id, sp, macro)
            return self.end(st, 'panic')
        if nm not in self.nomodel and info.lname not in self.nomodel:
            r = self.models.model(self, st, info, k)
            if r is not self.models.NOMODEL:
                return r
        return self.opaque(st, info, k)

    def reenter(self, st, f):
        """a function already entered is entered again only once and from a closure (helpers taking closures)"""
        at = [i for i, x in enumerate(st.frames) if x.fn is f]
        return not at or len(at) < 2 and any(x.fn.kind == 'Closure' for x in st.frames[at[0]:])

    def push(self, st, f, args, k, sp):
        fid = st.frames[-1].fid + (st.frames[-1].bb, f.id)
        if st.frames[-1].blocks is not st.frames[-1].fn.blocks:
            fid = fid + ('p',)
        nf = Frame(f, fid, None, None, k)
        for c in [c for c in st.heap if c[0] == 'L' and c[1] == fid]:
            del st.heap[c]
        st.frames.append(nf)
        for i, a in enumerate(args):
            st.heap[('L', fid, i + 1)] = a
        st.ev('enter', f.id, tuple(args), sp)
        return [st]

    def invoke_value(self, st, f, args, k, sp=None):
        """call a closure / fn item value with untupled args"""
        sp = sp or self._sp
        if f.op == 'mref':
            f0 = self.read_cell(st, f.args[0], f.args[1])
            return self.invoke_value(st, f0, args, k, sp)
        if f.op == 'agg' and isinstance(f.args[0], tuple) and f.args[0][0] == 'closure':
            fn = self.crate.by_id.get(f.args[0][1])
            if fn is not None and len(st.frames) < MAXINLINE + 6 and sum(1 for x in st.frames if x.fn is fn) < 2:
                return self.push(st, fn, [f] + list(args), k, sp)
        if f.op == 'fn':
            ref = {'c': 'fn', 'id': f.args[0], 'path': f.args[2] if len(f.args) > 2 else f.args[1],
                   'res': f.args[0], 'res_path': f.args[1], 'targs': []}
            fn = self.crate.by_id.get(f.args[0])
            if fn is None or not (fn.path.split('::')[-1][:1].isupper()):
                return self.call(st, ref, list(args), [None] * len(args), None, k, sp)
        vals = tuple(self.value(st, a) for a in args)
        for m in mrefs_in(f):
            self.clobber(st, m, 'invoke', vals)
        return k(st, mk('apply', f, *vals))

    def value(self, st, a):
        """an argument as a pure value: mrefs replaced by the current value of the location"""
        if a.op == 'mref':
            return self.read_cell(st, a.args[0], a.args[1])
        if not mrefs_in(a):
            return a
        m = {r: self.read_cell(st, r.args[0], r.args[1]) for r in mrefs_in(a)}
        m = {r: v for r, v in m.items() if v is not a}
        return subst(a, m)

    def clobber(self, st, m, name, vals):
        old = self.read_cell(st, m.args[0], m.args[1])
        self.write_cell(st, m.args[0], m.args[1], mk('upd', name, old, *vals))

    def opaque(self, st, info, k):
        name = info.lname or info.name
        vals = tuple(self.value(st, a) for a in info.args)
        res = mk('call', name, *vals, ty=info.destty)
        st.ev('call', name, vals, res, info.rid, info.sp, tuple(info.args), st.frames[-1].fn.id)
        ms = []
        for i, a in enumerate(info.args):
            for m in mrefs_in(a):
                if m not in ms:
                    ms.append(m)
        for j, m in enumerate(ms):
            old = self.read_cell(st, m.args[0], m.args[1])
            new = mk('upd', name, j, *vals)
            st.ev('mut', name, m.args[0], m.args[1], old, new, info.sp)
            self.write_cell(st, m.args[0], m.args[1], new)
        if info.fn is not None and self.writes_cells(info.fn):
            self.drop_cells(st)
        if info.destty and (info.destty.startswith('&mut ') or 'Option<&mut' in info.destty) and ms:
            r = mk('mref', ms[0].args[0], ms[0].args[1] + (('p', res),))
            if 'Option<' in info.destty:
                return self.alts(st, [([(mk('discr', res), 1)], lambda s: k(s, SOME(r))),
                                      ([(mk('discr', res), 0)], lambda s: k(s, NONE))])
            return k(st, r)
        return k(st, res)

    def writes_cells(self, f):
        if self._writes is None:
            self._writes = compute_writers(self.crate)
        return f.id in self._writes


class CallInfo:
    __slots__ = ('ref', 'rid', 'rpath', 'name', 'fn', 'args', 'argty', 'destty', 'sp', 'macro', 'lname')

    def __init__(self, ref, rid, rpath, name, fn, args, argty, destty, sp, macro):
        self.ref, self.rid, self.rpath, self.name, self.fn = ref, rid, rpath, name, fn
        self.args, self.argty, self.destty, self.sp, self.macro = args, argty, destty, sp, macro
        self.lname = None


def callees(fn):
    """(resolved id, ref) for every call and every fn item mentioned in fn"""
    out = []

    def go(x):
        if isinstance(x, dict):
            if x.get('c') == 'fn':
                out.append(x)
            elif x.get('a') == 'closure':
                out.append({'id': x['id'], 'closure': True, 'path': 'closure'})
            else:
                for y in x.values():
                    go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    for b in fn.blocks:
        if b['cl']:
            continue
        go(b['s'])
        go(b['t'])
    return out


def compute_writers(crate):
    """ids of functions that may (transitively) obtain a pointer into an UnsafeCell"""
    direct = set()
    edges = {}
    for f in crate.fns:
        es = set()
        for r in callees(f):
            p = r.get('path', '')
            if 'UnsafeCell' in p and p.split('::')[-1] in ('get', 'get_mut', 'raw_get', 'replace'):
                direct.add(f.id)
            es.add(r.get('res') or r['id'])
        edges[f.id] = es
    w = set(direct)
    ch = True
    while ch:
        ch = False
        for f in crate.fns:
            if f.id not in w and edges[f.id] & w:
                w.add(f.id)
                ch = True
    return w
