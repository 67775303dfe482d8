"""C20: exact arithmetic."""
import re

from ..rules import *
from ..mir import strip_generics

LEVEL = 'other'
TECHNIQUE = 'interprocedural taint analysis over MIR (approximate values from their sources to results, branches and exact conversions) and effect rules for lossy conversions'
RULE = ('Every conversion of an exact value to a floating point number is a source; taint is propagated through all assignments, stores through references, calls and closures; it must not reach the result of a function of the public interface, '
        'a branch, or an exact value, except as a number of iterations. Every conversion between integer types, every conversion of a rational to an integer and every wrapping or saturating operation on signed numbers is listed and must be one that cannot lose anything.')
PROP = {
    'title': 'Results are computed exactly, never approximately',
    'statement': 'Matrices, positions, symmetry operators, lattices and net labels are computed in exact arithmetic: no result depends on a value that was rounded to floating point, cut to a smaller integer type, wrapped or saturated. '
                 'A rational is converted to an integer only when it is one; floating point serves only to estimate how many steps the modular solver needs, to read decimal numbers from CGD input, and as a number type that callers may choose for matrices.',
    'quantifier': {'over': ['inputs'], 'text': 'all operations of the library on exact number types'},
    'why_tests_cant': 'Rounding and wrap-around show only for large or close values, and the tests use small ones.',
    'anchors': {'files': ['src/arithmetic/modular_solver.rs', 'src/arithmetic/linear_algebra.rs', 'src/symmetries.rs', 'src/pgraphs.rs', 'src/spacegroups/lattices.rs'],
                'mechanism': 'estimate of the number of p-adic steps; conversion of rationals to integers; conversions between integer types'},
}
FLOAT = re.compile(r'\bf(32|64)\b')
TOFLOAT = re.compile(r'ToPrimitive::to_f(32|64)$|AsPrimitive::as_$|::to_f64$')
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
TOINT = re.compile(r'ToPrimitive::to_([iu]\w+)$|TryFrom::try_from$|TryInto::try_into$|NumCast::from$')
DEFAULTED = re.compile(r'(Option|Result)(::<.*>)?::unwrap_or(_default|_else)?$|(Option|Result)(::<.*>)?::map_or(_else)?$')
WRAP = re.compile(r'::<impl i(8|16|32|64|128|size)>::(wrapping|saturating|overflowing|unchecked)_\w+$')
WRAPT = re.compile(r'(Wrapping|Saturating)(Add|Sub|Mul)::\w+$')
ROUND = re.compile(r'Ratio(::<.*>)?::(to_integer|trunc)$')


def allowed_float(f):
    """places where floating point numbers are the values themselves"""
    return f.file.startswith('src/io/') or ' for f64>' in f.path or ' for f32>' in f.path or re.search(r'<f(32|64) as ', f.path) is not None


class Flow:
    """flow-insensitive taint of locals; marks: 'f' approximate float, 'i' integer made of one"""

    def __init__(self, lib, skip):
        self.lib = lib
        self.skip = skip
        self.mark = {f.id: {} for f in lib.fns}
        self.ret = {}
        self.why = {}
        self.by_path = {}
        ch = True
        n = 0
        while ch and n < 30:
            ch = False
            n += 1
            for f in lib.fns:
                if f.id not in self.mark or skip(f):
                    continue
                if self.step(f):
                    ch = True

    def tstr(self, f, l):
        return self.lib.tstr(f.locals[l]['ty'])

    def places(self, op):
        """locals read by an operand"""
        if op[0] in ('copy', 'move'):
            return [op[1][0]]
        return []

    def add(self, f, l, m, why):
        s = self.mark[f.id].setdefault(l, set())
        if m in s:
            return False
        s.add(m)
        self.why.setdefault((f.id, l), why)
        return True

    def step(self, f):
        mk = self.mark[f.id]
        ch = False

        def get(ls):
            r = {}
            for l in ls:
                for m in mk.get(l, ()):
                    r[m] = self.why.get((f.id, l))
            return r

        def put(l, ms, sp):
            nonlocal ch
            for m, w in ms.items():
                if self.add(f, l, m, w or sp):
                    ch = True
        for b in f.blocks:
            if b.get('cl'):
                continue
            for s in b['s']:
                if s[0] != '=':
                    continue
                dst, rv, sp = s[1], s[2], s[3]
                ms = {}
                k = rv[0]
                if k == 'cast':
                    kind, op, to, fr = rv[1], rv[2], self.lib.tstr(rv[3]), self.lib.tstr(rv[4])
                    src = get(self.places(op))
                    if kind == 'IntToFloat':
                        ms = dict(src)
                        if op[0] != 'const':
                            ms['f'] = sp
                    elif kind == 'FloatToInt':
                        ms = {'i': src.get('f') or src.get('i')} if src else {}
                    else:
                        ms = src
                elif k == 'ref':
                    ms = get([rv[2][0]])
                    if rv[1] == 'mut':
                        put(rv[2][0], get([dst[0]]), sp)
                elif k == 'agg':
                    ls = [l for o in rv[2] for l in self.places(o)]
                    ms = get(ls)
                    if 'Range' in str(rv[1].get('path')):
                        ms.pop('i', None)
                else:
                    ms = get(self.reads(rv))
                put(dst[0], ms, sp)
            t = b['t']
            if t[0] == 'call':
                c, args, dst = t[1], t[2], t[3]
                ls = [[l for l in self.places(a)] for a in args]
                fn = c[1] if c[0] == 'const' else {}
                path = fn.get('path', '')
                rp = fn.get('res_path') or path
                ms = {}
                for i, l in enumerate(ls):
                    g = get(l)
                    if i and path.split('::')[-1] in ('pow', 'take', 'skip', 'with_capacity', 'nth', 'step_by', 'take_while', 'repeat_n'):
                        g.pop('i', None)
                    ms.update(g)
                if TOFLOAT.search(strip_generics(rp)) or TOFLOAT.search(path):
                    if 'as_' not in path or FLOAT.search(self.tstr(f, dst[0])):
                        ms['f'] = b['sp']
                if path.endswith('::from') and dst and FLOAT.fullmatch(self.tstr(f, dst[0])) and ls and ls[0] and self.tstr(f, ls[0][0]) in BITS:
                    ms['f'] = b['sp']
                callee = fn.get('res') if fn.get('res_local') else (fn.get('id') if fn.get('local') else None)
                g = self.lib.by_id.get(callee)
                if g is not None and not self.skip(g):
                    # known body: its result, and what it does with marked arguments
                    for m in self.ret.get(g.id, ()):
                        ms[m] = self.why.get((g.id, 0)) or b['sp']
                    for i, l in enumerate(ls):
                        for m, w in get(l).items():
                            if i + 1 <= g.argc and self.add(g, i + 1, m, w):
                                ch = True
                # closures passed: their results flow into the call's result
                for l in [x for y in ls for x in y]:
                    for cid in self.closures(f, l):
                        for m in self.ret.get(cid, ()):
                            ms[m] = self.why.get((cid, 0)) or b['sp']
                        cg = self.lib.by_id.get(cid)
                        if cg is not None:
                            for l2 in [x for y in ls for x in y]:
                                for m, w in get([l2]).items():
                                    for a in range(2, cg.argc + 1):
                                        if self.add(cg, a, m, w):
                                            ch = True
                if dst is not None:
                    put(dst[0], ms, b['sp'])
                    for l in [x for y in ls for x in y]:
                        if self.tstr(f, l).startswith('&mut'):
                            put(l, ms if l != dst[0] else {}, b['sp'])
                            if self.tstr(f, dst[0]).startswith('&mut'):
                                put(l, get([dst[0]]), b['sp'])
        r = set(mk.get(0, ()))
        if r - self.ret.get(f.id, set()):
            self.ret[f.id] = self.ret.get(f.id, set()) | r
            ch = True
        return ch

    def closures(self, f, l):
        for b in f.blocks:
            for s in b['s']:
                if s[0] == '=' and s[1][0] == l and s[2][0] == 'agg' and s[2][1].get('a') == 'closure':
                    yield s[2][1]['id']

    def reads(self, rv):
        out = []

        def w(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('copy', 'move') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                    out.append(x[1][0])
                    return
                for y in x:
                    w(y)
        w(rv[1:])
        if rv[0] in ('len', 'discr', 'copyref', 'deref') and isinstance(rv[1], list) and rv[1] and isinstance(rv[1][0], int):
            out.append(rv[1][0])
        return out


def exported(ctx, f):
    return f.d.get('pub') and f.kind != 'Closure'


def run(ctx):
    lib = ctx.lib
    fns = [f for f in lib.fns]
    for f in fns:
        ctx.analysed[strip_generics(f.path)] = 1

    def floats():
        fl = Flow(lib, allowed_float)
        n = 0
        for f in fns:
            if allowed_float(f):
                continue
            mk = fl.mark[f.id]
            n += len(mk)
            api = exported(ctx, f) and not f.file.endswith('main.rs')
            if api and mk.get(0):
                raise Bad('the result of %s depends on a value rounded to floating point at %s' % (strip_generics(f.path), fl.why.get((f.id, 0))), f.span)
            for i, b in enumerate(f.blocks):
                t = b['t']
                if b.get('cl'):
                    continue
                if t[0] == 'switch':
                    for l in fl.places(t[1]):
                        if 'f' in mk.get(l, ()) and floatcmp(lib, f, l):
                            raise Bad('a branch of %s depends on a value rounded to floating point at %s' % (strip_generics(f.path), fl.why.get((f.id, l))), b['sp'])
                if t[0] == 'call' and t[1][0] == 'const':
                    p = t[1][1].get('path', '')
                    if re.search(r'(from_f64|from_float|from_f32|approximate_float\w*)$', p) or \
                            p.split('::')[-1] in ('from', 'into', 'from_integer', 'from_i64', 'from_u64') and t[3] and re.search(r'BigInt|BigUint|Ratio', lib.tstr(f.locals[t[3][0]]['ty'])):
                        for a in t[2]:
                            for l in fl.places(a):
                                if mk.get(l):
                                    raise Bad('%s turns a rounded value into an exact one' % strip_generics(f.path), b['sp'])
        src = sum(1 for f in fns for b in f.blocks for s in b['s'] if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'IntToFloat')
        return '%d conversions to floating point, %d marked locals in %d functions; none reaches a result' % (src, n, len(fns))
    ctx.ob('no result depends on floating point', floats)

    def casts():
        k = 0
        for f in fns:
            for b in f.blocks:
                if b.get('cl'):
                    continue
                for s in b['s']:
                    if s[0] != '=' or s[2][0] != 'cast':
                        continue
                    kind, op = s[2][1], s[2][2]
                    to, fr = lib.tstr(s[2][3]), lib.tstr(s[2][4])
                    if kind == 'IntToInt' and to in BITS and fr in BITS:
                        k += 1
                        lossy = BITS[to] < BITS[fr]
                        if lossy and op[0] != 'const' and not (fr == 'usize' and BITS[to] == 32):
                            raise Bad('%s cuts a value of type %s to %s' % (strip_generics(f.path), fr, to), s[3])
                        if not lossy and BITS[to] == BITS[fr] and fr[0] != to[0] and fr in ('i32', 'i64', 'i128') and op[0] != 'const' and not f.file.startswith('src/io'):
                            raise Bad('%s reinterprets a signed value of type %s as %s' % (strip_generics(f.path), fr, to), s[3])
                    if kind == 'FloatToInt' and not allowed_float(f) and not lib.tstr(s[2][3]) in ('u64', 'usize', 'u32', 'i32', 'i64'):
                        raise Bad('%s cuts a floating point value to %s' % (strip_generics(f.path), to), s[3])
        return '%d conversions between integer types' % k
    ctx.ob('no integer is cut to a smaller type', casts)

    def defaults():
        # functions whose result is a checked conversion
        conv = set()
        k = 0
        ch = True
        while ch:
            ch = False
            for f in fns:
                src = convlocals(lib, f, conv)
                if 0 in src and f.id not in conv:
                    conv.add(f.id)
                    ch = True
        for f in fns:
            src = convlocals(lib, f, conv)
            for b in f.blocks:
                t = b['t']
                if b.get('cl') or t[0] != 'call' or t[1][0] != 'const':
                    continue
                p = t[1][1].get('path', '')
                a = [x[1][0] for x in t[2][:1] if x[0] in ('copy', 'move')]
                if TOINT.search(p):
                    k += 1
                if a and a[0] in src and DEFAULTED.search(p):
                    raise Bad('%s replaces a number that does not fit by another one' % strip_generics(f.path), b['sp'])
                if WRAP.search(p) or WRAPT.search(p):
                    raise Bad('%s uses %s on signed numbers' % (strip_generics(f.path), p.split('::')[-1]), b['sp'])
        return '%d checked conversions, none with a substitute value' % k
    ctx.ob('a number that does not fit is never replaced', defaults)

    k = [0]
    for f in fns:
        calls = [b for b in f.blocks if not b.get('cl') and b['t'][0] == 'call' and b['t'][1][0] == 'const' and
                 ROUND.search(strip_generics(b['t'][1][1].get('path', '')))]
        if not calls or f.kind == 'Closure' or f.file.startswith('src/io/'):
            continue

        def whole(f=f, calls=calls):
            s = ctx.summary(f)
            seen = 0
            for p in s.paths:
                roots = [p.ret] if p.kind == 'return' else []
                for t in list(roots) + [c for c, v in p.facts()]:
                    for x in subterms(t):
                        if x.op == 'call' and x.args[0] in ('Ratio::to_integer', 'Ratio::trunc'):
                            seen += 1
                            y = x.args[-1]
                            ok = any(v and y in c.args and (c.op == 'call' and 'is_integer' in str(c.args[0]) or c.op == 'eq') or
                                     any(z is y for z in subterms(c)) and 'denom' in repr(c) for c, v in p.facts())
                            about = any(any(z is y for z in subterms(c)) for c, v in p.facts())
                            if not ok and not about:
                                raise Bad('%s drops the fractional part of a rational that need not be an integer' % strip_generics(f.path), calls[0]['sp'])
                            if not ok:
                                neg_ok = any((not v) and y in c.args and c.op == 'call' and 'is_integer' in str(c.args[0]) for c, v in p.facts())
                                if neg_ok:
                                    raise Bad('%s drops the fractional part of a rational that is not an integer' % strip_generics(f.path), calls[0]['sp'])
                                raise Und('conversion guarded in another way')
            if not seen:
                raise Und('conversion not found on a path')
            return 'guarded on all %d paths' % len(s.paths)
        ctx.ob('rationals become integers only when they are (%s)' % strip_generics(f.path), whole)


def floatcmp(lib, f, l):
    """the branch condition l is a comparison of floats (directly or by a call)"""
    for b in f.blocks:
        for s in b['s']:
            if s[0] == '=' and s[1] == [l] and s[2][0] == 'bin':
                return any(FLOAT.fullmatch(lib.tstr(f.locals[o[1][0]]['ty'])) for o in s[2] if isinstance(o, list) and o[0] in ('copy', 'move') and len(o[1]) == 1)
        t = b['t']
        if t[0] == 'call' and t[3] is not None and t[3] == [l]:
            return 'Iterator' not in t[1][1].get('path', '') if t[1][0] == 'const' else False
    return False


def convlocals(lib, f, conv):
    """locals that hold the option returned by a checked conversion"""
    src = set()
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'const' and t[3] is not None and len(t[3]) == 1:
                p = t[1][1].get('path', '')
                cid = t[1][1].get('res') or t[1][1].get('id')
                if (TOINT.search(p) or cid in conv) and t[3][0] not in src:
                    src.add(t[3][0])
                    ch = True
            for s in b['s']:
                if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'use' and s[2][1][0] in ('copy', 'move') and len(s[2][1][1]) == 1:
                    if s[2][1][1][0] in src and s[1][0] not in src:
                        src.add(s[1][0])
                        ch = True
    return src
