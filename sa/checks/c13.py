"""C13: names of crystal systems and centerings."""
from ..rules import *
from ..graphs import NC

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: table of written texts per enum variant against the decision table of the reader, evaluated over all variants'
RULE = ('For every variant the written text is extracted from the formatter calls on its path; the conditions of the reader are decided for exactly that text and must lead to the same variant. '
        'Reading without case is decided on upper-cased texts; the setting lookup is compared in closed form.')
PROP = {
    'title': 'Crystal system and centering names read back as written',
    'statement': 'Every crystal system and every centering is written as a text that its reader turns back into the same value, so no two values share a text; crystal system names are read in any '
                 'letter case, and a text that is not the name of any value is rejected. The setting lookup returns exactly the entries whose crystal system and centering both agree with those asked for.',
    'quantifier': {'over': ['inputs'], 'text': 'all crystal systems, centerings, texts and lookup tables'},
    'why_tests_cant': 'No test writes or reads every value.',
    'anchors': {'files': ['src/spacegroups/types.rs', 'src/spacegroups/parse_table.rs'],
                'mechanism': 'names written by Display; names read from the table; setting lookup'},
}


class NoStr(Exception):
    pass


def sval(t, env):
    """value of a text term"""
    if t in env:
        return env[t]
    o = t.op
    if o in ('str', 'int'):
        return t.args[0]
    if o == 'agg' and str(t.args[0]).split('::')[-1] in ('RangeTo', 'RangeFrom', 'Range', 'RangeToInclusive', 'RangeInclusive'):
        k = t.args[0].split('::')[-1]
        v = [sval(x, env) for x in t.args[2:]]
        return {'RangeTo': lambda: (0, v[0]), 'RangeFrom': lambda: (v[0], None), 'Range': lambda: (v[0], v[1]),
                'RangeToInclusive': lambda: (0, v[0] + 1), 'RangeInclusive': lambda: (v[0], v[1] + 1)}[k]()
    if o == 'discr':
        x = sval(t.args[0], env)
        if isinstance(x, tuple):
            return int(x[0] == 'some')
        raise NoStr(show(t))
    if o == 'fld':
        x = sval(t.args[2], env)
        if isinstance(x, tuple) and x[0] == 'some':
            return x[1]
        raise NoStr(show(t))
    if o == 'islice':
        s, a, b = (sval(x, env) for x in t.args)
        return s[a:b]
    if o == 'len':
        return len(sval(t.args[0], env))
    if o == 'eq':
        a, b = (sval(x, env) for x in t.args[-2:])
        if isinstance(a, str) and isinstance(b, int):
            b = chr(b)
        if isinstance(b, str) and isinstance(a, int):
            a = chr(a)
        return int(a == b)
    if o == 'not':
        return 1 - sval(t.args[0], env)
    if o == 'poly':
        r = 0
        for m, c in t.args:
            for x, e in m:
                c = c * sval(x, env) ** e
            r += c
        return r
    if o == 'call':
        f = t.args[0].rsplit('::', 1)[-1]
        a = [sval(x, env) for x in t.args[1:] if isinstance(x, T)]
        if f in ('to_lowercase', 'to_ascii_lowercase'):
            return a[0].lower()
        if f in ('to_uppercase', 'to_ascii_uppercase'):
            return a[0].upper()
        if f == 'trim':
            return a[0].strip()
        if f == 'eq_ignore_ascii_case':
            return int(a[0].lower() == a[1].lower())
        if f == 'starts_with':
            return int(a[0].startswith(chr(a[1]) if isinstance(a[1], int) else a[1]))
        if f == 'ends_with':
            return int(a[0].endswith(chr(a[1]) if isinstance(a[1], int) else a[1]))
        if f == 'contains':
            return int((chr(a[1]) if isinstance(a[1], int) else a[1]) in a[0])
        if f == 'is_empty':
            return int(not a[0])
        if f == 'get' and isinstance(a[1], tuple):
            lo, hi = a[1]
            hi = len(a[0]) if hi is None else hi
            return ('some', a[0][lo:hi]) if lo <= hi <= len(a[0]) else ('none',)
        if f == 'unwrap_or' and isinstance(a[0], tuple):
            return a[0][1] if a[0][0] == 'some' else a[1]
        if f in ('as_str', 'as_ref', 'deref', 'as_bytes'):
            return a[0]
    raise NoStr(show(t))


def pieces(p, i):
    """what the path has written to the formatter in argument i, in order"""
    h = p.heap(('A', i))
    out = []
    while h.op == 'upd':
        nm, a = h.args[0], h.args[3:]
        if nm == 'Formatter::write_fmt' and a and a[0].op == 'fmtargs':
            out[:0] = list(a[0].args)
        elif nm in ('Formatter::write_str', 'Formatter::pad') and a:
            out[:0] = [a[0]]
        elif nm == 'Formatter::write_char' and a and a[0].op == 'int':
            out[:0] = [mk('str', chr(a[0].args[0]))]
        else:
            raise Und('written by %s' % nm)
        h = h.args[2]
    if h is not A(i):
        raise Und('written in a loop: %s' % show(h))
    return out


def written(s):
    """{variant: text}"""
    out = {}
    d = mk('discr', A(0))
    for p in s.returns():
        if any(t.op == 'discr' and t.args[0].op == 'call' and t.args[0].args[0].startswith('Formatter::') and v == 1 for t, v in p.facts()):
            continue            # error while writing
        if p.ret.op == 'agg' and p.ret.args[1] == 1:
            continue
        v = [v for t, v in p.facts() if t is d]
        ps = pieces(p, 1)
        txt = ''
        for x in ps:
            if x.op == 'fmt' and x.args[0] in ('display',) and x.args[4].op == 'str' and x.args[1:4] == (None, None, None):
                txt += x.args[4].args[0]
            elif x.op == 'str':
                txt += x.args[0]
            else:
                raise Und('written piece %s' % show(x))
        out.setdefault((v[0] if isinstance(v[0], int) else ('other',) + tuple(sorted(v[0][1]))) if v else None, set()).add(txt)
    return out


def reader(s, text):
    """the variant read from a text, or None; Und if not decided"""
    res = set()
    for p in s.paths:
        try:
            if all((sval(t, {A(0): text}) == v) if isinstance(v, int) else sval(t, {A(0): text}) not in v[1] for t, v in p.facts()):
                if p.kind != 'return':
                    raise Bad('reading %r does not return' % text)
                r = p.ret
                if r.op != 'agg':
                    raise Und('reads %s' % show(r))
                if r.args[1] == 0:
                    res.add(None)
                else:
                    v = r.args[2]
                    if v.op != 'agg' or not isinstance(v.args[1], int):
                        raise Und('reads %s' % show(v))
                    res.add(v.args[1])
        except NoStr as e:
            raise Und('condition on text: %s' % e)
    if len(res) != 1:
        raise Und('%d answers for %r' % (len(res), text))
    return res.pop()


def run(ctx):
    for ty, nvar in (('CrystalSystem', 10), ('Centering', 9)):
        def names(ty=ty):
            w = pyfn(ctx, 'types::' + ty, 'Display', 'fmt')
            r = [f for f in ctx.lib.fns if f.kind != 'Closure' and f.name == 'from_string' and ty in f.path]
            if len(r) != 1:
                raise Und('reader of %s' % ty)
            sw, sr = ctx.summary(w), ctx.summary(r[0])
            tab = written(sw)
            adt = [t for t in ctx.lib.types if t.get('k') == 'adt' and t['path'].endswith('types::' + ty)]
            seen = {}
            n = 0
            for v, txts in tab.items():
                if not isinstance(v, int):
                    raise Und('one text for several values')
                if len(txts) != 1:
                    raise Und('several texts for one value')
                t = next(iter(txts))
                if t in seen:
                    raise Bad('two values are both written as %r' % t, ctx.where(w))
                seen[t] = v
                got = reader(sr, t)
                if got != v:
                    raise Bad('value %d is written as %r, which is %s' % (v, t, 'not readable' if got is None else 'read as value %d' % got), ctx.where(r[0]))
                if ty == 'CrystalSystem':
                    for u in (t.upper(), t.title()):
                        got = reader(sr, u)
                        if got != v:
                            raise Bad('%r is %s' % (u, 'not readable' if got is None else 'read as value %d' % got), ctx.where(r[0]))
                n += 1
            for t in ('', '?', 'no such name', 'cubicc', 'PP'):
                if reader(sr, t) is not None:
                    raise Bad('%r is read as a value' % t, ctx.where(r[0]))
            # every text the reader knows belongs to the value it reads
            for p in sr.returns():
                for t, v in p.facts():
                    for x in subterms(t):
                        if x.op == 'str' and v == 1 and t.op == 'eq':
                            got = reader(sr, x.args[0])
                            if got is not None and got not in tab:
                                raise Bad('%r is read as a value that is not written' % x.args[0], ctx.where(r[0]))
                            if got is not None and x.args[0] not in seen and x.args[0].lower() not in [y.lower() for y in seen]:
                                raise Bad('%r is read as a value, and no value is written like that' % x.args[0], ctx.where(r[0]))
                            if got is not None:
                                other = seen.get(x.args[0])
                                if other is not None and other != got:
                                    raise Bad('%r is read as another value' % x.args[0], ctx.where(r[0]))
                                n += 1
            return '%d texts' % n
        ctx.ob('names of ' + ty, names)

    def lookup():
        f = ctx.fn('Tables::lookup_settings', public=True)
        w = ctx.where(f)
        t = canon(the_return(ctx.summary(f, **NC)).ret)
        if t.op != 'comp':
            raise Und('form %s' % show(t))
        kind, n, bv, cases = t.args
        if not contains(n, lambda z: z.op == 'fld' and z.args[2] is A(0)):
            raise Und('collection')
        col = [x for x in subterms(n) if x.op == 'fld' and x.args[2] is A(0)][0]
        expect(n, t_len(col), 'the number of entries looked at', w)
        e = mk('idx', col, bv)
        role = {}
        for conds, val in cases:
            if any(calls_in(c) for c, v in conds):
                raise Und('conditions')
            for c, v in conds:
                for a in (1, 2):
                    for i in range(4):
                        if c is canon(mk('eq', A(a), E.getfield(e, i))) or c is canon(mk('eq', mk('discr', A(a)), mk('discr', E.getfield(e, i)))):
                            role[c] = a
                if c not in role:
                    raise Bad('an entry is left out unless %s = %s' % (show(c), v), w) if not contains(c, lambda z: z.op in ('closure', 'apply')) else Und('condition %s' % show(c))
        for sy in (0, 1):
            for ce in (0, 1):
                env = {1: sy, 2: ce}
                taken = any(all(env[role[c]] == v for c, v in conds) for conds, val in cases)
                if taken != bool(sy and ce):
                    raise Bad('an entry is %s when its crystal system %s and its centering %s' % ('returned' if taken else 'left out', 'agrees' if sy else 'differs', 'agrees' if ce else 'differs'), w)
        return '1 filter'
    ctx.ob('setting lookup', lookup)
