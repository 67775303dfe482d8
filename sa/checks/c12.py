"""C12: lines of CGD files are split into the fields they contain."""
import math
from ..rules import *
from ..nomg import *
from ..summary import alpha
from .c13 import NoStr
from .c14 import nums, sval as sval14

LEVEL = 'other'
TECHNIQUE = 'grammar extraction from parser combinators: language equality of finite automata, ordered choice on representatives of all token classes, attribute values per alternative'
RULE = ('The combinator grammar of a CGD line is read off the parser functions; its language must equal the specified one over a finite alphabet of character classes (with characters beyond ASCII whose low byte is a '
        'delimiter); every kind of token must be taken by the alternative of its kind, and the value of every alternative must be the value of the token.')
PROP = {
    'title': 'CGD lines are split into exactly the fields they contain',
    'statement': 'A CGD line is read as an optional leading key (a name starting with a letter) followed by blank separated fields and an optional comment, and nothing that is not read is lost silently: '
                 'it is returned as the rest of the line. A field with a fraction, a finite number, a quoted text or a bare name has exactly that value - whole numbers in range as integers, '
                 'other finite numbers unchanged, words that are not numbers as names -, and fields keep their order.',
    'quantifier': {'over': ['inputs'], 'text': 'all lines of text'},
    'why_tests_cant': 'Tests read a dozen lines.',
    'anchors': {'files': ['src/io/parse_cgd_line.rs'],
                'mechanism': 'grammar of a line; kinds of fields; values of numbers; order of fields'},
}
WIDE = 'ĠĢģĉ'       # U+0120, U+0122, U+0123, U+0109: low bytes are blank, quote, hash, tab
SIGMA = set('aez_.+-/"# \t013é\r\xa0') | set(WIDE)
DELIM = set('"# \t')


def sp():
    return star(lit({' ', '\t'}))


def sp1():
    return cat(lit({' ', '\t'}), sp())


def ref(sig):
    d = lit({c for c in sig if c in '0123456789'})
    num = cat(d, star(d))
    sg = opt(lit('+-'))
    nc = lit(sig - DELIM)
    R = {
        'fraction': cat(opt(lit('-')), num, lit('/'), num),
        'number': cat(sg, alt(cat(num, opt(cat(lit('.'), star(d)))), cat(lit('.'), num)), opt(cat(lit('eE'), sg, num))),
        'quoted': cat(lit('"'), cat(lit(sig - {'"'}), star(lit(sig - {'"'}))), lit('"')),
        'name': cat(nc, star(nc)),
    }
    R['key'] = cat(lit({c for c in sig if c.isascii() and c.isalpha()}), star(nc))
    R['field'] = alt(R['fraction'], R['number'], R['quoted'], R['name'])
    R['list'] = opt(cat(R['field'], star(cat(sp1(), R['field']))))
    R['content'] = alt(cat(R['key'], opt(cat(sp1(), R['list']))), R['list'])
    R['line'] = cat(sp(), R['content'], sp(), opt(cat(lit('#'), star(lit(sig)))))
    return R


def longest(r, w):
    """longest prefix of w in r, or None"""
    n, s, e = compile_(r)
    best = 0 if e in s else None
    for i, c in enumerate(w):
        s = n.step(s, c)
        if not s:
            break
        if e in s:
            best = i + 1
    return best


def taken(ls, w):
    """ordered choice: (index of the alternative that takes w, length taken)"""
    for i, r in enumerate(ls):
        k = longest(r, w)
        if k is not None:
            return i, k
    return None, 0


def fval(t, x, env):
    """value of a float term; x: the argument"""
    if t in env:
        return env[t]
    o = t.op
    if o in ('int', 'rat', 'float'):
        return float(t.args[0]) if o != 'int' else t.args[0]
    if o == 'not':
        return 1 - fval(t.args[0], x, env)
    if o == 'eq':
        a, b = (fval(y, x, env) for y in t.args[-2:])
        return int(a == b)
    if o == 'lt':
        a, b = (fval(y, x, env) for y in t.args[-2:])
        return int(a < b)
    if o == 'cast':
        a, b, y = t.args[:3]
        v = fval(y, x, env)
        if a == 'f64' and b in ('i32', 'i64', 'u32'):
            lo, hi = {'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'u32': (0, 2**32 - 1)}[b]
            return 0 if v != v else lo if v <= lo else hi if v >= hi else int(v)
        if b == 'f64':
            return float(v)
        raise NoStr(show(t))
    if o == 'tofloat':
        return float(fval(t.args[-1], x, env))
    if o == 'neg':
        return -fval(t.args[-1], x, env)
    if o == 'abs':
        return abs(fval(t.args[-1], x, env))
    if o == 'poly':
        r = 0
        for m, c in t.args:
            for y, e in m:
                c = float(c) * fval(y, x, env) ** e
            r += c
        return r
    if o == 'call' and len(t.args) == 2:
        f = t.args[0].rsplit('::', 1)[-1]
        v = fval(t.args[1], x, env)
        fin = isinstance(v, int) or math.isfinite(v)
        tab = {'is_finite': lambda: int(fin), 'is_nan': lambda: int(v != v), 'is_infinite': lambda: int(v == v and not fin), 'trunc': lambda: float(math.trunc(v)) if fin else v,
               'floor': lambda: float(math.floor(v)) if fin else v, 'round': lambda: float(math.floor(v + .5)) if fin else v, 'ceil': lambda: float(math.ceil(v)) if fin else v,
               'fract': lambda: v - math.trunc(v) if fin else float('nan'), 'abs': lambda: abs(v)}
        if f in tab:
            return tab[f]()
    raise NoStr(show(t))


FIELD = {0: 'Fraction', 1: 'Int', 2: 'Double', 3: 'Key', 4: 'Name'}


class G(Grammar):
    """first-letter conditions on names are part of the language"""

    def pred(self, f, ch):
        vs = set()
        for c, v, k in self.call(f, mk('arg', 'text')):
            try:
                if all((self.tv(t, ord(ch)) == y) if isinstance(y, int) else self.tv(t, ord(ch)) not in y[1] for t, y in c):
                    if v is None:
                        raise Und('character class panics')
                    vs.add(bool(self.tv(v, ord(ch))))
            except NoStr as e:
                raise Und('character class %s' % e)
        if len(vs) != 1:
            raise Und('character class %s' % show(f))
        return vs.pop()

    def alts(self, P):
        """alternatives in order, those inside a mapped choice included"""
        Q = self.expand(P)
        n = self.name(Q)
        if n == 'alt':
            return [y for x in self.kids(Q) for y in self.alts(x)]
        if n in ('map', 'map_opt') and Q.op == 'call':
            inner = self.alts(Q.args[1])
            if len(inner) > 1:
                return [mk('call', Q.args[0], x, Q.args[2]) for x in inner]
        return [P]

    def lang(self, P, sigma):
        Q = self.expand(P)
        if self.name(Q) in ('map_opt', 'verify') and Q.op == 'call' and self.local(Q.args[2]):
            r = self.lang(Q.args[1], sigma)
            if self.ontext(Q.args[1]):
                keep = {c for c in sigma if longest(r, c) == 1 and self.accepts(Q.args[2], c, self.name(Q))}
                for c in sorted(sigma):
                    if longest(r, c) == 1:
                        for d in ('a', '1'):
                            if longest(r, c + d) == 2 and self.accepts(Q.args[2], c + d, self.name(Q)) != (c in keep):
                                raise Und('condition on names')
                if len(keep) < len([c for c in sigma if longest(r, c) == 1]):
                    if r[0] == 'cat' and r[1][0] == 'lit':
                        return cat(lit(set(r[1][1]) & keep), *r[2:])
                    raise Und('condition on names')
            return r
        return Grammar.lang(self, P, sigma)

    def ontext(self, P):
        n = self.name(self.expand(P))
        return n in ('take_till1', 'take_while1', 'take_till', 'take_while', 'map_opt', 'verify') and (n.startswith('take') or self.ontext(self.expand(P).args[1]))

    def accepts(self, f, text, kind):
        ok = set()
        for conds, v, k in self.call(f, mk('arg', 'text')):
            try:
                if not all((self.tv(t, text) == y) if isinstance(y, int) else self.tv(t, text) not in y[1] for t, y in conds):
                    continue
            except NoStr as e:
                raise Und('condition on names: %s' % e)
            if k != 'return':
                ok.add(None)
            elif kind == 'verify':
                ok.add(bool(self.tv(v, text)))
            elif v.op == 'agg':
                ok.add(v.args[1] == 1)
            else:
                raise Und('condition on names')
        if len(ok) != 1:
            raise Und('condition on names')
        return ok.pop()

    def tv(self, t, text):
        """conditions on a text"""
        o = t.op
        if t is mk('arg', 'text'):
            return text
        if o == 'discr':
            v = self.tv(t.args[0], text)
            return int(v is not None)
        if o == 'fld':
            return self.tv(t.args[2], text)
        if o == 'int':
            return t.args[0]
        if o == 'str':
            return t.args[0]
        if o == 'not':
            return 1 - self.tv(t.args[0], text)
        if o in ('and', 'or', 'bitand', 'bitor'):
            a, b = (self.tv(x, text) for x in t.args[-2:])
            return int(bool(a and b) if o.endswith('and') else bool(a or b))
        if o == 'cast' and t.args[1] in ('u8', 'i8', 'u32', 'char', 'u16', 'i32', 'usize', 'u64', 'i64'):
            v = self.tv(t.args[2], text)
            if t.args[1] == 'u8':
                return v & 255
            if t.args[1] == 'i8':
                return (v & 255) - 256 * (v & 128 != 0)
            if t.args[1] == 'u16':
                return v & 65535
            return v
        if o in ('eq', 'lt'):
            a, b = (self.tv(x, text) for x in t.args[-2:])
            return int(a == b) if o == 'eq' else int(a < b)
        if o == 'len':
            return len(self.tv(t.args[0], text))
        if o == 'idx':
            v, i = self.tv(t.args[0], text), self.tv(t.args[1], text)
            return v[i] if i < len(v) else None
        if o == 'poly':
            r = 0
            for m, c in t.args:
                for y, e in m:
                    c = c * self.tv(y, text) ** e
                r += c
            return r
        if o == 'call':
            f = t.args[0].rsplit('::', 1)[-1]
            a = [self.tv(x, text) for x in t.args[1:] if isinstance(x, T)]
            if f in ('bytes', 'as_bytes', 'into_bytes'):
                return list(a[0].encode())
            if f == 'chars':
                return [ord(c) for c in a[0]]
            if f in ('nth', 'get'):
                return a[0][a[1]] if a[1] < len(a[0]) else None
            if f in ('next', 'first'):
                return a[0][0] if a[0] else None
            if f == 'is_alphabetic' and '::' not in t.args[0] or f == 'is_ascii_alphabetic':
                return int(0 <= a[0] < 128 and chr(a[0]).isalpha())
            if f in ('is_alphabetic', 'is_alpha'):
                return int(chr(a[0]).isalpha())
            if f == 'is_alphanumeric':
                return int(chr(a[0]).isalnum())
            tab = {'is_numeric': lambda c: c.isnumeric(), 'is_ascii_digit': lambda c: c in '0123456789', 'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF', 'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
                   'is_ascii_punctuation': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' ', 'is_whitespace': lambda c: c.isspace(), 'is_ascii_whitespace': lambda c: c in ' \t\n\r\x0c',
                   'is_ascii': lambda c: c.isascii(), 'is_ascii_uppercase': lambda c: c.isascii() and c.isupper(), 'is_ascii_lowercase': lambda c: c.isascii() and c.islower(), 'is_uppercase': lambda c: c.isupper(), 'is_lowercase': lambda c: c.islower()}
            if f in tab and isinstance(a[0], int):
                return int(tab[f](chr(a[0])))
            if f == 'is_digit' and len(a) == 2 and isinstance(a[1], int):
                return int(chr(a[0]).lower() in '0123456789abcdefghijklmnopqrstuvwxyz'[:a[1]])
            if f in ('is_some',):
                return int(a[0] is not None)
        raise NoStr(show(t))


def run(ctx):
    infl = lambda f: f.file.endswith('parse_cgd_line.rs') and f.kind != 'Closure'
    g = G(ctx, infl)

    def top():
        f = ctx.fn('parse_cgd_line::parse_cgd_line', public=True)
        s = ctx.summary(f)
        P = set()
        for p in s.paths:
            for t, v in p.facts():
                for x in subterms(t):
                    if x.op == 'apply' and x.args[1] is A(0):
                        P.add(x.args[0])
                    elif x.op == 'call' and len(x.args) == 2 and x.args[1] is A(0) and any(q.short == x.args[0] for q in ctx.lib.fns):
                        P.add(g.applied(x, A(0)))
        if len(P) != 1:
            raise Und('entry of the parser')
        return P.pop(), f, s

    def result():
        P, f, s = top()
        w = ctx.where(f)
        ap = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'call' and x.args[0] == 'Finish::finish'}
        if len(ap) != 1:
            raise Und('result')
        r = ap.pop()
        okv = E.getfield(r, 0, 0)
        for p in s.paths:
            v = dict(p.facts()).get(canon(mk('discr', r)))
            if p.kind != 'return':
                raise Bad('a line makes the reader panic', w) if v is not None and len(p.facts()) == 1 else Und('panic')
            t = p.ret
            if t.op != 'agg':
                raise Und('result %s' % show(t))
            if t.args[1] == 1:
                if v == 0:
                    raise Bad('a line that was read is rejected', w) if len(p.facts()) == 1 else Und('rejected under conditions')
                continue
            if v == 1:
                raise Bad('a line that was not read is accepted', w)
            x = t.args[2]
            for i, nm in ((0, 'rest'), (1, 'fields')):
                got, want = canon(E.getfield(x, i)), canon(E.getfield(okv, i))
                if got is not want:
                    if got.op in ('str', 'agg', 'fld', 'islice') or got.op == 'call' and got.args[0].rsplit('::', 1)[-1].startswith('trim'):
                        raise Bad('the %s returned is %s' % (nm, show(got)), w)
                    raise Und('%s %s' % (nm, show(got)))
        return 'rest and fields passed on'
    ctx.ob('result of reading a line', result)

    def uncut():
        P, f, s = top()
        n = 0
        for q in ctx.lib.fns:
            if not infl(q) or q.d.get('nargs', 1) != 1 and len(q.d.get('inputs', [0])) != 1:
                continue
            try:
                sq = ctx.summary(q)
            except Exception:
                continue
            for p in sq.returns():
                for x in subterms(p.ret):
                    a = x.args[-1] if x.op == 'apply' else None
                    if not isinstance(a, T) or a is A(0):
                        continue
                    for y in subterms(a):
                        if y.op == 'call' and y.args[0].split('::')[-1] in ('split', 'splitn', 'split_once', 'split_terminator', 'find') and len(y.args) > 2 and y.args[1] is A(0) and y.args[-1] in (INT(35), mk('str', '#'), mk('str', ' #')):
                            raise Bad('the text is cut at %s before it is read, also inside a quoted text' % show(y.args[-1]).replace('35', "'#'"), ctx.where(q))
            n += 1
        return '%d readers' % n
    ctx.ob('text given to the readers', uncut)

    def language():
        P, f, s = top()
        sig = SIGMA | g.chars(P)
        r = g.lang(P, sig)
        R = ref(sig)['line']
        d = distinguish(r, R, sig)
        if d:
            raise Bad('the line %r is %sread to its end' % (d[0], '' if d[1] else 'not '), ctx.where(f))
        return 'automata with %d and %d states over %d characters agree' % (states(r, sig), states(R, sig), len(sig))
    ctx.ob('language of lines', language)

    def content():
        """the alternatives of a line's content and the field parser"""
        P, f, s = top()
        Q = g.expand(P)
        for _ in range(6):
            n = g.name(Q)
            if n in ('delimited', 'preceded'):
                Q = g.expand(Q.args[2])
            elif n == 'terminated':
                Q = g.expand(Q.args[1])
            else:
                break
        return g.alts(Q), ctx.where(f)

    def fieldp():
        alts, w = content()
        pl = set()
        for a in alts:
            for c, v in g.sym(a):
                pl |= {x.args[0] for x in subterms(v) if x.op == 'plist'}
        if len(pl) != 1:
            raise Und('field parser')
        return pl.pop(), w

    def lists():
        alts, w = content()
        F, _ = fieldp()
        P, f, s = top()
        sig = SIGMA | g.chars(P)
        ls = [g.lang(a, sig) for a in alts]
        forms = []
        for a in alts:
            vs = list({canon(v): 1 for c, v in g.sym(a)})
            if len(vs) != 1:
                raise Und('%d values' % len(vs))
            forms.append(vs[0])
        n = 0
        for wd in ('a', 'a 1', 'ae 1/3 "a z" z', 'a a', 'z_1\té', '1', '1 a', '1/3 .3', '"a" a', '_a z', 'éa 1', ''):
            i, k = taken(ls, wd)
            if i is None:
                raise Bad('the line %r is not read' % wd, w)
            if k < len(wd):
                raise Bad('of the line %r only %r is read' % (wd, wd[:k]), w)
            v = forms[i]
            pl = mk('plist', F)
            items = seq(v)
            keyed = wd[:1].isascii() and wd[:1].isalpha()
            more = len(wd.split()) > 1 if keyed else True
            got = []
            for x in items:
                if x is pl:
                    got.append('fields')
                elif x.op == 'agg' and isinstance(x.args[1], int) and x.args[0].endswith('Field') and x.args[2].op == 'pv':
                    q = distinguish(g.lang(x.args[2].args[0], sig), ref(sig)['name'], sig)
                    q2 = distinguish(g.lang(x.args[2].args[0], sig), ref(sig)['key'], sig)
                    if q and q2:
                        raise Und('leading %s' % show(x))
                    got.append(FIELD[x.args[1]])
                else:
                    raise Und('value %s' % show(x))
            want = (['Key'] if keyed else []) + (['fields'] if more else [])
            if got != want and got != (want + ['fields'] if not more else want):
                raise Bad('the line %r is read as %s' % (wd, ' then '.join(got) or 'nothing'), w)
            n += 1
        return '%d kinds of lines' % n

    def seq(v):
        if v.op == 'ichain':
            return seq(v.args[0]) + seq(v.args[1])
        if v.op == 'push':
            return seq(v.args[0]) + [v.args[1]]
        if v.op in ('collect', 'iter', 'to_vec'):
            return seq(v.args[0])
        if v.op == 'agg' and v.args[0] == 'array':
            return list(v.args[2:])
        if v.op == 'plist':
            return [v]
        raise Und('list %s' % show(v))
    ctx.ob('keys and lists', lists)

    def fields():
        F, w = fieldp()
        P, f, s = top()
        sig = SIGMA | g.chars(P)
        Q = g.expand(F)
        alts = g.alts(Q)
        ls = [g.lang(a, sig) for a in alts]
        R = ref(sig)
        n = 0
        kind = {}
        for kd, wds in (('fraction', ('1/3', '-31/10')), ('number', ('1', '-3', '+1', '.3', '1.', '1.3', '-3e1', '1e-3')), ('quoted', ('"a z"', '"1"', '" "')), ('name', ('a', 'a1', '_', 'ez.', '-', '+', '-a', 'é', 'Ġ', '.'))):
            for wd in wds:
                i, k = taken(ls, wd)
                if i is None:
                    raise Bad('the field %r is not read' % wd, w)
                if k < len(wd):
                    raise Bad('of the field %r only %r is read' % (wd, wd[:k]), w)
                kind.setdefault(kd, set()).add(i)
                n += 1
        own = {}
        for kd, ix in kind.items():
            if len(ix) != 1:
                raise Und('several alternatives for a %s' % kd)
            own[kd] = alts[next(iter(ix))]
        # values
        value_fraction(own['fraction'], w)
        value_number(own['number'], w)
        for kd, inner in (('quoted', None), ('name', R['name'])):
            vs = list({canon(v): 1 for c, v in g.sym(own[kd])})
            if len(vs) != 1:
                raise Und('values of a %s' % kd)
            v = vs[0]
            if kd == 'quoted':
                D = g.expand(own[kd])
                while g.name(D) in ('map', 'map_opt'):
                    D = g.expand(D.args[1])
                if g.name(D) == 'delimited':
                    for q, side in ((D.args[1], 'before'), (D.args[3], 'after')):
                        d = distinguish(g.lang(q, sig), lit('"'), sig)
                        if d:
                            raise Bad('the text %r %s a quoted text is %s of it' % (d[0], side, 'no part' if d[1] else 'part'), w)
            if v.op != 'agg' or not isinstance(v.args[1], int):
                raise Und('value of a %s: %s' % (kd, show(v)))
            if v.args[1] != 4:
                raise Bad('a %s is read as %s' % (kd, FIELD[v.args[1]]), w)
            x = v.args[2]
            if x.op != 'pv':
                if x.op == 'call' and x.args[0].rsplit('::', 1)[-1].startswith(('to_', 'trim')):
                    raise Bad('the value of a %s is %s' % (kd, show(x)), w)
                raise Und('value of a %s: %s' % (kd, show(x)))
            lw = cat(lit(sig - {'"'}), star(lit(sig - {'"'}))) if kd == 'quoted' else inner
            d = distinguish(g.lang(x.args[0], sig), lw, sig)
            if d:
                raise Bad('the value of a %s %s %r' % (kd, 'may be' if d[1] else 'cannot be', d[0]), w)
        return '%d kinds of fields' % n

    def whole():
        F, w = fieldp()
        P, f, s = top()
        sig = SIGMA | g.chars(P)
        ls = [g.lang(a, sig) for a in g.alts(g.expand(F))]
        d = distinguish(alt(*ls), ref(sig)['field'], sig)
        if d:
            raise Bad('the text %r is %sread as one field' % (d[0], '' if d[1] else 'not '), w)
        return '%d alternatives' % len(ls)
    ctx.ob('language of fields', whole)

    def value_fraction(P, w):
        seen = set()
        for shape, v, conds in g.derive(P):
            v = nums(g, v)
            conds = [(nums(g, t), y) for t, y in conds]
            sh = [x for x in shape if x != 'sp0']
            sgn = -1 if sh[0] == '-' else 1
            if [x for x in sh if x not in '+-'] != ['dig', '/', 'dig']:
                raise Und('fraction of shape %s' % (shape,))
            text = ''.join('2' if x == 'dig' else x for x in sh)
            if v.op != 'agg' or not isinstance(v.args[1], int):
                raise Und('value of a fraction %s' % show(v))
            if v.args[1] != 0:
                raise Bad('%r is read as %s' % (text, FIELD[v.args[1]]), w)
            q = canon(v.args[2])
            want = canon(mk('call', 'Ratio::new', mul_(sgn, mk('num', 0)), mk('num', 1)))
            alt_ = canon(mul_(sgn, mk('call', 'Ratio::new', mk('num', 0), mk('num', 1))))
            if q is not want and q is not alt_:
                if simple_form(q) or all(x.op in ('call', 'num', 'poly', 'int', 'neg') for x in subterms(q)) and calls_in(q) <= {'Ratio::new', 'Ratio::recip', 'Ratio::new_raw'}:
                    raise Bad('%r is read as %s' % (text, show(q)), w)
                raise Und('fraction %s' % show(q))
            for t, y in conds:
                ln = [x for x in subterms(t) if x.op == 'len' and x.args[0].op == 'dig']
                if len(ln) == 1:
                    # longest number of digits accepted
                    ok = [k for k in range(1, 25) if lencond(t, ln[0], k) == y]
                    if 11 in ok or 10 in ok:
                        raise Bad('a number of %d digits overflows' % max(k for k in ok if k < 12), w)
                    if not {1, 2, 3, 9} <= set(ok):
                        raise Bad('a fraction whose number has %d digits is not read' % min({1, 2, 3, 9} - set(ok)), w)
                    continue
                if t is canon(mk('eq', mk('num', 1), INT(0))) and y == 0 or t is canon(mk('lt', INT(0), mk('num', 1))) and y == 1:
                    seen.add(text)
                    continue
                if t.op == 'discr' or contains(t, lambda z: z.op in ('call', 'apply')):
                    continue
                raise Bad('a fraction like %r is not read unless %s = %s' % (text, show(t), y), w)
            if text not in seen and not any(t.op == 'discr' for t, y in conds):
                raise Bad('a fraction with denominator 0 is not rejected', w)
        return

    def lencond(t, ln, k):
        try:
            return sval14(t, {ln: k})
        except NoStr:
            raise Und('condition %s' % show(t))

    def mul_(s, t):
        return mk('mul', 'i', INT(s), t)

    def value_number(P, w):
        Q = g.expand(P)
        if g.name(Q) != 'map_opt' and g.name(Q) != 'map':
            raise Und('number')
        x = mk('arg', 'x')
        fn = Q.args[2]
        steps = g.call(fn, x)
        inf = float('inf')
        for v in (0.0, 1.0, -1.0, 7.0, -12.0, 0.5, -0.25, 1e-9, 2147483647.0, -2147483648.0, 2147483648.0, -2147483649.0, 4294967296.0, 4294967297.0, 1e18, 1e300, 2.5, inf, -inf, float('nan')):
            outs = set()
            for conds, r, k in steps:
                try:
                    if not all((fval(t, x, {x: v}) == y) if isinstance(y, int) else fval(t, x, {x: v}) not in y[1] for t, y in conds):
                        continue
                    if k != 'return':
                        outs.add('panic')
                        continue
                    if g.name(Q) == 'map':
                        r = SOME(r)
                    if r.op != 'agg':
                        raise Und('value of a number %s' % show(r))
                    if r.args[1] == 0:
                        outs.add(None)
                    else:
                        r = r.args[2]
                        if r.op != 'agg' or not isinstance(r.args[1], int):
                            raise Und('value of a number %s' % show(r))
                        outs.add((FIELD[r.args[1]], fval(r.args[2], x, {x: v})))
                except NoStr as e:
                    raise Und('value of a number: %s' % e)
            if len(outs) != 1:
                raise Und('%d values of a number' % len(outs))
            got = outs.pop()
            if not math.isfinite(v):
                want = None
            elif v == int(v) and -2**31 <= v < 2**31:
                want = ('Int', int(v))
            else:
                want = ('Double', v)
            if got != want:
                raise Bad('the number %r is %s' % (v, 'not read' if got is None else 'read as %s' % (got,)), w)
    ctx.ob('kinds and values of fields', fields)
