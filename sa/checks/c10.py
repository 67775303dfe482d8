"""C10: readers of text never panic."""
import re
from ..rules import *
from ..graphs import backs, phis
from ..nomg import *
from ..nomg import compile_
from .. import mir
from .c12 import G

LEVEL = 'other'
TECHNIQUE = 'panic site analysis over MIR: every index, slice, unwrap, division, overflow and panicking call reachable from a reader, with the facts that dominate it and the language of the grammar as domain'
RULE = ('Every operation that can panic and is reachable from a reader of text (functions given to parser combinators included) is collected with the conditions that dominate it. '
        'It must be excluded by them for every text: lengths of lists and texts, the characters a token can have, results known to be present, divisors known not to be zero, numbers of bounded length.')
PROP = {
    'title': 'Readers of text never panic',
    'statement': 'Reading CGD lines and blocks, operators, coordinate changes, names of crystal systems and centerings, and space group tables returns a value or reports failure for every text or byte stream; '
                 'no malformed, truncated or extreme input (missing fields, zero denominators, long numbers, singular transformations, stray operators, invalid UTF-8, characters beyond ASCII) makes it panic.',
    'quantifier': {'over': ['inputs'], 'text': 'all texts and byte streams'},
    'why_tests_cant': 'Tests read well formed texts and the table shipped with the program.',
    'anchors': {'files': ['src/io/parse_cgd_line.rs', 'src/io/parse_cgd_blocks.rs', 'src/spacegroups/parse_operator.rs', 'src/spacegroups/parse_table.rs'],
                'mechanism': 'index, slice and unwrap operations, divisions and unchecked arithmetic of the readers'},
}
FILES = ('io/parse_cgd_line.rs', 'io/parse_cgd_blocks.rs', 'spacegroups/parse_operator.rs', 'spacegroups/parse_table.rs')
SKIP = ('fmt', 'clone', 'eq', 'hash', 'write_op', 'write_op_row', 'ne', 'assert_receiver_is_total_eq')
NOM = {'map_opt', 'map', 'map_res', 'verify', 'map_parser', 'flat_map', 'alt', 'tuple', 'pair', 'preceded', 'terminated', 'delimited', 'separated_pair', 'separated_list0', 'separated_list1',
       'many0', 'many1', 'many_till', 'fold_many0', 'fold_many1', 'opt', 'recognize', 'all_consuming', 'complete', 'cut', 'value', 'take_till', 'take_till1', 'take_while', 'take_while1', 'peek', 'not', 'cond', 'consumed', 'into'}
PICK = {'tuple': None, 'pair': None, 'preceded': 1, 'terminated': 0, 'delimited': 1, 'separated_pair': (0, 2)}
SIG = set('aez_.+-/"# \t013é,xyz*') | set('ĠĢģĉ٣')
PANICKY = {'remove', 'swap_remove', 'insert', 'drain', 'split_off', 'split_at', 'split_at_mut', 'copy_from_slice', 'clone_from_slice', 'chunks', 'windows', 'chunks_exact', 'step_by', 'replace_range', 'insert_str', 'swap', 'rotate_left', 'rotate_right', 'copy_within'}
RUST = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'i128': 127, 'isize': 63}


def infiles(f):
    return f.file.endswith(FILES)


class Rd(G):
    """values of parsers with the texts of tokens as unknowns"""

    def vals(self, P, depth=0):
        if depth > 12:
            raise Und('nesting of parsers')
        Q = self.expand(P)
        n = self.name(Q)
        a = list(Q.args[1:]) if Q.op == 'call' else []
        V = lambda x: self.vals(x, depth + 1)
        if n in PICK:
            ps = self.tup(a[0]) if n == 'tuple' else a
            out = [((), [])]
            for x in ps:
                out = [(c1 + c2, vs + [v]) for c1, vs in out for c2, v in V(x)]
                if len(out) > 400:
                    raise Und('too many shapes')
            pk = PICK[n]
            return [(c, vs[pk] if isinstance(pk, int) else mk('agg', 'tuple', None, *([vs[i] for i in pk] if pk else vs))) for c, vs in out]
        if n == 'alt':
            return [r for x in self.tup(a[0]) for r in V(x)]
        if n in ('all_consuming', 'complete', 'cut'):
            return V(a[0])
        if n in ('many0', 'separated_list0', 'many1', 'separated_list1'):
            return [((), mk('plist', int(n.endswith('1')), a[-1]))]
        if n == 'opt':
            return [((), mk('agg', 'std::option::Option', 0))] + [(c, SOME(v)) for c, v in V(a[0])]
        if n == 'value':
            return [((), a[0])]
        if n == 'char':
            return [((), a[0])]
        if n == 'one_of':
            return [((), INT(ord(c))) for c in a[0].args[0]]
        if n == 'double':
            return [((), mk('pv', Q))]
        if n in ('map_opt', 'map', 'verify', 'map_res'):
            out = []
            for c, v in V(a[0]):
                if not self.local(a[1]):
                    out.append((c, mk('pv', Q)))
                    continue
                for c2, w, k in self.call(a[1], v):
                    if k != 'return' or w is None:
                        continue
                    if n == 'map':
                        out.append((c + c2, w))
                    elif n == 'verify':
                        out.append((c + c2 + ((w, 1),), v))
                    elif w.op == 'agg':
                        if w.args[1] == (1 if n == 'map_opt' else 0):
                            out.append((c + c2, w.args[2]))
                    else:
                        k = 1 if n == 'map_opt' else 0
                        out.append((c + c2 + ((mk('discr', w), k),), E.getfield(w, 0, k)))
            return out
        if Q.op in ('call', 'fn') and n in ('space0', 'space1', 'multispace0', 'multispace1', 'digit0', 'digit1', 'rest', 'tag', 'tag_no_case', 'take_while', 'take_while1', 'take_till', 'take_till1', 'take_until', 'take_until1', 'recognize'):
            self.occ += 1
            return [((), mk('ptext', Q, self.occ))]
        return [((), mk('pv', Q))]

    def domain(self, P):
        """(shortest length in bytes, longest (None: unbounded), characters) of the texts of a token"""
        if P in self._dom:
            return self._dom[P]
        sig = SIG | self.chars(P)
        n, s, e = compile_(self.lang(P, sig))
        seen = {frozenset(s)}
        layer = {frozenset(s)}
        lo = hi = None
        cs = set()
        for k in range(0, 40):
            if any(e in S for S in layer):
                lo = k if lo is None else lo
                hi = k
            nx = set()
            for S in layer:
                for c in sig:
                    T_ = n.step(S, c)
                    if T_:
                        nx.add(frozenset(T_))
            layer = nx
        r = lo, (None if hi is not None and hi >= 38 else hi), None
        # characters: the ones on some accepted text
        ok = set()
        for c in sig:
            st = [frozenset(s)]
            vis = set(st)
            hit = False
            after = []
            while st:
                S = st.pop()
                T_ = n.step(S, c)
                if T_:
                    after.append(frozenset(T_))
                for d in sig:
                    X = frozenset(n.step(S, d))
                    if X and X not in vis:
                        vis.add(X)
                        st.append(X)
            vis2 = set(after)
            st = list(after)
            while st and not hit:
                S = st.pop()
                if e in S:
                    hit = True
                for d in sig:
                    X = frozenset(n.step(S, d))
                    if X and X not in vis2:
                        vis2.add(X)
                        st.append(X)
            if hit:
                ok.add(c)
        self._dom[P] = (r[0], r[1], ok)
        return self._dom[P]

    _dom = {}
    occ = 0


class Dom:
    """three valued evaluation of facts with atoms replaced by numbers"""

    def __init__(self, rd, facts):
        self.rd = rd
        self.facts = facts

    def ev(self, t, env):
        if t in env:
            return env[t]
        o = t.op
        a = t.args
        if o == 'int':
            return a[0]
        if o == 'not':
            x = self.ev(a[0], env)
            return None if x is None else 1 - x if x in (0, 1) else None
        if o == 'eq' and INT(0) in a[-2:] or o == 'lt' and a[-2] is INT(0):
            z = a[-1] if a[-2] is INT(0) else a[-2]
            if z.op == 'len' and unit(z.args[0]) is not z.args[0]:
                n = env.get(('len', unit(z.args[0])))
                return None if n is None else int((n == 0) == (o == 'eq'))
        if o in ('eq', 'lt'):
            x, y = (self.ev(z, env) for z in a[-2:])
            if x is None or y is None:
                return None
            return int(x == y) if o == 'eq' else int(x < y)
        if o == 'poly':
            r = 0
            for m, c in a:
                for x, e in m:
                    v = self.ev(x, env)
                    if v is None:
                        return None
                    c = c * v ** e
                r += c
            return r
        if o == 'cast':
            return self.ev(a[-1], env)
        if o == 'and' or o == 'or':
            xs = [self.ev(z, env) for z in a if isinstance(z, T)]
            if o == 'and':
                return 0 if 0 in xs else None if None in xs else 1
            return 1 if 1 in xs else None if None in xs else 0
        if o in ('min', 'max'):
            xs = [self.ev(z, env) for z in a[-2:]]
            return None if None in xs else (min if o == 'min' else max)(xs)
        if o == 'len':
            n = env.get(('len', a[0]))
            return n
        if o == 'call' and a[0].endswith('is_empty') and len(a) == 2:
            n = env.get(('len', a[1]))
            return None if n is None else int(n == 0)
        if o == 'discr':
            x = a[0]
            if x.op == 'agg' and isinstance(x.args[1], int):
                return x.args[1]
            r = look(x)
            if r is not None:
                v, k = r
                n = env.get(('len', v))
                if n is None:
                    return None
                return int(n > k) if k >= 0 else int(n >= -k - 1)
        return None

    def fits(self, env):
        """1 all facts hold, 0 some fails, None some are not known"""
        r = 1
        for t, v in self.facts:
            x = self.ev(t, env)
            if x is None:
                r = None if r == 1 else r
            elif (x != v) if isinstance(v, int) else (x in v[1]):
                return 0
        return r


def look(x):
    """x: Option of element k of v -> (v, k); of the tail from k on -> (v, -k-1)"""
    if x.op != 'call':
        return None
    n = x.args[0].rsplit('::', 1)[-1]
    a = x.args[1:]
    if n in ('get', 'get_mut', 'nth') and len(a) == 2:
        v, k = a
        if n == 'nth':
            v = unit(v)
        if k.op == 'int':
            return v, k.args[0]
        if k.op == 'agg' and str(k.args[0]).rsplit('::', 1)[-1] in ('RangeFrom',) and k.args[2].op == 'int':
            return v, -k.args[2].args[0] - 1
    if n in ('first', 'last', 'next', 'first_mut', 'last_mut', 'next_back', 'split_first', 'split_last', 'pop', 'max', 'min') and len(a) == 1:
        return unit(a[0]), 0
    return None


def unit(v):
    """texts as lists of bytes: only whether they are empty is used for characters"""
    if v.op == 'call' and v.args[0] in ('str::bytes', 'str::chars', 'str::as_bytes', 'str::char_indices') and len(v.args) == 2:
        return v.args[1]
    return v


def inputs(t):
    """does the term come from the text read"""
    return any(x.op in ('arg', 'ptext', 'plist', 'pv') or x.op == 'call' and x.args[0].endswith(('lines', 'finish')) for x in subterms(t))


def lens(rd, D, v, upto=40):
    """lengths of v that the facts allow; second: are all facts about v understood"""
    lo, hi = 0, None
    if v.op == 'ptext':
        d = rd.domain(v.args[0])
        if d[0] is None:
            return [], True
        lo, hi = d[0], d[1]
    elif v.op == 'plist':
        lo = v.args[0]
    elif v.op == 'from_elem' and v.args[1].op == 'int':
        lo = hi = v.args[1].args[0]
    elif v.op == 'agg' and v.args[0] == 'array':
        lo = hi = len(v.args) - 2
    elif v.op == 'call' and v.args[0] in ('str::split', 'str::rsplit', 'str::splitn'):
        lo = 1
    elif v.op == 'call' and v.args[0] == 'str::split_whitespace':
        x = v.args[1]
        if x.op == 'call' and x.args[0] in ('str::trim', 'str::trim_start', 'str::trim_end'):
            ns, ok = lens(rd, D, x)
            if 0 not in ns:
                lo = 1
            elif any(t.op == 'call' and t.args[0].endswith('starts_with') and t.args[1] is x and y == 1 for t, y in D.facts):
                lo = 1
    elif v.op == 'str':
        lo = hi = len(v.args[0])
    elif v.op == 'islice' and all(x.op == 'int' for x in v.args[1:]):
        lo = hi = v.args[2].args[0] - v.args[1].args[0]
    elif v.op in ('comp', 'fold', 'concat', 'chain', 'upd', 'phi', 'store', 'pushed'):
        n = canon(t_len(v))
        if n.op == 'int':
            lo = hi = n.args[0]
        elif n.op == 'len':
            return list(range(upto)), False
        else:
            # a length made of other lengths
            src = {x.args[0] for x in subterms(n) if x.op == 'len'}
            if len(src) == 1:
                w = src.pop()
                ns, ok = lens(rd, D, w, upto)
                r = {D.ev(n, {('len', w): k}) for k in ns}
                if None in r:
                    return list(range(upto)), False
                return sorted(r), ok
            return list(range(upto)), False
    ok = True
    for t, y in D.facts:
        for x in subterms(t):
            if x.op == 'idx' and (x.args[0] is v or unit(x.args[0]) is v) and x.args[1].op == 'int':
                lo = max(lo, x.args[1].args[0] + 1)
    ns = []
    for n in range(lo, (hi if hi is not None else lo + upto) + 1):
        if D.fits({('len', v): n}) != 0:
            ns.append(n)
    for t, y in D.facts:
        if not contains(t, lambda z: z is v):
            continue
        if D.ev(t, {('len', v): 1}) is not None:
            continue
        # mentions elements only, or the split of the text
        if all(not contains(z, lambda q: q is v) or benign(z, v) for z in [t]):
            continue
        ok = False
    return ns, ok


def benign(t, v):
    """t uses v only through elements, as a text that is split or parsed, or compares it with constants"""
    if t is v:
        return False
    if t.op == 'idx' and t.args[0] is v or t.op in ('idx', 'len') and unit(t.args[0]) is v:
        return True
    if t.op == 'call' and t.args[0].endswith(('starts_with', 'ends_with', 'contains')):
        return True
    if t.op == 'eq' and any(z.op == 'str' for z in t.args[-2:]):
        return True
    if t.op == 'call' and t.args[0] in ('str::trim', 'str::split_whitespace', 'str::to_lowercase', 'slice::join', 'str::trim_start', 'str::trim_end', 'slice::get'):
        return True
    if t.op in ('discr', 'fld', 'len', 'not', 'idx', 'islice', 'apply'):
        return all(benign(z, v) for z in t.args if isinstance(z, T) and contains(z, lambda q: q is v))
    if t.op == 'call' and t.args[0].endswith(('finish', 'inverse', 'new', 'vstack', 'is_identity')):
        return True
    if t.op in ('eq', 'lt', 'poly', 'comp'):
        return all(benign(z, v) for z in subs1(t) if contains(z, lambda q: q is v))
    return False


def subs1(t):
    out = []
    for z in t.args:
        if isinstance(z, T):
            out.append(z)
        elif isinstance(z, tuple):
            st = [z]
            while st:
                q = st.pop()
                for w in q:
                    if isinstance(w, T):
                        out.append(w)
                    elif isinstance(w, tuple):
                        st.append(w)
    return out


class Judge:
    def __init__(self, ctx, rd):
        self.ctx = ctx
        self.rd = rd

    def rows(self, v):
        """v is the row of a coordinate of the operator: (list of coordinates, number of coefficients)"""
        if v.op == 'fld' and v.args[2].op == 'idx' and v.args[2].args[0].op == 'plist' and self.rowlen is not None and v.args[0] == 0:
            return v.args[2].args[0], self.rowlen
        return None

    def beyond(self, v, ends, D):
        """some operator for which an end is beyond its row"""
        r = self.rows(v)
        if r is None:
            return False
        n = 0
        for k in range(1, 7):
            env = {('len', r[0]): k, ('len', v): r[1]}
            vs = [D.ev(z, env) for z in ends]
            if None in vs:
                raise Und('end of a row')
            fit = D.fits(env)
            if fit == 0:
                continue
            if any(contains(t, lambda z: z is mk('len', r[0]) or z is mk('len', v)) and D.ev(t, env) is None for t, y in D.facts):
                raise Und('end of a row')
            if max(vs) > r[1]:
                raise Bad('an operator with %d coordinates uses coefficient %d of a row of %d' % (k, max(vs) - 1, r[1]))
            n += 1
        return True

    # each returns 'ok', or raises Und / Bad
    def index(self, v, k, D):
        if k.op == 'ix' and self.rows(v):
            if self.beyond(v, [canon(k.args[1])], D):
                return 'ok'
        if k.op == 'ix' and canon(k.args[1]) is canon(t_len(v)):
            return 'ok'
        if k.op != 'int':
            raise Und('index %s' % show(k))
        if v.op == 'phi':
            n = self.phi_len.get(v)
            if n is not None:
                if k.args[0] < n:
                    return 'ok'
                raise Bad('element %s of a list of %d elements is used' % (show(k), n))
        ns, ok = lens(self.rd, D, v)
        if all(n > k.args[0] for n in ns):
            return 'ok'
        if not ok or opaque(v):
            raise Und('list %s' % show(v))
        raise Bad('element %s of %s is used although it may have only %d' % (show(k), show(v)[:160], min(ns)))

    def slice(self, v, lo, hi, D, text):
        if text:
            if lo.op == 'int' and lo.args[0] == 0 and canon(hi) is canon(t_len(v)):
                return 'ok'
            own = lambda t: contains(t, lambda z: z.op == 'call' and z.args[0].rsplit('::', 1)[-1] in ('find', 'rfind', 'char_indices', 'len_utf8', 'match_indices', 'position', 'is_char_boundary', 'floor_char_boundary')
                                     and contains(z, lambda q: q is v)) or contains(subst(t, {v: mk('arg', 'v')}), lambda z: z.op == 'ix')
            if own(lo) or own(hi) or any(own(t) for t, y in D.facts if contains(t, lambda z: z is v)):
                raise Und('part of a text')
            ends = [z for z in (lo, hi) if not (z.op == 'int' and z.args[0] == 0) and canon(z) is not canon(t_len(v))]
            if v.op == 'ptext':
                d = self.rd.domain(v.args[0])
                if d[2] is not None and all(c.isascii() for c in d[2]):
                    if all(z.op == 'int' and (d[0] or 0) >= z.args[0] for z in ends):
                        return 'ok'
                    raise Und('part of a token')
            if not all(z.op == 'int' for z in ends):
                if all(is_lin(z) for z in ends) and inputs(v):
                    raise Und('part of a text')
                raise Und('part of a text')
            k = max(z.args[0] for z in ends)
            for t, y in D.facts:
                if t.op == 'call' and t.args[0].endswith('starts_with') and t.args[1] is v and y == 1:
                    c = t.args[2]
                    s = chr(c.args[0]) if c.op == 'int' else c.args[0] if c.op == 'str' else None
                    if s is None:
                        raise Und('part of a text')
                    if s.isascii() and len(s) >= k:
                        return 'ok'
            if not inputs(v):
                raise Und('part of a text')
            raise Bad('the text %s is cut at byte %d, which may be beyond its end or inside a character' % (show(v)[:160], k))
        L = canon(t_len(v))
        if self.rows(v) and self.beyond(v, [lo, canon(hi)], D):
            return 'ok'
        if lo.op == 'int' and canon(hi) is L:
            if lo.args[0] == 0:
                return 'ok'
            k = lo.args[0]
        elif lo.op == 'int' and hi.op == 'int':
            k = max(lo.args[0], hi.args[0])
        else:
            raise Und('part %s..%s' % (show(lo), show(hi)))
        ns, ok = lens(self.rd, D, v)
        if all(n >= k for n in ns):
            return 'ok'
        if not ok or opaque(v):
            raise Und('list %s' % show(v))
        raise Bad('%s is cut at element %d although it may have only %d' % (show(v)[:160], k, min(ns)))

    def unwrap(self, t, kind, D):
        if t.op == 'agg':
            if t.args[1] == (1 if kind == 'none' else 0):
                return 'ok'
            for x in {unit(x.args[0]) for f, y in D.facts for x in subterms(f) if x.op == 'len'}:
                if not lens(self.rd, D, x)[0]:
                    return 'ok'
            if any(opaque(x) for f, y in D.facts for x in subterms(f)):
                raise Und('missing value')
            raise Bad('a missing value is used')
        if mentioned(D, mk('discr', t)):
            raise Und('value %s' % show(t))
        r = look(t)
        if r is not None:
            v, k = r
            if v.op == 'map' or 'HashMap' in t.args[0] or 'BTreeMap' in t.args[0]:
                return self.lookup(t, D)
            if k >= 0 and unit(t.args[1]) is not t.args[1] and 'bytes' not in t.args[1].args[0] and k > 0:
                raise Und('characters')
            ns, ok = lens(self.rd, D, v)
            need = (lambda n: n > k) if k >= 0 else (lambda n: n >= -k - 1)
            if all(need(n) for n in ns):
                return 'ok'
            if not ok or opaque(v) or not inputs(v):
                raise Und('list %s' % show(v))
            raise Bad('%s is used although it may be missing' % show(t)[:200])
        if t.op == 'call':
            n = t.args[0].rsplit('::', 1)[-1]
            x = t.args[1] if len(t.args) > 1 else None
            if n == 'to_digit' and t.args[2] is INT(10):
                src = {z.args[0] for z in subterms(x) if z.op == 'ptext'}
                if len(src) == 1:
                    cs = self.rd.domain(src.pop())[2]
                    bad = sorted(c for c in cs if c not in '0123456789')
                    if not bad:
                        return 'ok'
                    if any(contains(f, lambda z: z is x) for f, y in D.facts):
                        raise Und('digit')
                    raise Bad('the character %r of a number is read as a digit' % bad[0])
                raise Und('digit of %s' % show(x))
            if n == 'parse' or n == 'from_str':
                return self.parse(t, x, D)
            if n in ('finish', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once', 'find', 'rfind', 'inverse', 'checked_add', 'checked_sub', 'checked_mul', 'checked_neg', 'checked_div'):
                if not inputs(t):
                    raise Und('value %s' % show(t))
                if n not in ('inverse', 'finish') and any(contains(f, lambda z: z is x) for f, y in D.facts):
                    raise Und('value %s' % show(t))
                raise Bad('the result of %s is used although it may be missing' % show(t)[:200])
            if n in ('get', 'get_mut', 'remove', 'entry', 'get_key_value'):
                return self.lookup(t, D)
        if t.op == 'mget' or t.op == 'mapget':
            return self.lookup(t, D)
        if t.op == 'idx' and t.args[0].op == 'call' and t.args[0].args[0].endswith('lines'):
            raise Bad('a line that cannot be read is used')
        raise Und('value %s' % show(t))

    def parse(self, t, x, D):
        if x.op == 'ptext':
            d = self.rd.domain(x.args[0])
            ns, ok = lens(self.rd, D, x)
            if not ok:
                raise Und('number %s' % show(x))
            if all(c in '0123456789' for c in d[2]) and d[0] and ns and max(ns) <= 9:
                return 'ok'
            ty = t.args[-1] if len(t.args) > 2 and isinstance(t.args[-1], str) else None
            if all(c in '0123456789' for c in d[2]) and max(ns) >= 40:
                raise Bad('a number with any number of digits is read as if it were in range')
            raise Und('number %s' % show(x))
        if inputs(x) and not any(contains(f, lambda z: z is x) for f, y in D.facts):
            raise Bad('the text %s is used as if it were a number' % show(x)[:160])
        raise Und('number %s' % show(x))

    def lookup(self, t, D):
        m = t.args[1] if t.op == 'call' else t.args[0]
        if empty_map(m):
            raise Bad('%s is looked up while nothing has been entered yet' % show(t.args[2] if t.op == 'call' and len(t.args) > 2 else t.args[-1])[:120])
        raise Und('entry of %s' % show(m))

    def zero(self, d, D, what):
        if d.op == 'int':
            if d.args[0] == 0:
                raise Bad('%s by zero' % what)
            return 'ok'
        core = d
        while core.op == 'cast':
            core = core.args[-1]
        if core.op in ('poly',):
            raise Und('divisor %s' % show(d))
        dg = digits(core)
        env = {core: 0, d: 0}
        if dg is not None:
            x = dg
            for n in range(1, 40):
                if D.fits({**env, ('len', x): n}) != 0:
                    break
            else:
                return 'ok'
            env[('len', x)] = n
        r = D.fits(env)
        if r == 0:
            return 'ok'
        for t, y in D.facts:
            if contains(t, lambda z: z is core or z is d) and D.ev(t, env) is None:
                raise Und('divisor %s' % show(d))
        if dg is None and not (core.op == 'fld' and contains(core, lambda z: z.op in ('arg', 'pv'))):
            raise Und('divisor %s' % show(d))
        raise Bad('%s by a number read from the text that may be zero' % what)

    def overflow(self, e, D):
        kind, cond, exp, det = e[1], e[2], e[3], e[4]
        if kind == 'bounds' and cond.op == 'lt':
            c = canon(self.N(cond))
            if c.op == 'int':
                return 'ok' if c.args[0] == 1 else self.und('bounds')
            if c.op == 'not':
                raise Und('bounds')
            ls = {x.args[0] for x in subterms(c) if x.op == 'len'}
            if len(ls) == 1:
                v = ls.pop()
                ns, ok = lens(self.rd, D, unit(v))
                vs = [D.ev(c, {('len', v): n}) for n in ns]
                if None not in vs:
                    if all(vs):
                        return 'ok'
                    if ok and inputs(v) and not opaque(v):
                        raise Bad('an element of %s is used although it may have only %d' % (show(v)[:160], ns[vs.index(0)]))
            k, n = c.args[-2:]
            if n.op == 'len' and k.op == 'int':
                return self.index(unit(n.args[0]), k, D)
            raise Und('bounds %s' % show(c))
        if kind == 'overflow':
            op, x, y = det[0], det[1], det[2]
            acc = [z for z in (x, y) if isinstance(z, T) and contains(z, lambda q: q.op == 'bv' and str(q.args[0]).startswith('acc'))]
            if acc:
                src = {q for q in self.texts}
                if len(src) != 1:
                    raise Und('fold over %s' % (src,))
                v = src.pop()
                ns, ok = lens(self.rd, D, v, 60)
                ty = self.acc_ty
                if not ok or ty not in RUST:
                    raise Und('fold')
                if not ns or 10 ** max(ns) - 1 < 2 ** RUST[ty]:
                    return 'ok'
                cs = self.rd.domain(v.args[0])[2] if v.op == 'ptext' else None
                if cs is None or '3' not in cs and '1' not in cs:
                    raise Und('digits')
                raise Bad('a number of %s digits does not fit the type %s' % (max(ns) if max(ns) < 40 else 'any number of', ty))
            if op in ('Sub', 'SubWithOverflow') and isinstance(x, T) and isinstance(y, T):
                if x.op == 'len' and y.op == 'int':
                    ns, ok = lens(self.rd, D, x.args[0])
                    if all(n >= y.args[0] for n in ns):
                        return 'ok'
                    if not ok or opaque(x.args[0]) or not inputs(x):
                        raise Und('difference')
                    raise Bad('%s - %s is below zero when it has fewer elements' % (show(x)[:160], show(y)))
            if op in ('Add', 'AddWithOverflow') and isinstance(x, T) and x.op == 'phi' and y is INT(1):
                return 'ok'       # a counter of lines
        ty = self.acc_ty
        if ty in RUST:
            top = 2 ** RUST[ty] - 1
            low = -top - 1 if ty.startswith('i') else 0
            if kind == 'overflowneg':
                r = self.range(det[1], D)
                if r and -r[0] <= top and -r[1] >= low:
                    return 'ok'
                if r and self.texts:
                    raise Bad('the negative of %s does not fit the type %s' % (show(det[1])[:120], ty))
                raise Und('negation')
            if kind == 'overflow' and len(det) >= 3:
                x, y = (self.range(z, D) for z in det[1:3])
                if x and y:
                    f = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b}.get(det[0][:3])
                    if f:
                        vs = [f(a, b) for a in x for b in y]
                        if min(vs) >= low and max(vs) <= top:
                            return 'ok'
                        if all(z.op == 'int' or digits(strip_cast(z)) is not None for z in det[1:3]) and len({strip_cast(z) for z in det[1:3]}) == 2 and not any(contains(t, lambda q: q in det[1:3]) for t, v in D.facts):
                            raise Bad('%s of numbers read from the text does not fit the type %s' % (det[0], ty))
        raise Und('%s %s' % (kind, show(cond)[:100] if isinstance(cond, T) else cond))

    def range(self, t, D):
        """bounds of a number, reached by some text"""
        if t.op == 'int':
            return t.args[0], t.args[0]
        if t.op == 'cast':
            r = self.range(t.args[-1], D)
            if r and t.args[1] in RUST and r[1] < 2 ** RUST[t.args[1]] and r[0] >= (-2 ** RUST[t.args[1]] if t.args[1].startswith('i') else 0):
                return r
            return None
        x = digits(t)
        if x is not None:
            ns, ok = lens(self.rd, D, x, 60)
            if ok and ns:
                return 0, 10 ** min(max(ns), 40) - 1
        if t.op == 'fld' and digits(strip_cast(t.args[2])) is not None:
            return None
        if t.op == 'poly':
            lo = hi = 0
            for m, c in t.args:
                a, b = c, c
                for x, e in m:
                    r = self.range(x, D)
                    if r is None:
                        return None
                    vs = [p * q ** e for p in (a, b) for q in r]
                    a, b = min(vs), max(vs)
                lo, hi = lo + a, hi + b
            return lo, hi
        return None


def strip_cast(t):
    while t.op == 'cast':
        t = t.args[-1]
    return t


def is_lin(t):
    return t.op in ('poly', 'int', 'len')


def digits(t):
    """the number of a digit fold -> its text"""
    if t.op == 'fold':
        src = [x for x in subterms(t.args[0]) if x.op in ('ptext', 'arg')]
        if len(src) == 1:
            return src[0]
    return None


def mentioned(D, t):
    return any(contains(f, lambda z: z is t) for f, y in D.facts)


def opaque(v):
    return contains(v, lambda z: z.op == 'phi') or v.op in ('upd', 'apply')


def empty_map(m):
    return m.op == 'map' and len(m.args) == 0 or m.op == 'agg' and m.args[0] in ('map', 'emptymap') or m.op == 'call' and m.args[0].rsplit('::', 1)[-1] in ('new', 'default', 'with_capacity') and 'Map' in m.args[0] or m.op in ('emptymap', 'mapnew')


def run(ctx):
    rd = Rd(ctx, lambda f: infiles(f) and f.kind != 'Closure')
    rd._dom = {}
    J = Judge(ctx, rd)
    J.N = lambda t: t
    J.rowlen = None
    try:
        J.rowlen = rowlength(ctx, rd)
    except (Bad, Und):
        pass
    fs = [f for f in ctx.lib.fns if infiles(f) and f.kind != 'Closure' and f.name not in SKIP and not f.path.endswith('::fmt')]
    inl = lambda g: (infiles(g) and g.name not in SKIP) or g.short == 'CoordinateMap::new' or g.short == 'CoordinateMap::from'
    roots = [(f, None) for f in fs if f.d.get('pub')]
    done = set()
    work = list(roots)
    sites = {}
    ctx.counts['readers'] = len(roots)

    def enqueue(t):
        """functions handed to parser combinators in t"""
        for x in subterms(t):
            if x.op == 'call' and x.args[0].rsplit('::', 1)[-1] in NOM:
                n = x.args[0].rsplit('::', 1)[-1]
                for y in x.args[1:]:
                    for z in ([y] if y.op != 'agg' or y.args[0] != 'tuple' else list(y.args[2:])):
                        if z.op == 'call':
                            z = rd.expand(z) if not [q for q in z.args[1:]] else z
                        if rd.local(z) if z.op in ('fn',) or z.op == 'agg' else False:
                            sem = n in ('map_opt', 'map', 'map_res', 'verify') and z is (x.args[2] if x.args[2].op != 'call' else rd.expand(x.args[2]))
                            work.append((z, x.args[1] if sem else None))

    while work:
        f, P = work.pop()
        m0 = None
        if isinstance(f, T):
            z = f
            f = rd.fn(z) if z.op == 'fn' else ctx.lib.by_id.get(z.args[0][1])
            if f is None or (f.id, P) in done:
                continue
            done.add((f.id, P))
            base = mk('arg', 0 if z.op == 'fn' else 1)
            cap = {}
            if z.op != 'fn':
                for i, c in enumerate(z.args[2:]):
                    cap[E.getfield(mk('arg', 0), i)] = c
            if P is not None:
                try:
                    vs = rd.vals(P)
                    m0 = [{base: v, **cap} for c, v in vs]
                    conds = [c for c, v in vs]
                except Und:
                    m0 = None
            isnom = True
        else:
            if (f.id, None) in done:
                continue
            done.add((f.id, None))
            isnom = False
        ctx.ob('%s does not panic%s' % (f.short or f.path, ' on the texts given to it' if isnom else ''), one, ctx, rd, J, f, inl, m0 and list(zip(m0, conds)), isnom, enqueue, sites)
    ctx.counts['panic sites'] = len(sites)
    ctx.ob('operators read are square', square, ctx, rd)
    ctx.ob('fractions are added with checks', checked, ctx)


def one(ctx, rd, J, f, inl, doms, isnom, enqueue, sites):
    s = ctx.summary(f, inline_if=inl)
    J.phi_len = {}
    ini = phis(s)
    new = {}
    for p, key, nw in backs(s):
        for ph, v in nw.items():
            new.setdefault(ph, []).append(v)
    for ph, v in ini.items():
        n = canon(t_len(v))
        if n.op == 'int' and all(stored(x, ph) for x in new.get(ph, [])):
            J.phi_len[ph] = n.args[0]
    n = 0
    unds = []
    for p in s.paths:
        if p.ret is not None and isinstance(p.ret, T):
            enqueue(p.ret)
        for t, v in p.st.rel:
            enqueue(t)
        for e, k in p.st.event_list():
            if e[0] == 'call':
                for x in e[2]:
                    if isinstance(x, T):
                        enqueue(p.norm(x))
            st = site(p, e)
            if st is None:
                continue
            where, sp = st
            facts = [(canon(p.norm(t)), v) for t, v in p.st.rel[:k]]
            facts = [x for x in (E.canon_bool(c, v) + () if isinstance(v, int) and c.op == 'not' else (c, v) for c, v in facts) if x[0].op != 'int']
            if e[0] == 'unwrap':
                d = mk('discr', canon(p.norm(e[2])))
                if facts and facts[-1][0] is d:
                    facts = facts[:-1]
            key = (e[0], sp, f.id)
            n += 1
            for m, cs in (doms or [({}, ())]):
                try:
                    judge(ctx, rd, J, p, e, facts, m, cs, f, ini, isnom and doms is None)
                    sites[key] = sites.get(key) or 'ok'
                except Und as x:
                    sites[key] = 'undecided'
                    unds.append('%s: %s' % (sp, x))
                except Bad as x:
                    raise Bad(str(x), ctx.where(f, sp))
    if unds:
        raise Und('%d of %d sites: %s' % (len(set(unds)), n, '; '.join(sorted(set(unds))[:4])))
    return '%d sites on %d paths' % (n, len(s.paths))


def stored(x, ph):
    while x.op == 'store':
        x = x.args[0]
    return x is ph


def site(p, e):
    """(kind, span) of an event that can panic"""
    k = e[0]
    if k in ('index', 'mapindex'):
        return k, e[3]
    if k == 'sliceindex':
        return k, e[3]
    if k == 'unwrap':
        return k, e[4]
    if k == 'assert':
        return k, e[6] if len(e) > 6 else ''
    if k == 'panic':
        return k, e[5] if len(e) > 5 else ''
    if k == 'call':
        n = e[1].rsplit('::', 1)[-1]
        if e[1] == 'Ratio::new' or n in PANICKY and not e[1].startswith(('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')):
            return k, e[5] if len(e) > 5 and isinstance(e[5], str) else ''
    return None


def expand_finish(rd, ts):
    """results of parsers replaced by the values the grammar gives: [{term: value}]"""
    ap = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'call' and x.args[0].endswith('finish') and x.args[1].op == 'apply':
                ap.add(x)
    if len(ap) != 1:
        return [({}, ())]
    x = ap.pop()
    try:
        vs = rd.vals(x.args[1].args[0])
    except Und:
        return [({}, ())]
    rest = mk('pv', x.args[1].args[0], 'rest')
    ok = lambda v: mk('agg', 'std::result::Result', 0, mk('agg', 'tuple', None, rest, v))
    err = mk('agg', 'std::result::Result', 1, mk('pv', x.args[1].args[0], 'error'))
    return [({x: ok(v)}, c) for c, v in vs] + [({x: err}, ())]


def judge(ctx, rd, J, p, e, facts, m, cs, f, ini, nodomain):
    N = lambda t: canon(resimp(subst(canon(p.norm(t)), m)))
    ops = {'index': lambda: [e[1], e[2]], 'mapindex': lambda: [e[1], e[2]], 'sliceindex': lambda: [e[1], e[2][0], e[2][1]], 'unwrap': lambda: [e[2]],
           'assert': lambda: [x for x in e[4] if isinstance(x, T)] if isinstance(e[4], tuple) else [], 'panic': lambda: [], 'call': lambda: list(e[2])}[e[0]]()
    ops = [N(x) for x in ops if isinstance(x, T)]
    F = [(canon(resimp(subst(t, m))), v) for t, v in facts] + [(t, v) for t, v in cs]
    first = None
    tries = expand_finish(rd, ops + [t for t, v in F])
    for m2, c2 in tries:
        o2 = [canon(resimp(subst(x, m2))) for x in ops]
        F2 = [(canon(resimp(subst(t, m2))), v) for t, v in F] + list(c2)
        dead = False
        F3 = []
        for t, v in F2:
            if t.op == 'discr' and t.args[0].op == 'agg' and isinstance(t.args[0].args[1], int):
                t = INT(t.args[0].args[1])
            if t.op == 'int':
                if (t.args[0] != v) if isinstance(v, int) else (t.args[0] in v[1]):
                    dead = True
                continue
            F3.append((t, v))
        if dead:
            continue
        D = Dom(rd, F3)
        J.texts = {x for t in o2 for x in subterms(t) if x.op in ('ptext',)} or {x for t, v in F3 for x in subterms(t) if x.op in ('ptext',)} or {x for x in m.values() if x.op == 'ptext'}
        J.N = lambda t: canon(resimp(subst(N(t), m2)))
        try:
            decide(ctx, J, e, o2, D, f)
        except Und as u:
            # the first round of the loops
            if ini and any(contains(x, lambda z: z in ini) for x in o2 + [t for t, v in F3]):
                mi = {a: canon(b) for a, b in ini.items()}
                o3 = [canon(resimp(subst(x, mi))) for x in o2]
                F4 = [(canon(resimp(subst(t, mi))), v) for t, v in F3]
                if not any(contains(x, lambda z: z.op == 'phi') for x in o3):
                    D2 = Dom(rd, F4)
                    if not any(t.op == 'int' and ((t.args[0] != v) if isinstance(v, int) else (t.args[0] in v[1])) for t, v in F4):
                        try:
                            decide(ctx, J, e, o3, D2, f)
                        except Bad as b:
                            if nodomain:
                                raise Und(str(b))
                            raise
                        except Und:
                            pass
            first = first or u
        except Bad as b:
            if nodomain and contains(o2[0], lambda z: z.op == 'arg') if o2 else nodomain:
                raise Und('argument without known domain: %s' % b)
            raise
    if first:
        raise first


def decide(ctx, J, e, o, D, f):
    k = e[0]
    if k == 'index':
        return J.index(o[0], o[1], D)
    if k == 'mapindex':
        return J.lookup(mk('call', 'HashMap::get', o[0], o[1]), D)
    if k == 'sliceindex':
        if e[2][0] is None or e[2][1] is None:
            raise Und('part of a list')
        return J.slice(o[0], o[1], o[2], D, istext(o[0], D))
    if k == 'unwrap':
        return J.unwrap(o[0], e[1], D)
    if k == 'panic':
        nm = str(e[1]) + ' ' + (str(e[6]) if len(e) > 6 else '')
        if 'unreachable' in nm:
            raise Und('marked as unreachable')
        for t, v in D.facts:
            if contains(t, lambda z: z.op in ('phi',)):
                raise Und('panic in a loop')
        if 'assert' in nm:
            raise Und('assertion')
        raise Bad('a text leads to an explicit panic')
    if k == 'call':
        if e[1] == 'Ratio::new':
            return J.zero(o[1], D, 'fraction with division')
        raise Und('call of %s' % e[1])
    if k == 'assert':
        if e[1] in ('divzero', 'remzero', 'DivisionByZero', 'RemainderByZero'):
            raise Und('division')
        J.acc_ty = tyname(ctx, e[4][-1] if isinstance(e[4], tuple) else None)
        return J.overflow((k, e[1], e[2], e[3], (e[4][0] if isinstance(e[4][0], str) else e[1],) + tuple(o)), D)
    raise Und(k)


def tyname(ctx, i):
    try:
        return ctx.lib.types[i if i in ctx.lib.types else int(i)]['str'] if isinstance(ctx.lib.types, dict) else ctx.lib.types[int(i)]['str']
    except (KeyError, IndexError, TypeError, ValueError):
        return None


def istext(v, D=None):
    if v.op in ('ptext', 'str') or v.op == 'pv' and len(v.args) > 1:
        return True
    if v.op == 'call' and v.args[0].startswith(('str::', 'String::')):
        return not v.args[0].endswith(('split_whitespace', 'split', 'chars', 'bytes', 'lines', 'as_bytes', 'char_indices', 'into_bytes'))
    if v.op == 'call' and v.args[0] == 'slice::join':
        return True
    if v.op == 'idx' and v.args[0].op == 'call' and v.args[0].args[0] in ('str::split_whitespace', 'str::split', 'str::lines'):
        return True
    if v.op == 'fld' and v.args[2].op == 'idx' and v.args[2].args[0].op == 'call' and v.args[2].args[0].args[0].endswith('lines'):
        return True
    if D is not None:
        return any(x.op == 'call' and x.args[0].startswith('str::') and len(x.args) > 1 and x.args[1] is v for t, y in D.facts for x in subterms(t))
    return False


def top(ctx, rd):
    f = ctx.fn('parse_operator::parse_operator', public=True)
    s = ctx.summary(f)
    ap = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'apply' and x.args[1] is A(0)}
    if len(ap) != 1:
        raise Und('entry of the operator parser')
    return ap.pop().args[0], ctx.where(f)


def parts(ctx, rd):
    """(conversion of operators, collection of terms) of the operator grammar"""
    P, w = top(ctx, rd)
    conv = []
    coll = []
    seen = set()

    def walk(P, fs):
        Q = rd.expand(P)
        if Q in seen:
            return
        seen.add(Q)
        n = rd.name(Q)
        if n == 'map_opt' and rd.local(Q.args[2]):
            fs = fs + [Q.args[2]]
        if n in ('separated_list0', 'separated_list1'):
            conv.append((fs, n.endswith('1')))
            C = rd.expand(Q.args[2])
            if rd.name(C) == 'map_opt' and rd.local(C.args[2]):
                coll.append(C.args[2])
            return
        for x in rd.kids(Q):
            walk(x, fs)
    walk(P, [])
    if len(conv) != 1 or len(conv[0][0]) != 1 or len(coll) != 1:
        raise Und('structure of the operator grammar')
    return conv[0][0][0], conv[0][1], coll[0], w


def sem(ctx, rd, z):
    f = rd.fn(z) if z.op == 'fn' else ctx.lib.by_id.get(z.args[0][1])
    if f is None:
        raise Und('function')
    return f, A(0) if z.op == 'fn' else A(1), ctx.summary(f, inline_if=lambda q: q.file.endswith('parse_operator.rs') and q.kind != 'Closure')


def rowlength(ctx, rd):
    """number of coefficients of every coordinate"""
    cv, one, cl, w = parts(ctx, rd)
    f, base, s = sem(ctx, rd, cl)
    rets = [p for p in s.returns() if p.ret.op == 'agg' and p.ret.args[1] == 1]
    ns = set()
    ini = phis(s)
    for p in rets:
        r = canon(E.getfield(p.ret.args[2], 0))
        if r.op == 'phi':
            if not all(stored(nw[r], r) for q, k, nw in backs(s) if r in nw):
                raise Und('row %s' % show(r))
            r = ini[r]
        ns.add(canon(t_len(r)))
    if len(ns) != 1 or list(ns)[0].op != 'int':
        raise Und('length of rows')
    return list(ns)[0].args[0]


def square(ctx, rd):
    """the rows of an operator are as long as it has coordinates: affine maps are square"""
    cv, one, cl, w = parts(ctx, rd)
    K = rowlength(ctx, rd)
    f, base, s = sem(ctx, rd, cv)
    L = canon(mk('len', base))
    n = 0
    for p in s.returns():
        r = p.ret
        if r.op != 'agg':
            raise Und('result %s' % show(r))
        if r.args[1] != 1:
            continue
        rows, sh = canon(E.getfield(r.args[2], 0)), canon(E.getfield(r.args[2], 1))
        if rows.op != 'comp' or len(rows.args[3]) != 1 or rows.args[3][0][0]:
            raise Und('rows %s' % show(rows))
        kind, ln, bv, ((cs, x),) = rows.args
        y = canon(E.getfield(mk('idx', base, bv), 0))
        xl = canon(t_len(x))
        D = Dom(rd, p.facts())
        for k in range(1, 7):
            env = {('len', base): k, ('len', y): K}
            if D.fits(env) == 0:
                continue
            if not accepted(rd, s, base, k, K):
                continue
            a, b, c = (D.ev(z, env) for z in (xl, canon(ln), canon(t_len(sh))))
            if None in (a, b, c):
                raise Und('length of rows %s' % show(xl))
            if k > K and xl is L:
                continue          # known from the rows that were accepted
            if not a == b == c:
                raise Bad('an operator with %d coordinates of %d coefficients becomes %d rows of length %d with %d shifts' % (k, K, b, a, c), ctx.where(f))
            n += 1
    if not n:
        raise Und('no operator is read')
    return '%d sizes' % n


RAT = re.compile(r'Ratio<(i8|i16|i32|i64|i128|isize|u8|u16|u32|u64|u128|usize)>')


def checked(ctx):
    """sums of fractions of fixed size read from texts are checked for overflow"""
    n = 0
    fs = [f for f in ctx.lib.fns if infiles(f) and f.name not in SKIP and 'write_op' not in f.path and not re.search(r'::fmt(::|$)', f.path)]
    for f in fs:
        for b in f.d['blocks']:
            t = b['t']
            if not t or t[0] != 'call' or t[1][0] != 'const':
                continue
            r = t[1][1]
            nm = (r.get('res_path') or r.get('path') or '')
            op = r.get('path', '').rsplit('::', 1)[-1]
            if op not in ('add', 'sub', 'add_assign', 'sub_assign', 'sum', 'product'):
                continue
            tys = [ctx.lib.tstr(i) for i in r.get('targs', ())]
            if not any(RAT.fullmatch(x.replace('num_rational::', '').lstrip('&')) for x in tys):
                continue
            raise Bad('fractions of fixed size are combined by %s, which overflows for large denominators' % op, ctx.where(f, b['sp']))
    return '%d functions' % len(fs)


def accepted(rd, s, base, k, K):
    """can the rows of an operator with k coordinates pass the loop over the coordinates"""
    rows = []
    for p, key, nw in backs(s):
        D = Dom(rd, p.facts())
        ys = {x for t, v in D.facts for x in subterms(t) if x.op == 'fld' and x.args[0] == 0 and x.args[2].op == 'idx' and x.args[2].args[0] is base}
        rows.append(D.fits({('len', base): k, **{('len', y): K for y in ys}}) != 0)
    return any(rows) if rows else True
