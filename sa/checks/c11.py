"""C11: every line of a CGD file is accounted for."""
from ..rules import *
from ..graphs import NC, backs, phis
from .c13 import sval as sval0, NoStr

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: one-step transition table of the line and block readers over all abstract line kinds, against the specified table'
RULE = ('The loop bodies of the line reader and of the block reader are summarised as guarded updates of their state; every combination of entry kind, key, notes, fields and state is decided on the guards, '
        'and the resulting state is compared with the specified one component by component.')
PROP = {
    'title': 'Every line of a CGD file is accounted for',
    'statement': 'Reading a CGD file yields for every line, in order and numbered from 0, one entry with its text and either all of its fields, split into leading key and rest, or an error note; an unread rest of '
                 'a line is noted as an error. Every entry with data or notes ends up unchanged and in order in exactly one block; a block is opened by the first keyed line and closed by the next '
                 'line whose key is "end" in any letter case, records its type and first and last line, and within a block an unkeyed line takes the key of the last keyed data line. '
                 'Data outside a block, an "end" without block, and a final block without "end" get an error note, fields after the block type or after "end" a warning.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all sequences of lines'},
    'why_tests_cant': 'The one test reads one short file.',
    'anchors': {'files': ['src/io/parse_cgd_blocks.rs'],
                'mechanism': 'line loop; block loop; final block'},
}

K_BEGIN, K_END, K_DATA, K_EMPTY, K_ERROR = range(5)


def sval(t, env):
    if t in env:
        return env[t]
    o = t.op
    if o == 'lt':
        a, b = (sval(x, env) for x in t.args[-2:])
        return int(a < b)
    if o == 'eq':
        a, b = (sval(x, env) for x in t.args[-2:])
        return int(a == b)
    if o == 'not':
        return 1 - sval(t.args[0], env)
    if o in ('and', 'or'):
        a, b = (sval(x, env) for x in t.args[-2:])
        return int((a and b) if o == 'and' else (a or b))
    if o == 'discr' and t.args[0].op == 'agg':
        return t.args[0].args[1]
    if o == 'len':
        return len(sval(t.args[0], env))
    return sval0(t, env)


def feasible(p_facts, env):
    """1 / 0 / a term that is not decided"""
    sure = 1
    for t, v in p_facts:
        try:
            x = sval(t, env)
        except (NoStr, TypeError, IndexError, KeyError):
            sure = t
            continue
        if (x != v) if isinstance(v, int) else (x in v[1]):
            return 0
    return sure


def adt(ctx, name):
    r = [a for k, a in ctx.lib.adts.items() if k.endswith('parse_cgd_blocks::' + name)]
    if len(r) != 1:
        raise Und('type %s' % name)
    return r[0]


def order(ctx, name):
    return {f['name']: i for i, f in enumerate(adt(ctx, name)['variants'][0]['fields'])}


def arr(t):
    """the elements of a literal list, or None"""
    return list(t.args[2:]) if t.op == 'agg' and t.args[0] == 'array' else None


def gf(t, i):
    return canon(E.getfield(t, i, None))


def notes(t, base):
    """kinds (0 error, 1 warning) of the notes pushed onto base"""
    ks = []
    if base is None and arr(t) is not None:
        for x in arr(t):
            if not (isinstance(x, T) and x.op == 'agg' and isinstance(x.args[1], int)):
                raise Und('note %s' % show(x))
            ks.append(x.args[1])
        return ks
    while t is not base and t.op == 'push':
        x = t.args[1]
        if x.op != 'agg' or not isinstance(x.args[1], int):
            raise Und('note %s' % show(x))
        ks.append(x.args[1])
        t = t.args[0]
    if base is None and arr(t) is not None:
        return notes(t, None) + ks[::-1]
    if t is not base:
        raise Und('notes %s' % show(t))
    return ks[::-1]


def run(ctx):
    NK = {0: 'error', 1: 'warning'}

    def kinds():
        names = [v['name'] for v in adt(ctx, 'EntryType')['variants']]
        if names != ['Begin', 'End', 'Data', 'Empty', 'Error']:
            raise Und('kinds of entries %s' % names)
        if [v['name'] for v in adt(ctx, 'Note')['variants']] != ['Error', 'Warning']:
            raise Und('kinds of notes')

    lowers = [None]

    def lines():
        kinds()
        fo = order(ctx, 'Entry')
        f = ctx.fn('parse_cgd_blocks::parse_lines', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, inline_if=lambda g: g.file == f.file and g.kind != 'Closure')
        # (facts, entry, line, number terms allowed)
        steps = []
        src = None
        bs = s.backs()

        def isline(x):
            return x.op == 'call' and x.args[0] == 'BufRead::lines'
        if bs:
            for p in bs:
                e = [e for e in p.events if e[0] == 'back'][-1]
                acc, num = None, []
                for cp, v in e[2].items():
                    ph = p.st.loops[e[1]][cp]
                    if ph in s.inv:
                        continue
                    v = p.norm(v)
                    init = canon(p.norm(ph.args[3]))
                    if arr(init) == []:
                        if acc is not None:
                            raise Und('two lists')
                        acc = (ph, v)
                    elif init.op == 'int':
                        num.append((ph, init.args[0], v))
                if acc is None:
                    raise Und('no list of entries')
                ph, v = acc
                its = {x for t, _ in p.facts() for x in subterms(t) if x.op == 'idx' and isline(x.args[0])}
                its |= {x for x in subterms(v) if x.op == 'idx' and isline(x.args[0])}
                if len(its) != 1:
                    raise Und('%d lines in one step' % len(its))
                X = its.pop()
                if v is ph:
                    steps.append((p.facts(), None, X, []))
                    continue
                if v.op != 'push' or v.args[0] is not ph:
                    raise Und('list of entries becomes %s' % show(v))
                ok = [X.args[1]]
                for q, i0, q1 in num:
                    if q1 is canon(add(q, mk('int', 1))) and i0 == 0:
                        ok.append(q)
                steps.append((p.facts(), v.args[1], X, ok))
            for p in s.returns():
                fs = [t for t, v in p.facts() if contains(t, lambda x: x.op == 'idx' and isline(x.args[0]) and x.args[1].op == 'ix')]
                if fs:
                    raise Bad('the remaining lines are not read when %s' % show(fs[0]), w)
        else:
            t = canon(the_return(s).ret)
            if t.op != 'comp':
                raise Und('form %s' % show(t))
            k, n, bv, cases = t.args
            for conds, val in cases:
                its = {x for c, _ in conds for x in subterms(c) if x.op == 'idx' and isline(x.args[0])}
                its |= {x for x in subterms(val) if x.op == 'idx' and isline(x.args[0])}
                if len(its) != 1:
                    raise Und('%d lines in one step' % len(its))
                X = its.pop()
                if X.args[1] is not bv:
                    raise Und('line %s' % show(X))
                steps.append((list(conds), val, X, [bv]))
        Xs = {x[2] for x in steps}
        if len(Xs) != 1:
            raise Und('lines')
        X = Xs.pop()
        R = {x for st in steps for t in [c for c, _ in st[0]] + ([st[1]] if st[1] is not None else []) for x in subterms(t) if x.op == 'call' and x.args[0] == 'parse_cgd_line'}
        if len(R) != 1:
            raise Und('%d parses of a line' % len(R))
        R = R.pop()
        line = R.args[1]
        if X not in set(subterms(line)):
            raise Und('text parsed %s' % show(line))
        if not (line.op == 'fld' and line.args[2] is X):
            raise Und('text parsed is not the line but %s' % show(line))
        used = {x for st in steps for t in [c for c, _ in st[0]] + ([st[1]] if st[1] is not None else []) for x in subterms(t)}
        pair_ = {x for x in used if x.op == 'fld' and x.args[2] is R}
        okv = [x for x in pair_ if any(y.op == 'fld' and y.args[2] is x for y in used)]
        if len(okv) != 1:
            raise Und('parts of the parse')
        okv = okv[0]
        parts = {}
        for y in used:
            if y.op == 'fld' and y.args[2] is okv:
                parts[fieldno(y)] = y
        rest, flds = parts.get(0), parts.get(1)
        if rest is None or flds is None:
            raise Und('parts of the parse')
        n = 0
        for case in ('read error', 'parse error') + tuple((r, z, k) for r in (0, 1, 3) for z in (0, 1, 2) for k in ((0, 1) if z else (0,))):
            env = {canon(mk('discr', X)): 0, canon(mk('discr', R)): 0}
            if case == 'read error':
                env[canon(mk('discr', X))] = 1
            elif case == 'parse error':
                env[canon(mk('discr', R))] = 1
            else:
                r, z, k = case
                env[rest] = 'abc'[:r]
                env[canon(t_len(rest))] = r
                env[canon(t_len(flds))] = z
                if z:
                    env[canon(mk('discr', mk('idx', flds, mk('int', 0))))] = 3 if k else 4
            fe = [(st, feasible(st[0], env)) for st in steps]
            fe = [(st, x) for st, x in fe if x != 0]
            if not fe:
                raise Und('no step for case %s' % (case,))
            for st, sure in fe:
                try:
                    entry(case, st, fo, X, R, line, rest, flds, w)
                except Bad:
                    if sure != 1:
                        raise Und('condition %s' % show(sure))
                    raise
                n += 1
        return '%d line cases' % n

    def entry(case, st, fo, X, R, line, rest, flds, w):
        facts_, e, _, nums = st
        what = {'read error': 'a line that cannot be read', 'parse error': 'a line that cannot be parsed'}.get(case) if isinstance(case, str) else \
            'a line with%s fields%s%s' % ('' if case[1] else 'out', ' led by a key' if case[2] else '', ' and an unread rest' if case[0] else '')
        if e is None:
            raise Bad('%s gets no entry' % what, w)
        g = {k: gf(e, i) for k, i in fo.items()}
        ty = g['entry_type']
        if ty.op != 'agg':
            raise Und('kind %s' % show(ty))
        ty = ty.args[1]
        if g['line_number'] not in nums:
            if any(x.op == 'ix' or x.op == 'phi' for x in subterms(g['line_number'])) and not opaque_in(g['line_number'], phis=tuple(x for x in subterms(g['line_number']) if x.op == 'phi')):
                raise Bad('%s gets number %s' % (what, show(g['line_number'])), w)
            raise Und('number %s' % show(g['line_number']))
        ks = notes(g['notes'], None)
        if isinstance(case, str):
            if ty != K_ERROR:
                raise Bad('%s gets an entry of kind %d' % (what, ty), w)
            if 0 not in ks:
                raise Bad('%s gets no error note' % what, w)
            if arr(g['fields']):
                raise Bad('%s gets fields' % what, w)
            if case == 'parse error':
                content(g, line, what, w)
            return
        r, z, k = case
        z = not z
        content(g, line, what, w)
        if (0 in ks) != bool(r):
            raise Bad('%s gets %s' % (what, 'an error note' if not r else 'no error note'), w)
        if ty != (K_EMPTY if z else K_DATA):
            raise Bad('%s gets an entry of kind %d' % (what, ty), w)
        key = g['key']
        if key.op != 'agg':
            raise Und('key %s' % show(key))
        if z:
            if key.args[1] != 0:
                raise Bad('%s gets a key' % what, w)
            return
        if key.args[1] != k:
            raise Bad('%s gets %s key' % (what, 'a' if key.args[1] else 'no'), w)
        F = g['fields']
        if k:
            kt = key.args[2]
            low = contains(kt, lambda x: x.op == 'call' and x.args[0].rsplit('::', 1)[-1] in LOW)
            lowers[0] = low
            base = unlow(kt)
            want = [x for x in subterms(base) if x.op == 'idx' and x.args[0] is flds]
            if not (base.op == 'fld' and base.args[2] is canon(mk('idx', flds, mk('int', 0)))):
                if want and simple_form(base):
                    raise Bad('the key of %s is %s' % (what, show(base)), w)
                raise Und('key %s' % show(base))
            W = canon(mk('islice', flds, mk('int', 1), t_len(flds)))
            if F is not W:
                if F.op == 'islice' and F.args[0] is flds and F.args[1].op == 'int' or F is flds or arr(F) == []:
                    raise Bad('the fields of %s are %s' % (what, show(F)), w)
                raise Und('fields %s' % show(F))
        elif F is not flds:
            if F.op == 'islice' and F.args[0] is flds and F.args[1].op == 'int' and F.args[1].args[0] != 0 or arr(F) == []:
                raise Bad('the fields of %s are %s' % (what, show(F)), w)
            if F.op == 'islice' and F.args[0] is flds and F.args[1].op == 'int' and F.args[2] is canon(t_len(flds)):
                return
            raise Und('fields %s' % show(F))

    def content(g, line, what, w):
        c = g['content']
        if c.op != 'agg':
            raise Und('content %s' % show(c))
        if c.args[1] == 0:
            raise Bad('the text of %s is not kept' % what, w)
        if c.args[2] is not line:
            if c.args[2].op in ('str', 'fld'):
                raise Bad('the text kept for %s is %s' % (what, show(c.args[2])), w)
            raise Und('text %s' % show(c.args[2]))

    LOW = ('to_lowercase', 'to_ascii_lowercase')

    def unlow(t):
        while t.op == 'call' and t.args[0].rsplit('::', 1)[-1] in LOW:
            t = t.args[1]
        return t

    def unlow_all(t, keyt):
        """lower-casing of the entry's key removed"""
        m = {x: keyt for x in subterms(t) if x.op == 'call' and x.args[0].rsplit('::', 1)[-1] in LOW and unlow(x) is keyt}
        return canon(subst(t, m)) if m else t

    def fieldno(y):
        for a in y.args:
            if isinstance(a, int):
                return a
        raise Und('field %s' % show(y))

    def blocks():
        kinds()
        fo, bo = order(ctx, 'Entry'), order(ctx, 'Block')
        f = ctx.fn('parse_cgd_blocks::parse_blocks', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, inline_if=lambda g: g.file == f.file and g.kind != 'Closure' and g.name != 'parse_lines')
        bs = s.backs()
        if not bs:
            raise Und('no loop')
        st = {}
        for p in bs:
            e = [e for e in p.events if e[0] == 'back'][-1]
            for cp, v in e[2].items():
                ph = p.st.loops[e[1]][cp]
                if ph in s.inv:
                    continue
                i = canon(p.norm(ph.args[3]))
                role = 'blocks' if arr(i) == [] else 'block' if i.op == 'agg' and i.args[0].endswith('Block') else 'key' if i.op == 'agg' and i.args[0].endswith('Option') \
                    else 'in' if i.op == 'int' and i.args[0] == 0 else None
                if role is None or st.setdefault(role, ph) is not ph:
                    raise Und('state %s' % show(ph))
        nokey = 'key' not in st
        if nokey:
            st['key'] = mk('arg', 'current key')
        if set(st) != {'blocks', 'block', 'key', 'in'}:
            raise Und('state %s' % sorted(st))
        B0 = canon(st['block'].args[3])
        ents = {x for p in bs for t, v in p.facts() for x in subterms(t) if x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] == 'parse_lines'}
        if len(ents) != 1:
            raise Und('%d entries in one step' % len(ents))
        X = ents.pop()
        e_ = {k: gf(X, i) for k, i in fo.items()}
        used = {x for p in bs for t, v in p.facts() for x in subterms(t)}
        keyt = [x for x in used if x.op == 'fld' and x.args[2] is e_['key']]
        if len(keyt) != 1:
            raise Und('key of the entry')
        keyt = keyt[0]
        low = lowers[0]
        n = 0
        steps = []
        for p in s.paths:
            if p.kind == 'back':
                e = [e for e in p.events if e[0] == 'back'][-1]
                new = {}
                for cp, v in e[2].items():
                    ph = p.st.loops[e[1]][cp]
                    new[ph] = p.norm(v)
                steps.append((p, {r: new.get(ph, ph) for r, ph in st.items()}))
            elif p.kind == 'return' and not any(contains(t, lambda x: x is X) for t, v in p.facts()):
                continue
            else:
                steps.append((p, None))
        D = canon(mk('discr', e_['entry_type']))
        DK = canon(mk('discr', e_['key']))

        def mkenv(ty, note, key, flds, inb):
            env = {D: ty, DK: int(key is not None), canon(t_len(e_['notes'])): note, canon(t_len(e_['fields'])): flds, st['in']: inb}
            if key is not None:
                env[keyt] = key
            return env
        cases = [(K_EMPTY, nt, k, 0, i) for nt in (0, 1, 2) for i in (0, 1) for k in (None,)]
        cases += [(K_ERROR, 1, None, 0, i) for i in (0, 1)]
        cases += [(K_DATA, nt, k, fl, i) for nt in (0, 1) for k in (None, 'end', 'atom', 'ending') + (() if low else ('END', 'End', 'ATOM')) for fl in (0, 1, 2) for i in (0, 1) if k is not None or fl]
        for c in cases:
            env = mkenv(*c)
            fe = [(x, feasible(x[0].facts(), env)) for x in steps]
            fe = [(x, y) for x, y in fe if y != 0]
            if not fe:
                raise Und('no step for case %s' % (c,))
            for (p, new), sure in fe:
                try:
                    step(c, p, new, st, X, e_, keyt, fo, bo, B0, low, w)
                except Bad:
                    if sure != 1:
                        raise Und('condition %s' % show(sure))
                    raise
                n += 1
        return '%d transitions' % n

    def step(c, p, new, st, X, e_, keyt, fo, bo, B0, low, w):
        ty, nt, key, fl, inb = c
        what = '%s%s%s %s a block' % ({K_EMPTY: 'an empty line', K_ERROR: 'an unreadable line', K_DATA: 'a line with key %r' % key if key else 'an unkeyed line'}[ty],
                                      ' with notes' if nt and ty != K_ERROR else '', ' with fields' if fl and key else '', 'inside' if inb else 'outside')
        if new is None:
            raise Bad('reading ends at %s' % what if p.kind == 'return' else 'reading panics at %s' % what, w)
        if ty == K_EMPTY and not nt:
            for r in st:
                if new[r] is not st[r]:
                    if r == 'block':
                        for nm, i in bo.items():
                            same(gf(new[r], i), gf(st[r], i), '%s of the block after %s' % (nm, what), w)
                        continue
                    same(new[r], st[r], 'the state after %s' % what, w)
            return
        k = key.lower() if key else None
        ends = ty == K_DATA and k == 'end'
        begins = ty == K_DATA and k is not None and not ends and not inb
        # which block got the entry
        if ends:
            nb = new['blocks']
            if nb is st['blocks']:
                raise Bad('%s does not close the block' % what, w)
            if nb.op != 'push' or nb.args[0] is not st['blocks']:
                raise Und('blocks become %s' % show(nb))
            blk = nb.args[1]
            same_block(new['block'], B0, bo, 'the block after %s' % what, w)
            same(new['in'], mk('int', 0), 'whether a block is open after %s' % what, w)
        else:
            if new['blocks'] is not st['blocks']:
                if new['blocks'].op == 'push':
                    raise Bad('%s closes the block' % what, w)
                raise Und('blocks become %s' % show(new['blocks']))
            blk = new['block']
            same(new['in'], mk('int', 1) if begins else st['in'], 'whether a block is open after %s' % what, w, {st['in']: inb})
        es0, es = gf(st['block'], bo['entries']), gf(blk, bo['entries'])
        if es is es0:
            raise Bad('%s is in no block' % what, w)
        if es.op != 'push' or es.args[0] is not es0:
            if es.op == 'push' and es.args[0].op == 'push' and es.args[0].args[0] is es0:
                raise Bad('%s is added twice' % what, w)
            if arr(es) == []:
                raise Bad('the entries of the block are lost at %s' % what, w)
            raise Und('entries become %s' % show(es))
        en = es.args[1]
        g = {nm: gf(en, i) for nm, i in fo.items()}
        for nm in ('fields', 'line_number', 'content'):
            same(g[nm], e_[nm], '%s of %s' % (nm, what), w)
        ks = notes(g['notes'], e_['notes'])
        want = set()
        if ends or begins:
            if fl:
                want.add(1)
        if ends and not inb or ty == K_DATA and k is None and not inb:
            want.add(0)
        if set(ks) != want:
            raise Bad('%s gets %s, must get %s' % (what, ' and '.join('%s note' % NK[x] for x in sorted(set(ks))) or 'no note', ' and '.join('%s note' % NK[x] for x in sorted(want)) or 'no note'), w)
        tyw = {True: K_END}.get(ends, K_BEGIN if begins else ty)
        t = g['entry_type']
        if t is e_['entry_type']:
            tg = ty
        elif t.op == 'agg' and isinstance(t.args[1], int):
            tg = t.args[1]
        else:
            raise Und('kind %s' % show(t))
        if tg != tyw:
            raise Bad('%s gets kind %d, must be %d' % (what, tg, tyw), w)
        # key
        if k is not None:
            kk = g['key']
            if kk is e_['key']:
                if not low and key != k:
                    raise Bad('the key of %s keeps its letter case' % what, w)
            elif kk.op == 'agg' and kk.args[1] == 1:
                if unlow(kk.args[2]) is not keyt:
                    raise Und('key %s' % show(kk)) if not simple_form(kk) else Bad('%s gets key %s' % (what, show(kk)), w)
                if not low and kk.args[2] is keyt and key != k:
                    raise Bad('the key of %s keeps its letter case' % what, w)
            elif kk.op == 'agg':
                raise Bad('%s loses its key' % what, w)
            else:
                raise Und('key %s' % show(kk))
        elif inb and ty == K_DATA:
            kk = g['key']
            if kk is not st['key']:
                if kk is e_['key'] or kk.op == 'agg' and kk.args[1] == 0:
                    raise Bad('%s does not take the current key' % what, w)
                raise Und('key %s' % show(kk))
        elif g['key'] is not e_['key'] and ty == K_ERROR:
            if simple_form(g['key']):
                raise Bad('%s gets key %s' % (what, show(g['key'])), w)
        # current key
        nk = new['key']
        if st['key'].op == 'arg':
            pass
        elif begins:
            if nk.op != 'agg' or nk.args[1] != 0:
                if nk is st['key'] or nk.op == 'agg':
                    raise Bad('after %s the current key is %s' % (what, show(nk)), w)
                raise Und('current key %s' % show(nk))
        elif k is not None and not ends and inb:
            if nk.op == 'agg' and nk.args[1] == 1 and unlow(nk.args[2]) is keyt and (low or key == k or nk.args[2] is not keyt) or nk is e_['key'] and (low or key == k):
                pass
            elif nk is st['key'] or nk.op == 'agg':
                raise Bad('after %s the current key is %s' % (what, show(nk)), w)
            else:
                raise Und('current key %s' % show(nk))
        elif inb and not ends and nk is not st['key']:
            if simple_form(nk):
                raise Bad('%s changes the current key to %s' % (what, show(nk)), w)
            raise Und('current key %s' % show(nk))
        # block data
        b0 = {nm: gf(st['block'], i) for nm, i in bo.items()}
        b1 = {nm: gf(blk, i) for nm, i in bo.items()}
        if begins:
            t = b1['block_type']
            if unlow(t) is not keyt or not low and t is keyt and key != k:
                if t is b0['block_type'] or t.op in ('str', 'fld'):
                    raise Bad('the type of the block opened by %s is %s' % (what, show(t)), w)
                raise Und('block type %s' % show(t))
            same(b1['lineno_start'], e_['line_number'], 'the first line of the block opened by %s' % what, w)
        elif inb:
            same(b1['block_type'], b0['block_type'], 'the type of the block after %s' % what, w)
            same(b1['lineno_start'], b0['lineno_start'], 'the first line of the block after %s' % what, w)
        if ends:
            same(b1['lineno_end'], e_['line_number'], 'the last line of the block closed by %s' % what, w)

    def same(got, want, what, w, env=None):
        if got is want:
            return
        if env and got.op == 'int' and want in env and env[want] == got.args[0]:
            return
        if env and want.op == 'int' and got in env and env[got] == want.args[0]:
            return
        if simple_form(got):
            raise Bad('%s is %s, must be %s' % (what, show(got), show(want)), w)
        raise Und('%s is %s' % (what, show(got)))

    def same_block(got, want, bo, what, w):
        if got is want:
            return
        for nm, i in bo.items():
            if nm == 'entries':
                a = gf(got, i)
                if arr(a) != []:
                    if a.op in ('push', 'fld'):
                        raise Bad('%s still has entries' % what, w)
                    raise Und('entries %s' % show(a))

    def final():
        kinds()
        fo, bo = order(ctx, 'Entry'), order(ctx, 'Block')
        f = ctx.fn('parse_cgd_blocks::parse_blocks', public=True)
        w = ctx.where(f)
        s = ctx.summary(f, inline_if=lambda g: g.file == f.file and g.kind != 'Closure' and g.name != 'parse_lines')
        ph = {x for p in s.returns() for t in [p.ret] + [t for t, v in p.facts()] for x in subterms(t) if x.op == 'phi'}
        blk = [x for x in ph if canon(x.args[3]).op == 'agg' and canon(x.args[3]).args[0].endswith('Block')]
        inb = [x for x in ph if canon(x.args[3]).op == 'int']
        if len(blk) != 1 or len(inb) != 1:
            raise Und('state')
        blk, inb = blk[0], inb[0]
        ent = gf(blk, bo['entries'])
        n_ = canon(t_len(ent))
        n = 0
        last = canon(mk('idx', ent, sub_(n_, mk('int', 1))))
        for some in (0, 2):
            for i in (0, 1):
                if i and not some:
                    continue            # an open block has an entry
                nts = canon(t_len(gf(last, fo['notes'])))
                fe = []
                for k in (0, 1):
                    # the entry read last may or may not have a note already
                    env = {n_: some, inb: i, nts: k}
                    fk = [(p, feasible(p.facts(), env)) for p in s.paths if p.kind != 'back' and not any(contains(t, lambda x: x.op == 'ix') for t, v in p.facts())]
                    fe += [(p, x) for p, x in fk if x != 0 and (p, x) not in fe]
                if not fe:
                    raise Und('no end')
                for p, sure in fe:
                    try:
                        what = 'at the end of the input %s a block' % ('inside' if i else 'outside')
                        if p.kind != 'return':
                            raise Bad('reading panics %s' % what, w)
                        r = p.ret
                        pushed = r.op == 'push' and contains(r.args[1], lambda x: x is blk)
                        if not some:
                            if pushed:
                                raise Bad('%s an empty block is added' % what, w)
                            n += 1
                            continue
                        if not pushed:
                            if r.op in ('comp', 'phi'):
                                raise Bad('%s the entries read last are dropped' % what, w)
                            raise Und('returns %s' % show(r))
                        b = {nm: gf(r.args[1], k) for nm, k in bo.items()}
                        es = b['entries']
                        ks = []
                        if es is not ent:
                            if es.op != 'store' or es.args[0] is not ent:
                                if arr(es) is not None or es.op == 'islice':
                                    raise Bad('%s the entries become %s' % (what, show(es)), w)
                                raise Und('entries %s' % show(es))
                            old = canon(mk('idx', ent, es.args[1]))
                            for nm, k in fo.items():
                                if nm == 'notes':
                                    ks = notes(gf(es.args[2], k), gf(old, k))
                                else:
                                    same(gf(es.args[2], k), gf(old, k), '%s of an entry %s' % (nm, what), w)
                        if (0 in ks) != bool(i):
                            raise Bad('%s %s' % (what, 'the missing end is not noted' if i else 'an error is noted'), w)
                        if i and es.args[1] is not canon(sub_(n_, mk('int', 1))):
                            raise Und('noted on entry %s' % show(es.args[1]))
                        same(b['lineno_end'], gf(last, fo['line_number']), 'the last line of the final block', w)
                        if i:
                            same(b['lineno_start'], gf(blk, bo['lineno_start']), 'the first line of the final block', w)
                            same(b['block_type'], gf(blk, bo['block_type']), 'the type of the final block', w)
                        else:
                            same(b['lineno_start'], gf(canon(mk('idx', ent, mk('int', 0))), fo['line_number']), 'the first line of the final block', w)
                        n += 1
                    except Bad:
                        if sure != 1:
                            raise Und('condition %s' % show(sure))
                        raise
        return '%d ends' % n

    ctx.ob('lines', lines)
    ctx.ob('blocks', blocks)
    ctx.ob('final block', final)
