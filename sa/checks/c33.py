"""C33: the space group table reader."""
from ..rules import *
from ..graphs import NC
from .c13 import NoStr

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: one-step transition table of the reader, its text conditions decided on representatives of all line forms, against the specified transitions'
RULE = ('The loop body of the table reader is summarised as guarded updates of its state; on representatives of all line forms and all outcomes of reading operators, systems and centerings, the guards are decided '
        'and the new tables, current setting and current group must be the specified ones.')
PROP = {
    'title': 'The space group table reader keeps every line of the table',
    'statement': 'Reading a space group table skips blank and comment lines; a line starting with a setting name opens that setting with the transformation given on the rest of the line and, as its group, '
                 'the last setting opened with the identity; every indented line adds its operator to the open setting, in order; alias and lookup lines, in any letter case, are recorded with their fields in place. '
                 'If a line cannot be read, or fields are missing, or an operator precedes all settings, no table is returned.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all tables'},
    'why_tests_cant': 'No test reads a table.',
    'anchors': {'files': ['src/spacegroups/parse_table.rs'],
                'mechanism': 'line loop of the table reader; lookup lines; tables returned'},
}
P0 = ('parsed',)


class V:
    """a value that is computed by a reader, kept symbolic"""

    def __init__(self, *a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, V) and self.a == o.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return '%s' % (self.a,)


def sv(t, env):
    if t in env:
        return env[t]
    o = t.op
    if o in ('int', 'str'):
        return t.args[0]
    if o == 'not':
        return 1 - sv(t.args[0], env)
    if o in ('eq', 'lt'):
        a, b = (sv(x, env) for x in t.args[-2:])
        if isinstance(a, V) or isinstance(b, V):
            raise NoStr(show(t))
        if isinstance(a, str) and isinstance(b, int):
            b = chr(b)
        return int(a == b) if o == 'eq' else int(a < b)
    if o == 'len':
        x = sv(t.args[0], env)
        if isinstance(x, (str, list)):
            return len(x.encode()) if isinstance(x, str) else len(x)
        raise NoStr(show(t))
    if o == 'discr':
        x = t.args[0]
        if x.op == 'agg':
            return x.args[1]
        v = sv(x, env)
        if isinstance(v, V) and v.a[0] == 'read':
            return env['ok'](v)
        if v is None:
            return 0
        if isinstance(v, tuple) and v[:1] == ('some',):
            return 1
        raise NoStr(show(t))
    if o == 'fld':
        v = sv(t.args[2], env)
        if isinstance(v, tuple) and v[:1] == ('some',):
            return v[1]
        if isinstance(v, V) and v.a[0] == 'read':
            return V('value', *v.a[1:])
        raise NoStr(show(t))
    if o == 'idx':
        l, i = sv(t.args[0], env), sv(t.args[1], env)
        if isinstance(l, list) and isinstance(i, int):
            if i < len(l):
                return l[i]
            raise IndexError
        raise NoStr(show(t))
    if o == 'islice':
        s, a, b = (sv(x, env) for x in t.args)
        return s[a:b]
    if o == 'poly':
        r = 0
        for m, c in t.args:
            for x, e in m:
                v = sv(x, env)
                if not isinstance(v, int):
                    raise NoStr(show(t))
                c = c * v ** e
            r += c
        return r
    if o == 'contains':
        return env['known']
    if o == 'agg' and t.args[0] == 'array':
        return [sv(x, env) for x in t.args[2:]]
    if o == 'agg' and isinstance(t.args[0], str) and t.args[0].endswith('Option'):
        return ('some', sv(t.args[2], env)) if t.args[1] else None
    if o == 'call':
        f = t.args[0].rsplit('::', 1)[-1]
        if f == 'from_string':
            return V('read', sv(t.args[1], env))
        if f == 'is_identity':
            return env['identity']
        if f == 'get' and t.args[2].op == 'agg' and 'Range' in str(t.args[2].args[0]):
            l = sv(t.args[1], env)
            k = sv(t.args[2].args[2], env)
            return ('some', l[k:]) if k <= len(l) else None
        a = [sv(x, env) for x in t.args[1:] if isinstance(x, T)]
        ch = lambda c: chr(c) if isinstance(c, int) else c
        if f == 'get':
            return ('some', a[0][a[1]]) if a[1] < len(a[0]) else None
        if f in ('first', 'next'):
            return ('some', a[0][0]) if a[0] else None
        if f in ('to_lowercase', 'to_ascii_lowercase'):
            return a[0].lower()
        if f in ('to_uppercase', 'to_ascii_uppercase'):
            return a[0].upper()
        if f == 'eq_ignore_ascii_case':
            return int(a[0].lower() == a[1].lower())
        if f == 'trim':
            return a[0].strip()
        if f == 'trim_start':
            return a[0].lstrip()
        if f == 'trim_end':
            return a[0].rstrip()
        if f == 'starts_with':
            if isinstance(a[1], list):
                raise NoStr(show(t))
            return int(a[0].startswith(ch(a[1])))
        if f == 'ends_with':
            return int(a[0].endswith(ch(a[1])))
        if f == 'contains':
            return int(ch(a[1]) in a[0])
        if f == 'is_empty':
            return int(not a[0])
        if f in ('split_whitespace', 'split_ascii_whitespace'):
            return a[0].split()
        if f in ('collect', 'to_string', 'to_owned', 'clone', 'to_vec', 'as_str', 'into', 'as_ref', 'iter'):
            return a[0]
        if f == 'join':
            return a[1].join(a[0])
        if f == 'concat':
            return ''.join(a[0])
    raise NoStr(show(t))


def run(ctx):
    def order(name):
        r = [a for k, a in ctx.lib.adts.items() if k.endswith('parse_table::' + name)]
        if len(r) != 1:
            raise Und('type %s' % name)
        return {f['name']: i for i, f in enumerate(r[0]['variants'][0]['fields'])}

    def get():
        f = ctx.fn('parse_table::parse_space_group_table', public=True)
        s = ctx.summary(f, inline_if=lambda g: g.file == f.file and g.kind != 'Closure' and g.name not in ('from_string', 'lookup_settings'))
        w = ctx.where(f)
        to = order('Tables')
        r = [p for p in s.returns() if isinstance(p.raw_ret, T) and p.raw_ret.op == 'agg' and p.raw_ret.args[1] == 1]
        st = {}
        for p in r:
            t = p.raw_ret.args[2]
            for nm, i in to.items():
                x = E.getfield(t, i, None)
                if x.op != 'phi':
                    if i in (0, 1, 2) and nm in ('settings', 'alias', 'lookup'):
                        raise Und('%s returned is %s' % (nm, show(x)))
                    continue
                if st.setdefault(nm, x) is not x:
                    raise Und('tables')
        if set(st) < {'settings', 'alias', 'lookup'}:
            raise Und('tables')
        texts = set()
        for p in s.backs():
            for e in p.events:
                if e[0] == 'back':
                    for cp in e[2]:
                        ph = p.st.loops[e[1]][cp]
                        if ph not in s.inv and ph not in st.values():
                            i = canon(p.norm(ph.args[3]))
                            if i is mk('str', ''):
                                texts.add(ph)
        return f, s, w, st, texts

    def transitions():
        f, s, w, st, texts = get()
        eo, lo = order('TableEntry'), order('Lookup')
        LN = {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] == 'BufRead::lines'}
        LN |= {x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'idx' and contains(x.args[0], lambda z: z.op == 'call' and z.args[0] == 'BufRead::lines') and x.args[1].op == 'ix' and x.args[0].op == 'islice'}
        if len(LN) != 1:
            raise Und('%d lines in one step' % len(LN))
        L = LN.pop()
        if L.args[0].op == 'islice':
            raise Bad('lines of the table are skipped', w) if L.args[0].args[1].op == 'int' and L.args[0].args[1].args[0] else Und('lines')
        if L.args[1].op == 'poly' and [m[0][0].op for m, c in L.args[1].args if m] == ['ix']:
            if any(not m and c for m, c in L.args[1].args):
                raise Bad('the lines looked at are %s' % show(L.args[1]), w)
            raise Und('lines')
        text = [x for p in s.paths for t, v in p.facts() for x in subterms(t) if x.op == 'fld' and x.args[2] is L]
        if not text or len(set(text)) != 1:
            raise Und('text of a line')
        text = text[0]
        D = canon(mk('discr', L))
        # which text is the open setting: the key operators are added under
        cur = set()
        for p in s.backs():
            new = news(p, s)
            x = new.get(st['settings'])
            if x is not None and x.op == 'minsert' and x.args[0] is st['settings'] and x.args[1] in texts:
                cur.add(x.args[1])
        if len(cur) != 1 or len(texts) not in (1, 2):
            raise Und('open setting and group')
        cur = cur.pop()
        grp = ([x for x in texts if x is not cur] or [cur])[0]
        FORMS = []
        for ln in ('', '   ', '\t', '#', '# comment', '#x,y', '  # x,y,z', '    #'):
            FORMS.append((ln, 'skip'))
        for ln in ('  x,y,z', ' x, y, z', '    -x+1/2,y , z  ', ' alias a b', '  lookup x'):
            FORMS.append((ln, 'op'))
        for ln in ('P1 x,y,z', 'P-1:2 x, y, z', 'C2 1/2x-y,  z,y  ', 'aliases x', 'lookups x,y', 'A x#y'):
            FORMS.append((ln, 'setting'))
        for ln in ('alias Foo Bar', 'ALIAS a b', 'Alias P2  P121 '):
            FORMS.append((ln, 'alias'))
        for ln in ('alias', 'alias Foo', 'LOOKUP', 'lookup P1', 'lookup P1 cubic', 'Lookup P1 cubic P'):
            FORMS.append((ln, 'short'))
        for ln in ('lookup P1 cubic P x,y,z', 'LOOKUP Fd-3m Cubic F x, y, z', 'Lookup  a b c x,  y '):
            FORMS.append((ln, 'lookup'))
        steps = []
        for p in s.paths:
            if p.kind == 'back':
                steps.append((p, news(p, s)))
            elif any(contains(t, lambda x: x is L) for t, v in p.facts()):
                steps.append((p, None))
        n = 0
        # lists of operators read so far can be long, and their entries differ from the next one
        free = {}
        for p, new in steps:
            for t, v in p.facts():
                ls = {x for x in subterms(t) if x.op == 'len' and contains(x.args[0], lambda z: z.op == 'mget') and not contains(x.args[0], lambda z: z is L)}
                for x in ls:
                    free[x] = 150
                if t.op == 'eq' and any(y.op == 'idx' and any(y.args[0] is x.args[0] for x in ls) for y in subterms(t)):
                    free[t] = 0

        def state(t, env, what):
            """an update as (base, [(how, args)])"""
            out = []
            while t.op in ('minsert', 'push'):
                out.insert(0, t)
                t = t.args[0]
            return t, out
        for ln, kind in [('unreadable', None)] + FORMS:
            flags = [{}]
            if kind == 'op':
                flags = [dict(ok=a, known=b) for a in (0, 1) for b in (0, 1)]
            elif kind == 'setting':
                flags = [dict(ok=0)] + [dict(ok=1, identity=b) for b in (0, 1)]
            elif kind == 'lookup':
                fl = ln.split()
                flags = [dict(ok=1)] + [dict(bad=x) for x in (fl[2], fl[3], ' '.join(fl[4:]))]
            elif kind == 'short':
                flags = [dict(ok=1), dict(ok=0)]
            for fl, g0 in [(fl, g0) for fl in flags for g0 in ('G0', '')]:
                bad = fl.get('bad')
                # an empty text is no operator
                okf = (lambda v: int(v.a[1] != bad)) if bad is not None else (lambda v: fl.get('ok', 1) if v.a[1] else 0)
                env = {**free, D: int(kind is None), text: ln, 'ok': okf, 'known': fl.get('known', 1), 'identity': fl.get('identity', 0), cur: 'S0', grp: g0}
                fs = []
                for p, new in steps:
                    sure = 1
                    for t, v in p.facts():
                        try:
                            x = sv(t, env)
                        except (NoStr, TypeError, ValueError, AttributeError):
                            if kind is None and contains(t, lambda z: z is text):
                                pass
                            sure = t
                            continue
                        except IndexError:
                            sure = 0        # an element that does not exist: another condition on this path must rule it out
                            x = v if isinstance(v, int) else None
                            continue
                        if (x != v) if isinstance(v, int) else (x in v[1]):
                            break
                    else:
                        fs.append((p, new, sure))
                if not fs:
                    raise Und('no step for the line %r' % ln)
                what = 'the line %r%s' % (ln, {'op': ' (its operator %s read, setting %s)' % ('is' if fl.get('ok') else 'cannot be', 'open' if fl.get('known') else 'not known'),
                                               'setting': ' (its transformation %s)' % ('is the identity' if fl.get('identity') else 'is another one' if fl.get('ok') else 'cannot be read'),
                                               'lookup': ' (%r cannot be read)' % bad if bad else ''}.get(kind, '')) if kind else 'a line that cannot be read'
                for p, new, sure in fs:
                    try:
                        one(p, new, ln, kind, fl, bad, env, what, st, cur, grp, eo, lo, w)
                    except Bad:
                        if sure != 1:
                            raise Und('condition %s' % (show(sure) if isinstance(sure, T) else 'on a missing field'))
                        raise
                    except (NoStr, TypeError, IndexError, AttributeError) as e:
                        raise Und('%s: %s' % (what, e))
                    n += 1
        return '%d cases' % n

    def news(p, s):
        e = [e for e in p.events if e[0] == 'back'][-1]
        return {p.st.loops[e[1]][cp]: p.norm(v) for cp, v in e[2].items() if p.st.loops[e[1]][cp] not in s.inv}

    def one(p, new, ln, kind, fl, bad, env, what, st, cur, grp, eo, lo, w):
        fails = kind is None or kind == 'short' or bad is not None or kind == 'op' and not (fl['ok'] and fl['known']) or kind == 'setting' and not fl['ok']
        if new is None:
            if p.kind == 'panic':
                raise Bad('%s makes the reader panic' % what, w)
            t = p.ret
            if t.op != 'agg':
                raise Und('result %s' % show(t))
            if t.args[1] == 1:
                raise Bad('reading ends at %s' % what, w)
            if not fails:
                raise Bad('%s makes the reader reject the table' % what, w)
            return
        if fails:
            raise Bad('%s does not make the reader reject the table' % what, w)
        keep = {'skip': ('settings', 'alias', 'lookup', cur, grp), 'op': ('alias', 'lookup', cur, grp), 'setting': ('alias', 'lookup'), 'alias': ('settings', 'lookup', cur, grp), 'lookup': ('settings', 'alias', cur, grp)}[kind]
        for k in keep:
            ph = st.get(k, k)
            got = new.get(ph, ph)
            nm = k if isinstance(k, str) else 'open setting' if k is cur else 'current group'
            if got is not ph:
                if got.op in ('minsert', 'push', 'str', 'idx', 'agg', 'emptymap') or got.op == 'phi':
                    raise Bad('%s changes the %s to %s' % (what, nm, show(got)), w)
                raise Und('%s becomes %s' % (nm, show(got)))
        fs = ln.split()
        if kind == 'skip':
            return
        if kind == 'op':
            g = new.get(st['settings'], st['settings'])
            if g is st['settings']:
                raise Bad('%s is dropped' % what, w)
            if g.op != 'minsert' or g.args[0] is not st['settings']:
                raise Und('settings become %s' % show(g))
            if g.args[1] is not cur:
                raise Und('setting %s' % show(g.args[1]))
            old = canon(mk('mget', st['settings'], cur))
            for nm, i in eo.items():
                a, b = canon(E.getfield(g.args[2], i, None)), canon(E.getfield(old, i, None))
                if nm != 'operators':
                    if a is not b:
                        raise Bad('%s changes the %s of the setting' % (what, nm), w) if simple_form(a) else Und(show(a))
                    continue
                if a.op == 'vinsert' and a.args[0] is b and a.args[1] is INT(0):
                    raise Bad('%s adds its operator before the others' % what, w)
                if a.op != 'push' or a.args[0] is not b:
                    if a is b:
                        raise Bad('%s is dropped' % what, w)
                    raise Und('operators become %s' % show(a))
                x = sv(a.args[1], env)
                if x != V('value', ln.strip()):
                    raise Bad('%s adds the operator read from %r' % (what, x.a[1]), w) if isinstance(x, V) else Und('operator %s' % show(a.args[1]))
        elif kind == 'setting':
            g = new.get(st['settings'], st['settings'])
            name = fs[0]
            spec = ' '.join(fs[1:])
            if g is st['settings']:
                raise Bad('%s is dropped' % what, w)
            if g.op != 'minsert' or g.args[0] is not st['settings']:
                raise Und('settings become %s' % show(g))
            eqs(sv(g.args[1], env), name, 'the name under which %s is kept' % what, w)
            e = g.args[2]
            eqs(sv(canon(E.getfield(e, eo['name'], None)), env), name, 'the name of the setting of %s' % what, w)
            cg = canon(E.getfield(e, eo['canonical_name'], None))
            env2 = env
            eqs(sv(cg, env2), name if fl['identity'] else env[grp], 'the group of %s' % what, w)
            eqs(sv(new.get(grp, grp), env2), name if fl['identity'] else env[grp], 'the current group after %s' % what, w)
            eqs(sv(new.get(cur, cur), env2), name, 'the open setting after %s' % what, w)
            x = sv(canon(E.getfield(e, eo['transform'], None)), env)
            if isinstance(x, V):
                if x.a[0] != 'value' or ''.join(x.a[1].split()) != ''.join(spec.split()):
                    raise Bad('%s has the transformation read from %r' % (what, x.a[1]), w)
            else:
                raise Und('transformation')
            ops = canon(E.getfield(e, eo['operators'], None))
            if not (ops.op == 'agg' and ops.args[0] == 'array' and len(ops.args) == 2):
                raise Und('operators %s' % show(ops))
        elif kind == 'alias':
            g = new.get(st['alias'], st['alias'])
            if g is st['alias']:
                raise Bad('%s is dropped' % what, w)
            if g.op != 'minsert' or g.args[0] is not st['alias']:
                raise Und('aliases become %s' % show(g))
            eqs(sv(g.args[1], env), fs[1], 'the alias of %s' % what, w)
            eqs(sv(g.args[2], env), fs[2], 'the setting named by %s' % what, w)
        elif kind == 'lookup':
            g = new.get(st['lookup'], st['lookup'])
            if g is st['lookup']:
                raise Bad('%s is dropped' % what, w)
            if g.op != 'push' or g.args[0] is not st['lookup']:
                raise Und('lookup becomes %s' % show(g))
            e = g.args[1]
            F = lambda nm: sv(canon(E.getfield(e, lo[nm], None)), env)
            eqs(F('name'), fs[1], 'the name of %s' % what, w)
            eqs(F('system'), V('value', fs[2]), 'the crystal system of %s' % what, w)
            eqs(F('centering'), V('value', fs[3]), 'the centering of %s' % what, w)
            x = F('from_std')
            if not isinstance(x, V):
                raise Und('transformation')
            if x.a[0] != 'value' or ''.join(x.a[1].split()) != ''.join(fs[4:]):
                raise Bad('%s has the transformation read from %r' % (what, x.a[1]), w)

    def eqs(got, want, what, w):
        if got != want:
            raise Bad('%s is %r, must be %r' % (what, got, want), w)
    ctx.ob('lines of the table', transitions)
