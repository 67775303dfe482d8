"""C01: answers of graph queries do not depend on earlier queries."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: memo-cell invariants; hit and miss paths compared after substituting what is stored'
RULE = ('For every query of a graph that reads or writes a memo cell, what it stores is extracted: it must depend on the graph alone (or, in '
        'a keyed memo, on the graph and the key), be the same for all writers of the cell, and every way through the query with the cell filled must '
        'return what the ways through it with the cell in its initial state return. Constructors must leave the cells empty.')
PROP = {
    'title': 'Graph queries answer the same regardless of earlier queries',
    'statement': 'Every query of a graph (vertices, incidences, positions, edges by their vectors, symmetries) returns the same answer whether or not, '
                 'and in whatever order, other queries were made before. A remembered answer is the one that would be computed afresh, '
                 'never one for another vertex, another edge vector or another graph.',
    'quantifier': {'over': ['histories', 'inputs'], 'text': 'all graphs and all sequences of queries'},
    'why_tests_cant': 'Tests query small graphs in one fixed order; a stale or partial memo shows only for another order of queries.',
    'anchors': {'files': ['src/pgraphs.rs'], 'mechanism': 'memo cells for vertices, incidences, positions, edge lookup and symmetries; the queries that fill them',
                'state': ['the five memo cells of a graph']},
}


def cellof(t):
    """field number of the memo cell read"""
    if t.op == 'cell0' and isinstance(t.args[0], T) and t.args[0].op == 'fld' and t.args[0].args[2] is G:
        for i in range(12):
            if E.getfield(G, i) is t.args[0]:
                return i
    return None


def unwrap(t):
    for _ in range(4):
        m = {x: x.args[1] for x in subterms(t) if x.op == 'call' and len(x.args) == 2 and x.args[0].rsplit('::', 1)[-1] in WRAP
             and x.args[0].split('::')[0] in ('Point', 'Vector')}
        if not m:
            return t
        t = canon(resimp(subst(t, m)))
    return t


def closure(s):
    """for each loop value all terms that flow into it"""
    flow = {}
    for p, key, new in backs(s):
        cond = [t for t, v in p.facts()]
        for m, x in new.items():
            if x is not m:
                flow.setdefault(m, []).extend([x] + cond)
    for m, i in phis(s).items():
        flow.setdefault(m, []).append(i)
    return flow


def sources(t, flow, drop):
    """all subterms t depends on"""
    seen, todo = set(), [t]
    while todo:
        for x in subterms(todo.pop()):
            if x in seen:
                continue
            seen.add(x)
            todo.extend(y for y in flow.get(x, ()) if y not in drop)
    return seen


def methods(ctx):
    return [f for f in ctx.lib.fns if f.kind != 'Closure' and f.short.startswith('Graph::') and f.file.endswith('pgraphs.rs')]


def initial(ctx):
    f = ctx.fn('pgraphs::Graph::new', public=True)
    p = the_return(ctx.summary(f, **NC))
    if p.ret.op != 'agg':
        raise Und('constructor returns %s' % show(p.ret))
    out = {}
    for i, x in enumerate(p.ret.args[2:]):
        if x.op == 'cellnew':
            out[i] = x.args[0]
    return out


def run(ctx):
    from .. import evalt
    CTX[0] = ctx
    evalt.SETLIST[0] = True
    try:
        body(ctx)
    finally:
        evalt.SETLIST[0] = False


def body(ctx):
    sums = {}
    writes = {}
    for f in methods(ctx):
        try:
            s = ctx.summary(f, **NC)
        except Exception as e:
            ctx.und('summary of ' + f.short, e)
            continue
        rd = set()
        for p in s.paths:
            ts = [t for t, v in p.facts()] + ([p.ret] if isinstance(p.ret, T) else [])
            for e in p.events:
                if e[0] == 'write' and e[1][0] == 'U':
                    k = cellfield(e[1])
                    if k is not None:
                        v = p.norm(e[3])
                        if e[2]:
                            v = None
                        writes.setdefault(k, []).append((f, s, p, v))
                        rd.add(k)
                        if v is not None:
                            ts.append(v)
            for t in ts:
                for x in subterms(t):
                    if cellof(x) is not None:
                        rd.add(cellof(x))
        if rd:
            sums[f] = (s, rd)

    def init():
        I = initial(ctx)
        for i, x in I.items():
            for y in subterms(x):
                if y.op == 'cell0' or y.op == 'call' and y.args[0].startswith('Graph::'):
                    raise Bad('a new graph starts with remembered answers: %s' % show(x), 'Graph::new')
        return '%d cells' % len(I)
    ctx.ob('a new graph remembers nothing', init)

    for f in methods(ctx) + [f for f in ctx.lib.fns if f.kind != 'Closure' and 'Graph' in f.path and f.name in ('clone', 'default', 'from')]:
        if f.name == 'new':
            continue

        def built(f=f):
            s = ctx.summary(f, **NC)
            n = 0
            for p in s.returns():
                for x in subterms(p.ret):
                    if x.op == 'agg' and isinstance(x.args[0], str) and x.args[0].endswith('pgraphs::Graph'):
                        n += 1
                        for y in x.args[3:]:
                            for z in subterms(y):
                                if z.op == 'cell0' and x.args[2] is not E.getfield(z.args[0].args[2], 0):
                                    if cellof(z) == 1:
                                        raise Und('vertices of another graph are taken over')
                                    raise Bad('a graph with other edges takes over remembered answers: %s' % show(y), ctx.where(f))
            if not n:
                return None
            return '%d constructions' % n
        try:
            d = built()
            if d:
                ctx.ok('graphs built in ' + f.short, d)
        except Bad as e:
            ctx.bad('graphs built in ' + f.short, e.where, e)
        except Exception as e:
            pass

    def stored(k):
        """(value, key) stored in cell k: key is None when the whole cell is replaced"""
        vals = {}
        for f, s, p, v in writes.get(k, ()):
            w = ctx.where(f)
            if v is None:
                raise Und('the cell is changed in place in %s' % f.short)
            key = None
            own = [x for x in subterms(v) if cellof(x) == k]
            if own:
                if v.op == 'minsert' and v.args[0] in own and not any(cellof(x) == k for y in v.args[1:] for x in subterms(y)):
                    key, v = v.args[1], v.args[2]
                elif v.op == 'push' or v.op == 'minsert':
                    raise Und('cell updated to %s' % show(v))
                else:
                    raise Und('cell updated to %s' % show(v))
            flow = closure(s)
            # deciding whether to fill the cell may depend on anything: the conditions of the path are not part of what is stored
            drop = {t for t, _ in p.facts()}
            src = sources(v, flow, drop)
            used = {x for x in src if x.op == 'arg' and isinstance(x.args[0], int) and x.args[0] > 0}
            kp = set(parts(key)) if key is not None else set()
            if key is not None:
                kp |= {x for x in subterms(key)}
            odd = used - kp
            if odd:
                if key is None and not all(t.op in ('len', 'eq', 'lt', 'discr') or 1 for t in used):
                    raise Und('?')
                if key is None and v.op == 'tomap' and v.args[0].op == 'comp' and not any(sources(x, flow, drop) & odd for c, x in v.args[0].args[3]):
                    # only which entries are remembered depends on it: right if every reader looks whether there is one
                    rf = [t for s2, rd in sums.values() if k in rd for q in s2.paths for t, _ in q.facts() if any(cellof(x) == k for x in subterms(t))]
                    if all(t.op == 'contains' or t.op == 'discr' and t.args[0].op == 'mget' for t in rf):
                        raise Und('%s remembers only some entries' % f.short)
                raise Bad('%s remembers %s, which depends on the argument %s%s' % (
                    f.short, show(v), show(first(odd)), '' if key is None else ' besides the key ' + show(key)), w)
            vals.setdefault((v, key), f)
        if not vals:
            return None
        if len(vals) > 1:
            (a, ka), (b, kb) = list(vals)[:2]
            if ka is None and kb is None:
                init = initial(ctx).get(k)
                if a is init or b is init:
                    vals = {x: y for x, y in vals.items() if x[0] is not init}
                else:
                    gexpect(b, a, 'what is remembered by %s' % vals[(b, kb)].short, ctx.where(vals[(b, kb)]))
            else:
                whole = [(v, f) for (v, key), f in vals.items() if key is None]
                if len(whole) != 1:
                    raise Und('several forms of filling the cell')
                W = whole[0][0]
                for (v, key), f in list(vals.items()):
                    if key is None:
                        continue
                    q = {x: mk('mget', W, x.args[2]) for x in subterms(v) if x.op == 'call' and len(x.args) == 3 and x.args[1] is G
                         and x.args[0] in [g.short for g, (s2, rd) in sums.items() if k in rd]}
                    gexpect(unwrap(subst(v, q)), mk('mget', W, key), 'what %s remembers' % f.short, ctx.where(f))
                    del vals[(v, key)]
        return list(vals)[0]

    for k in sorted({k for s, rd in sums.values() for k in rd}):
        def ob(k=k):
            r = stored(k)
            if r is None:
                raise Und('never filled')
            return '%s%s' % (show(r[0])[:300], '' if r[1] is None else ' for key ' + show(r[1]))
        ctx.ob('what memo cell %d stores' % k, ob)

    for f, (s, rd) in sorted(sums.items(), key=lambda x: x[0].short):
        if f.name == 'new':
            continue

        def ob(f=f, s=s, rd=rd):
            w = ctx.where(f)
            I = initial(ctx)
            M, X = {}, {}
            keyed = {}
            cs = {x for p in s.returns() for t in [p.ret] + [t for t, _ in p.facts()] for x in subterms(t) if cellof(x) is not None}
            for k in rd:
                r = stored(k)
                if k not in I:
                    raise Und('initial state of cell %d' % k)
                for c in {c for c in cs if cellof(c) == k}:
                    M[c] = I[k]
                    if r is None:
                        X[c] = I[k]
                    elif r[1] is None:
                        X[c] = r[0]
                    else:
                        keyed[c] = r

            def ways(m, kd):
                out = []
                for p in s.returns():
                    fs, ok = [], True
                    mm = dict(m)
                    for t in [p.ret] + [t for t, _ in p.facts()]:
                        for x in subterms(t):
                            if x.op == 'mget' and x.args[0] in kd:
                                v, key = kd[x.args[0]]
                                mm[x] = subst(v, {key: x.args[1]})
                    for t, v in p.facts():
                        t2 = canon(resimp(subst(t, mm)))
                        if any(x in kd for x in subterms(t2)):
                            continue
                        if t2.op == 'discr' and t2.args[0].op == 'agg' and t2.args[0].args[1] is not None:
                            t2 = INT(t2.args[0].args[1])
                        if t2.op == 'int':
                            if t2.args[0] != v:
                                ok = False
                            continue
                        fs.append((t2, v))
                    d = {}
                    for t, v in fs:
                        if d.setdefault(t, v) != v:
                            ok = False
                    if ok:
                        out.append((d, canon(resimp(subst(p.ret, mm)))))
                return out
            a, b = ways(M, {}), ways(X, keyed)
            if not a:
                raise Und('no way through with an empty memo')
            n = 0
            for da, ra in a:
                for db, rb in b:
                    if any(db.get(t, v) != v for t, v in da.items()):
                        continue
                    n += 1
                    if ra is rb:
                        continue
                    if any(x.op == 'cell0' for x in subterms(rb)):
                        raise Und('remembered answer %s' % show(rb))
                    if any(x.op == 'cell0' for x in subterms(ra)):
                        raise Und('first answer %s' % show(ra))
                    gexpect(rb, ra, 'the remembered answer of %s' % f.short, w, facts=list({**da, **db}.items()),
                            known=tuple(x for x in subterms(ra) if x.op == 'fld'))
            return '%d pairs of ways (empty, filled memo)' % n
        ctx.ob('same answer with an empty and a filled memo: ' + f.short, ob)


def cellfield(c):
    """field of the graph a write cell belongs to"""
    t = c[1]
    if isinstance(t, T) and t.op == 'fld' and t.args[2] is G:
        for i in range(12):
            if E.getfield(G, i) is t:
                return i
    return None
