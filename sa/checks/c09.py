"""C09: symmetry operations refuse nets that are not locally stable."""
from ..graphs import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of MIR: dominating-guard rule over all returning paths, transitively through the call graph'
RULE = ('Every path on which a symmetry operation returns must carry the fact that the net is locally stable (or stable, which implies it), or must call an operation on the same net '
        'that is itself so guarded; a path that returns without it is reported.  Checks that vanish without debug assertions do not count.')
PROP = {
    'title': 'Symmetry operations refuse nets that are not locally stable',
    'statement': 'Symmetries, orbits, translational orbits, minimality, ladder detection and the minimal image are answered only for locally stable nets; for every other net the operation fails visibly '
                 'instead of returning an answer computed from edge vectors that do not identify edges.',
    'quantifier': {'over': ['inputs'], 'text': 'all nets, in all build profiles'},
    'why_tests_cant': 'No test offers a net that is not locally stable to a symmetry operation, and tests run with debug assertions.',
    'anchors': {'files': ['src/symmetries.rs', 'src/pgraphs.rs'], 'mechanism': 'the local stability precondition of the symmetry operations'},
}

OPS = ['symmetries', 'translational_orbits', 'minimal_image', 'is_minimal', 'is_ladder', 'ladder_symmetries']
VIA = ['Graph::vertex_orbits', 'Graph::edge_orbits', 'Graph::symmetries']
STABLE = ('Graph::is_locally_stable', 'Graph::is_stable')


def run(ctx):
    CTX[0] = ctx
    memo = {}
    own = lambda g: g.file.endswith('symmetries.rs')

    def mentioned(p):
        out = [t for t, _ in p.facts()] + ([p.ret] if isinstance(p.ret, T) else [])
        for e in p.events:
            todo = [e]
            while todo:
                x = todo.pop()
                if isinstance(x, T):
                    out.append(x)
                elif isinstance(x, (tuple, list)):
                    todo.extend(x)
        return out

    def asked(s):
        """functions called on the same net"""
        return {x.args[0] for p in s.paths for t in mentioned(p) for x in subterms(t) if x.op == 'call' and x.args[1:2] == (G,)}

    def guarded(f):
        """every returning path is guarded: number of paths, or the bare path"""
        if f.path in memo:
            return memo[f.path]
        memo[f.path] = (0, None)         # recursion: assume
        s = ctx.summary(f, **NC)
        n = 0
        bare = None
        for p in s.paths:
            if p.kind != 'return':
                continue
            if any(strip_call(t) in STABLE and v == 1 and t.args[1:] == (G,) for t, v in p.facts()):
                n += 1
                continue
            ts = mentioned(p)
            ok = False
            for t in ts:
                for x in subterms(t):
                    if x.op == 'call' and G in x.args[1:2]:
                        g = callee(x.args[0])
                        if g is not None and g.path != f.path and relevant(g) and guarded(g)[1] is None:
                            ok = True
            if ok:
                n += 1
            else:
                bare = p
        memo[f.path] = (n, bare)
        return memo[f.path]

    def callee(short):
        fs = [g for g in ctx.lib.fns if g.kind != 'Closure' and g.short == short]
        return fs[0] if len(fs) == 1 else None

    def relevant(g):
        return own(g) or g.short == 'Graph::symmetries'

    def strip_call(t):
        return t.args[0] if t.op == 'call' else None

    def cond(p):
        r = []
        for t, v in p.facts():
            r.append('%s is %s' % (show(t)[:80], v))
        return ', '.join(r[:3]) or 'always'

    def obligation(name, f):
        def go():
            n, bare = guarded(f)
            if bare is not None:
                # some other test of the net that this rule does not know?
                strange = [t for t, _ in bare.facts() for x in subterms(t) if x.op == 'call' and x.args[0] not in STABLE and 'stable' in str(x.args[0]).lower()]
                if strange:
                    raise Und('stability in another form: %s' % show(strange[0])[:80])
                raise Bad('%s answers without establishing that the net is locally stable (%s)' % (name, cond(bare)), ctx.where(f))
            return '%d returning paths, all guarded' % n
        return go

    for n in OPS:
        f = [g for g in ctx.lib.fns if g.kind != 'Closure' and g.name == n and own(g) and g.d['pub']]
        if len(f) != 1:
            def gone(n=n):
                raise Bad('public operation %s not found' % n)
            ctx.ob(n.replace('_', ' '), gone)
            continue
        ctx.ob(n.replace('_', ' '), obligation(n.replace('_', ' '), f[0]))

    def cached():
        f = ctx.fn('pgraphs::Graph::symmetries', public=True)
        s = ctx.summary(f, **NC)
        fill = set()
        for p in s.paths:
            for t in mentioned(p):
                for x in subterms(t):
                    if x.op == 'call' and x.args[1:2] == (G,):
                        fill.add(x.args[0])
        for n in sorted(fill):
            g = callee(n)
            if g is not None and own(g) and guarded(g)[1] is not None:
                raise Bad('the symmetries of a graph come from %s, which does not check local stability' % g.short, ctx.where(f))
        if not fill:
            raise Und('where the symmetries come from')
        return 'filled by %s' % ', '.join(sorted(fill))
    ctx.ob('symmetries kept with the graph', cached)

    for q, what in (('vertex_orbits', 'vertex orbits'), ('edge_orbits', 'edge orbits')):
        def orbits(q=q, what=what):
            f = ctx.fn('pgraphs::Graph::' + q, public=True)
            s = ctx.summary(f, **NC)
            names = asked(s)
            good = [g for g in (callee(n) for n in names) if g is not None and (g.short == 'Graph::symmetries' or own(g) and guarded(g)[1] is None)]
            bad = [g for g in (callee(n) for n in names) if g is not None and own(g) and guarded(g)[1] is not None]
            if bad and not good:
                raise Bad('%s come from %s, which does not check local stability' % (what, bad[0].short), ctx.where(f))
            if not good:
                raise Und('where the symmetries come from')
            return 'from %s' % ', '.join(g.short for g in good)
        ctx.ob(what, orbits)
