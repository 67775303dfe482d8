"""C02: the hidden caches are memory-safe."""
from ..rules import *
from .. import mir, alias
from ..summary import fmtcell
from .c06 import HEAD

LEVEL = 'other'
TECHNIQUE = 'ownership / alias analysis of MIR (references derived from interior-mutable cells, liveness, transitive write effects) and type-level Send/Sync witnesses'
RULE = ('References into an interior-mutable cell are followed from UnsafeCell::get through copies, aggregates and calls. While one is live no statement may replace the content of its cell, no callee may do so unless the cell '
        'is filled at most once, no second unique reference may be made, and no public function may return one into a cell that is replaced later. Types with such a cell must not be Sync.')
PROP = {
    'title': 'The hidden caches cannot cause memory errors',
    'statement': 'Nets and partitions update hidden state through shared references. No query ever replaces or modifies that state while a reference into it is in use, no reference into it outlives the query '
                 'that could be followed by a replacement, and values with such state cannot be shared between threads.',
    'quantifier': {'over': ['schedules', 'programs'], 'text': 'all sequences of queries by safe code, from any number of threads'},
    'why_tests_cant': 'Aliasing faults are undefined behaviour that usually shows no symptom in a test run, and data races need a client program that today does not compile.',
    'anchors': {'files': ['src/pgraphs.rs', 'src/partitions.rs'], 'mechanism': 'the UnsafeCell fields of Graph and Partition and every unsafe block that dereferences them'},
}


def run(ctx):
    flow = alias.Flow(ctx.lib)
    fns = {f.id: f for f in ctx.lib.fns}
    label = {c: '%s.%s' % (c[0].split('::')[-1], n) for c, n in flow.cells.items()}

    # ---------------------------------------------------------------- which cells are replaced after they were filled
    memo = {}

    def refilled(cell):
        """a returning path that writes the cell and leaves it in a state in which it will be written again; None when unknown
        or when the cell is filled at most once"""
        if cell in memo:
            return memo[cell]
        memo[cell] = None
        for f in ctx.lib.fns:
            b = flow.per[f.id]
            if cell not in b.mywrites:
                continue
            # modified in place through a unique reference
            if any(k.get(cell) == 'mut' for k in b.bor.values()):
                memo[cell] = '%s modifies it in place' % f.short
                break
            try:
                s = ctx.summary(f)
            except Exception:
                continue
            for p in s.paths:
                if p.kind != 'return':
                    continue
                for e in p.events:
                    if e[0] != 'write' or fmtcell(e[1]) != 'U:$0.%d' % cell[1] or e[2]:
                        continue
                    val = p.norm(e[3])
                    facts = list(p.facts())
                    old = [(t, v) for t, v in facts if any(x.op == 'cell0' and x.args[0] is A(0, cell[1]) for x in subterms(t))]
                    if not isinstance(val, T):
                        continue
                    again = [(canon(put(t, cell, val)), v) for t, v in old]
                    if all(any(t is c and v == w for c, w in facts) for t, v in again):
                        memo[cell] = '%s replaces it whenever %s' % (f.short, ' and '.join('%s = %s' % (show(t), v) for t, v in old) or 'it is called')
                        break
        return memo[cell]

    def put(t, cell, val):
        if not isinstance(t, T):
            return t
        if t.op == 'cell0' and t.args[0] is A(0, cell[1]):
            return val
        return mk(t.op, *[put(a, cell, val) if isinstance(a, T) else a for a in t.args])

    def peel(cell):
        """text of the content type"""
        a = ctx.lib.adts[cell[0]]
        s = ctx.lib.tstr(a['variants'][0]['fields'][cell[1]]['ty'])
        i = s.find('UnsafeCell<')
        return s[i + len('UnsafeCell<'):-1]

    def where(f, span):
        return '%s (%s)' % (f.path, span or f.file)

    # ---------------------------------------------------------------- references in use across replacements
    n = 0
    for f in ctx.lib.fns:
        b = flow.per[f.id]
        if not (b.raw or b.bor):
            continue
        n += 1

        def inuse(f=f, b=b):
            unsure = None
            for cell, kind, what, local, span in b.check():
                ty = ctx.lib.tstr(f.locals[local]['ty'])
                direct = what in ('replaced', 'borrowed again', 'read')
                whole = peel(cell) in ty
                text = 'a %s reference into %s is in use while the cell is %s' % ('unique' if kind == 'mut' else 'shared', label[cell], what) if direct else \
                       'a %s reference into %s is in use while the cell %s' % ('unique' if kind == 'mut' else 'shared', label[cell], what)
                if direct or kind == 'mut' or whole or refilled(cell):
                    raise Bad(text, where(f, span))
                unsure = text
            if unsure:
                raise Und('%s; the cell may be filled only once' % unsure)
            return '%d addresses of and %d references into %s' % (len(b.raw), len(b.bor), ', '.join(sorted({label[c] for m in list(b.raw.values()) + list(b.bor.values()) for c in m})))
        ctx.ob('references in use: %s' % f.path, inuse)

    def lent():
        unsure, seen = None, 0
        for f in ctx.lib.fns:
            r = flow.ret[f.id]
            seen += 1
            if not r or not f.d.get('pub') or f.kind == 'Closure':
                continue
            for cell, kind in r.items():
                if kind == 'raw':
                    continue
                why = refilled(cell)
                if kind == 'mut':
                    raise Bad('a unique reference into %s is handed out by a public function' % label[cell], where(f, None))
                if why:
                    raise Bad('a reference into %s is handed out by a public function, and %s' % (label[cell], why), where(f, None))
                unsure = 'a reference into %s is handed out by %s; the cell may be filled only once' % (label[cell], f.short)
        if unsure:
            raise Und(unsure)
        return 'no public function of %d returns one' % seen
    ctx.ob('references that outlive the query', lent)

    # ---------------------------------------------------------------- threads
    def threads():
        owners = sorted({c[0] for c in flow.cells})
        src = HEAD + 'use rust_systre::partitions::Partition;\nfn need_sync<X: Sync>() {}\nfn need_send<X: Send>() {}\n'
        line = src.count('\n')
        rows = [('Graph', 'need_send::<G2<A>>', 'need_sync::<G2<A>>', 'pgraphs::Graph'),
                ('Partition', 'need_send::<Partition<u32>>', 'need_sync::<Partition<u32>>', 'partitions::Partition')]
        rows = [r for r in rows if any(o.endswith(r[3]) for o in owners)]
        if not rows:
            return 'no type with an unprotected cell'
        for i, (_, g, b, _) in enumerate(rows):
            src += 'pub fn g%d() { %s() }\npub fn b%d() { %s() }\n' % (i, g, i, b)
        errs = mir.witness(src, ctx.repo)
        out = []
        for i, (name, g, b, _) in enumerate(rows):
            at = {l: (code, msg) for l, _, code, msg in errs}
            stray = [m for l, _, _, m in errs if l and l <= line]
            if stray or line + 1 + 2 * i in at:
                raise Und('the witness does not fit the crate: %s' % (stray or [at[line + 1 + 2 * i][1]])[0][:100])
            if line + 2 + 2 * i not in at:
                raise Bad('%s holds an unprotected cell but may be shared between threads:  fn f() { %s() }  type-checks' % (name, b), rows[i][3])
            out.append('%s: %s' % (name, at[line + 2 + 2 * i][1]))
        return '; '.join(out)
    ctx.ob('not shared between threads', threads)
    ctx.counts['cells'] = len(flow.cells)
    ctx.counts['functions'] = ctx.counts.get('functions', 0) + n
