"""C04: no result depends on hash order."""
import re

from ..rules import *
from ..mir import strip_generics
from ..hashorder import HashOrder

LEVEL = 'other'
TECHNIQUE = 'flow-sensitive interprocedural taint analysis over MIR from every iteration of a hash container (and time, randomness, addresses) to the results of public functions'
RULE = ('A sequence made by iterating a hash set or hash map carries the mark "in hash order" through adaptors, collections into lists, calls, closures and stores through references; sorting by the whole element, collecting into '
        'another set or map, and counting remove it. A sequence so marked, an element selected from it by position or a number given by position must not reach the result, or a caller-visible store, of any public function or trait method, nor the program output.')
PROP = {
    'title': 'Results never depend on hash order',
    'statement': 'The same input gives the same output in every run: the order of edges, vertices, symmetries, generators and all other listed results, and every numbering or choice of representative, is fixed by the input alone. '
                 'No result depends on the randomised iteration order of hash tables, on the time, on random numbers or on memory addresses.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all public functions, all inputs, all seeds of the hash tables'},
    'why_tests_cant': 'The hash seed changes from run to run, and tests compare small results or compare them as sets, so that a wrong order shows rarely or never.',
    'anchors': {'files': ['src/symmetries.rs', 'src/pgraphs.rs', 'src/partitions.rs', 'src/spacegroups/basics.rs'],
                'mechanism': 'iterations over hash sets and hash maps in graph construction, coordination sequences, group generation and composition of automorphisms'},
}
WORD = {'S': 'a list in hash order', 'E': 'a value selected or numbered by hash order'}


def is_sink(f):
    if f.kind == 'Closure' or f.d.get('derived'):
        return False
    if re.search(r'(^|::)tests?::', f.path):
        return False
    t = str(f.d.get('impl_trait') or '')
    if t:
        return not t.endswith('fmt::Debug')
    return bool(f.d.get('pub'))


def run(ctx):
    tot = {'functions': 0, 'sites': 0, 'results': 0}
    for name, c in (('library', ctx.lib), ('program', ctx.bin)):
        if c is None:
            continue
        ho = HashOrder(c)
        bad, und, done = [], [], set()

        def scan():
            for f in c.fns:
                if f.kind == 'Closure' or not f.blocks:
                    continue
                tot['functions'] += 1
                try:
                    ret, out = ho.analyse(f, tuple(frozenset() for _ in range(f.argc)))
                except RecursionError:
                    und.append('%s: too deep' % f.path)
                    continue
                ctx.analysed[strip_generics(f.path)] = len(f.blocks)
                if not is_sink(f):
                    continue
                tot['results'] += 1
                for what, subs in [('result', ret)] + [('argument %d' % i, s) for i, s in out.items()]:
                    ms = set().union(*subs.values()) if subs else set()
                    hard = [m for m in 'SE' if m in ms]
                    if hard:
                        bad.append((f, what, WORD[hard[0]]))
                    elif ms & {'L', 'U'}:
                        und.append('%s: the %s may depend on hash order' % (strip_generics(f.path), what))
        scan()
        tot['sites'] += len(ho.sites)

        def ob():
            if bad:
                # the innermost function first
                f, what, w = bad[0]
                src = ['%s (%s)' % (sp, how) for (p, sp), how in ho.sites.items() if p == f.path or any(strip_generics(p) in s for s in ())]
                allsrc = sorted('%s (%s)' % (sp, how) for (p, sp), how in ho.sites.items())
                raise Bad('the %s of %s is %s; hash orders arise at: %s' % (what, '; '.join('%s' % strip_generics(g.path) for g, _, _ in bad[:6]), w, ', '.join(src or allsrc)), ctx.where(f))
            if ho.prints:
                f, sp = ho.prints[0]
                raise Bad('text is printed in hash order', ctx.where(f, sp))
            if und:
                raise Und('; '.join(und[:6]))
        ctx.ob('%s: no public result in hash order' % name, ob)
        sites = ctx.counts.setdefault('hash iterations', [])
        for (p, sp), how in sorted(ho.sites.items()):
            sites.append('%s %s %s' % (sp, strip_generics(p), how))
    for k, v in tot.items():
        ctx.counts[k] = v
