"""Common machinery of the checks: obligations, evidence, exit codes."""
import json
import os
import time
import traceback

from . import mir
from .terms import *
from .engine import Engine, Undecided
from .summary import Summary

BASE = os.path.join(mir.VERIF, 'sa', 'base_fns.json')


class Bad(Exception):
    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.where = where


class Und(Exception):
    """the code has a form this obligation has no rule for"""


class Ctx:
    def __init__(self, prop, tier='quick', seed=1, repo=None, lib=None, bin_=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.repo = repo or mir.REPO
        self.t0 = time.time()
        if lib is None:
            lib, bin_ = mir.dump(self.repo)
        self.lib, self.bin = lib, bin_
        try:
            self.base = set(json.load(open(BASE)))
        except OSError:
            self.base = None
        self.obs = []          # (name, status, where, detail)
        self.analysed = {}     # function path -> number of paths
        self.sums = []
        self._sum = {}
        self.assumptions = []
        self.counts = {}
        self.cur = ''          # the function summarised last

    # ---------------------------------------------------------------- lookup
    def fns(self, pat, file=None):
        r = [f for f in self.lib.find(pat) if file is None or f.file.endswith(file)]
        return r

    def fn(self, pat, file=None, public=False):
        """the one function named pat; Und when it is gone (private) or Bad (public API)"""
        r = self.fns(pat, file)
        if len(r) == 1:
            return r[0]
        if public and not r:
            raise Bad('the public function %s no longer exists' % pat)
        raise Und('%d functions named %s' % (len(r), pat))

    def impl(self, trait, selfty, name=None):
        """methods of `impl trait for selfty` (substring match on the generic-full path)"""
        out = []
        for f in self.lib.fns:
            if f.kind == 'Closure':
                continue
            p = f.path
            if ('<' + trait in p or ' ' + trait in p or trait in p) and selfty in p and (name is None or f.name == name):
                out.append(f)
        return out

    def is_new(self, f):
        return self.base is not None and f.kind != 'Closure' and mir.strip_generics(f.path) not in self.base

    def where(self, f, sp=None):
        return '%s (%s)' % (sp or f.span, mir.strip_generics(f.path))

    # ---------------------------------------------------------------- analysis
    def engine(self, inline=(), inline_if=None, **kw):
        inl = set(inline)

        def pred(g):
            if self.is_new(g):
                return True
            if inline_if is not None and inline_if(g):
                return True
            p = mir.strip_generics(g.path)
            return any(p.endswith(x) or g.short == x for x in inl)
        e = Engine(self.lib, inline=pred, **kw)
        if self.tier == 'thorough':
            e.time_limit = 240
        return e

    def summary(self, f, inline=(), args=None, pre=None, inline_if=None, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        key = (f.id, tuple(sorted(inline)), tuple(kw.items())) if args is None and pre is None and inline_if is None else None
        if key and key in self._sum:
            return self._sum[key]
        s = Summary(self.engine(inline, inline_if, **kw), f, args, pre)
        self.sums.append((self.where(f), s))
        self.analysed[mir.strip_generics(f.path)] = len(s.paths)
        self.cur = self.where(f)
        if key:
            self._sum[key] = s
        return s

    # ---------------------------------------------------------------- obligations
    def ok(self, name, detail=''):
        self.obs.append((name, 'ok', '', str(detail)[:400]))

    def bad(self, name, where, msg):
        self.obs.append((name, 'bad', where, str(msg)[:800]))

    def und(self, name, why):
        self.obs.append((name, 'undecided', '', str(why)[:400]))

    def ob(self, name, f, *a):
        """run one obligation: returns detail, raises Bad / Und"""
        t = time.time()
        try:
            d = f(*a)
            self.ok(name, d or '')
        except Bad as e:
            self.bad(name, e.where or self.cur, str(e))
        except Und as e:
            self.und(name, str(e))
        except (Undecided, RecursionError) as e:
            self.und(name, 'analysis gave up: %s' % e)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.und(name, 'internal: %s: %s' % (type(e).__name__, str(e)[:200]))
        if os.environ.get('SA_DEBUG'):
            print('   %-60s %s %.1fs' % (name[:60], self.obs[-1][1], time.time() - t), self.obs[-1][3][:300] if self.obs[-1][1] != 'ok' else '', self.obs[-1][2])


def load_known():
    p = os.path.join(mir.VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'):
                out.append(json.loads(l))
    return out


def finish(ctx, mod):
    """evidence, output lines, exit code"""
    pid = ctx.prop
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    bad = [o for o in ctx.obs if o[1] == 'bad']
    new, old = [], []
    for o in bad:
        k = next((k for k in known if k['obligation'] == o[0] and k.get('contains', '') in o[3]), None)
        (old if k else new).append((o, k))
    okn = sum(1 for o in ctx.obs if o[1] == 'ok')
    und = [o for o in ctx.obs if o[1] == 'undecided']
    ev = {
        'property': pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': mod.LEVEL,
        'coverage': {
            'explanation': mod.RULE,
            'functions_analysed': len(ctx.analysed),
            'paths_analysed': sum(ctx.analysed.values()),
            'obligations': len(ctx.obs),
            'discharged': okn,
            'undecided': len(und),
            'functions': {k: v for k, v in sorted(ctx.analysed.items())},
            'results': [{'obligation': o[0], 'status': o[1], 'where': o[2], 'detail': o[3]} for o in ctx.obs],
            **ctx.counts,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(mir.VERIF, 'evidence'), exist_ok=True)
    ep = os.path.join(mir.VERIF, 'evidence', pid + '.json')
    with open(ep, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations, %d hold, %d undecided, %d violated; %d functions, %d paths, %.1fs' % (
        pid, len(ctx.obs), okn, len(und), len(bad), len(ctx.analysed), sum(ctx.analysed.values()), time.time() - ctx.t0))
    for o in und:
        print('  undecided: %s: %s' % (o[0], o[3][:200]))
    seen = set()
    for o, k in old:
        if k['obligation'] in seen:
            continue
        seen.add(k['obligation'])
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if new:
        rp = os.path.join(mir.VERIF, 'evidence', pid + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('replay: python3 %s/check.py %s\n' % (mir.VERIF, pid))
            for o, _ in new:
                f.write('%s\n  at %s\n  %s\n' % (o[0], o[2], o[3]))
        for o, _ in new:
            print('  violated: %s\n    at %s\n    %s' % (o[0], o[2], o[3]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
