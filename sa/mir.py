"""Build the rustc driver if needed, dump /repo's MIR with it, load the dump."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.environ.get('SA_CACHE', os.path.join(VERIF, '.cache'))
DRIVER = os.path.join(CACHE, 'driver', 'debug', 'mirdump')


class AnalysisError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_driver():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = _run(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(CACHE, 'driver')],
                 cwd=os.path.join(VERIF, 'driver'))
        if r.returncode != 0 or not os.path.exists(DRIVER):
            raise AnalysisError('driver build failed:\n' + r.stdout[-3000:])


def _sysroot_lib():
    r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True)
    return os.path.join(r.stdout.strip(), 'lib')


def dump(repo=None):
    """-> (lib, bin) parsed dumps of the current tree of repo"""
    repo = repo or REPO
    build_driver()
    out = tempfile.mkdtemp(prefix='mir-', dir=CACHE)
    try:
        with open(os.path.join(CACHE, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            tgt = os.path.join(CACHE, 'repo-' + hashlib.sha1(repo.encode()).hexdigest()[:8])
            # a warm cache would silently skip the wrapper
            if os.path.isdir(tgt):
                _run(['cargo', '+nightly', 'clean', '--offline', '-p', 'rust-systre', '--target-dir', tgt], cwd=repo)
            r = _run(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--bins', '--target-dir', tgt],
                     cwd=repo,
                     env={'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'MIRDUMP_OUT': out, 'LD_LIBRARY_PATH': _sysroot_lib(),
                          'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false',
                          'CARGO_PROFILE_DEV_OVERFLOW_CHECKS': 'true', 'CARGO_INCREMENTAL': '0'})
            p = os.path.join(out, 'rust_systre-lib.json')
            if r.returncode != 0 or not os.path.exists(p):
                raise AnalysisError('cargo check with the MIR driver failed:\n' + r.stdout[-3000:])
            lib = json.load(open(p))
            pb = os.path.join(out, 'rust_systre-bin.json')
            bin_ = json.load(open(pb)) if os.path.exists(pb) else None
            return Crate(lib), (Crate(bin_) if bin_ else None)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def witness(src, repo=None):
    """type-check a small client crate against the current tree: [(line, level, code, message)].  Nothing is run."""
    repo = repo or REPO
    build_driver()
    d = tempfile.mkdtemp(prefix='wit-', dir=CACHE)
    try:
        p = os.path.join(d, 'w.rs')
        with open(p, 'w') as fh:
            fh.write(src)
        with open(os.path.join(CACHE, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            tgt = os.path.join(CACHE, 'repo-' + hashlib.sha1(repo.encode()).hexdigest()[:8])
            env = {'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false', 'CARGO_PROFILE_DEV_OVERFLOW_CHECKS': 'true', 'CARGO_INCREMENTAL': '0',
                   'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'LD_LIBRARY_PATH': _sysroot_lib()}
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--target-dir', tgt, '--message-format=json'],
                               cwd=repo, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            metas, main = set(), None
            for ln in r.stdout.splitlines():
                try:
                    m = json.loads(ln)
                except ValueError:
                    continue
                for f in m.get('filenames') or ():
                    if f.endswith(('.rmeta', '.so')):
                        metas.add(os.path.dirname(f))
                        if m['target']['name'] in ('rust_systre', 'rust-systre') and f.endswith('.rmeta'):
                            main = f
            if main is None:
                raise AnalysisError('no metadata of the crate')
            cmd = ['rustc', '+nightly', '--edition=2021', '--crate-type=lib', '--emit=metadata', '-o', os.path.join(d, 'w.rmeta'), '--error-format=json', '-A', 'warnings', '--extern', 'rust_systre=' + main]
            for q in ('num_rational', 'num_bigint', 'num_traits'):
                for x in sorted(metas):
                    for f in os.listdir(x):
                        if f.startswith('lib%s-' % q) and f.endswith('.rmeta'):
                            cmd += ['--extern', '%s=%s' % (q, os.path.join(x, f))]
            for x in sorted(metas):
                cmd += ['-L', 'dependency=' + x]
            r = subprocess.run(cmd + [p], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        out = []
        for ln in r.stderr.splitlines():
            try:
                m = json.loads(ln)
            except ValueError:
                continue
            if m.get('$message_type', 'diagnostic') != 'diagnostic' or m.get('level') not in ('error',):
                continue
            code = (m.get('code') or {}).get('code')
            sp = [x for x in m.get('spans', ()) if x.get('is_primary')]
            out.append((sp[0]['line_start'] if sp else 0, m['level'], code, m['message']))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


_GEN = re.compile(r"<[^<>]*>")


def strip_generics(p):
    """remove ::<...> generics but keep <X as Trait>::m forms reduced"""
    p = p.replace('->', '=>')
    prev = None
    # <A as B>::m  ->  B::m with self kept
    while prev != p:
        prev = p
        p = re.sub(r"::<[^<>]*>", '', p)
        m = re.search(r"<([^<>]*?) as ([^<>]*?)>", p)
        if m:
            p = p[:m.start()] + '{%s as %s}' % (m.group(1).split('<')[0], m.group(2).split('<')[0]) + p[m.end():]
            continue
        p = re.sub(r"(?<=\w)<[^<>]*>", '', p)
    return p.replace('=>', '->')


def short(path):
    """'Type::method' or 'Trait::method' or 'func'"""
    p = strip_generics(path)
    m = re.match(r"^\{(.*) as (.*)\}::(\w+)$", p)
    if m:
        return m.group(2).split('::')[-1].strip() + '::' + m.group(3)
    m = re.match(r".*<impl (.*) for (.*)>::(\w+)$", p)
    if m:
        return m.group(1).split('::')[-1].split('<')[0] + '::' + m.group(3)
    m = re.match(r".*<impl (.*)>::(\w+)$", p)
    if m:
        return m.group(1).split('::')[-1] + '::' + m.group(2)
    segs = [s for s in p.split('::') if s]
    if len(segs) >= 2 and segs[-2][:1].isupper():
        return segs[-2] + '::' + segs[-1]
    if len(segs) >= 2 and segs[0] in ('std', 'core', 'alloc', 'itertools', 'num_traits'):
        return segs[-2] + '::' + segs[-1]
    return segs[-1] if segs else p


class Fn:
    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.id = d['id']
        self.path = d['path']
        self.kind = d['kind']
        self.name = d.get('name')
        self.argc = d['argc']
        self.locals = d['locals']
        self.blocks = d['blocks']
        self.span = d['span']
        self.file = self.span.rsplit(':', 1)[0]
        self.promoted = d.get('promoted') or []
        self._loops = None

    @property
    def short(self):
        return short(self.path)

    def ty(self, local):
        return self.crate.types[self.locals[local]['ty']]

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        if k == 'drop':
            return [t[2]]
        return []

    def loops(self):
        """header -> set of body blocks (natural loops, merged per header)"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        # iterative DFS for reachable + order
        order, seen, st = [], set(), [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.preds = preds
        self.rpo = rpo

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(preds[x])
        self._loops = loops
        return loops


class Crate:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.fns = [Fn(f, self) for f in d['fns']]
        self.by_id = {f.id: f for f in self.fns}
        self.adts = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.statics = d['statics']
        self.files = d['files']

    def tstr(self, i):
        return self.types[i]['str']

    def into_from(self, ref):
        """x.into() is From::from of the target type when that is implemented here"""
        if len(ref.get('targs') or ()) != 2:
            return ref
        if not hasattr(self, '_from'):
            self._from = {}
            for f in self.fns:
                m = re.match(r'^<(.*) as std::convert::From<(.*)>>::from$', f.path)
                if m:
                    k = tuple(strip_generics(x).split('::')[-1] for x in m.groups())
                    self._from.setdefault(k, []).append(f)
        src, dst = (self.tstr(i) for i in ref['targs'])
        if src.startswith('&') or dst.startswith('&'):
            return ref
        k = strip_generics(dst).split('::')[-1], strip_generics(src).split('::')[-1]
        r = self._from.get(k, ())
        if len(r) != 1:
            return ref
        f = r[0]
        return {'c': 'fn', 'path': 'std::convert::From::from', 'id': f.id, 'local': True, 'targs': [], 'trait': 'std::convert::From',
                'res': f.id, 'res_local': True, 'res_path': f.path}

    def find(self, pat):
        """functions whose generic-free path ends with pat (segments)"""
        r = []
        for f in self.fns:
            if f.kind == 'Closure':
                continue
            p = strip_generics(f.path)
            if p == pat or p.endswith('::' + pat) or f.short == pat:
                r.append(f)
        return r

    def one(self, pat, file=None):
        r = [f for f in self.find(pat) if file is None or f.file == file]
        return r[0] if len(r) == 1 else None

    def impl_fn(self, trait, selfpat, name, targ=None):
        """the fn of `impl Trait<targ> for Self`; patterns are regexes on type strings"""
        out = []
        for f in self.fns:
            if f.name != name or f.kind == 'Closure':
                continue
            ii = f.d.get('impl_trait')
            if not ii:
                continue
        return out


def strip_lt(s):
    s = re.sub(r"'[a-z_]\w*\s*", '', s)
    return s


if __name__ == '__main__':
    lib, b = dump()
    print(len(lib.fns), 'fns', len(b.fns) if b else None)
