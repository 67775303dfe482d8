#!/usr/bin/env python3
"""mutrun.py [-a] [-t] PROP...: apply the mutants/refactorings of tools/muts/<PROP>.py in scratch copies and run the check.
muts/<PROP>.py: BAD = [(file, old, new)], GOOD = [(file, old, new) or a list of such edits]. -t also runs cargo test."""
import importlib.util, multiprocessing, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.setrecursionlimit(20000)
W = '/tmp/mw/%d' % os.getpid()
allc = '-a' in sys.argv; tst = '-t' in sys.argv; vb = '-v' in sys.argv
props = [a for a in sys.argv[1:] if a[0] != '-' and ':' not in a and not a.isdigit()]
only = [int(a) for a in sys.argv[1:] if a.isdigit()]

def job(q):
    import threading
    threading.stack_size(512 << 20)
    r = []
    t = threading.Thread(target=lambda: r.append(job_(q))); t.start(); t.join()
    return r[0] if r else (q, '?', 'crash', '')

def job_(q):
    prop, kind, n, edits = q
    wid = multiprocessing.current_process()._identity[0] if multiprocessing.current_process()._identity else 0
    d = '%s/%d' % (W, wid)
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/'], check=True)
    if isinstance(edits, tuple): edits = [edits]
    for f, old, new in edits:
        p = os.path.join(d, f); s = open(p).read()
        if old not in s: return (q, '?', 'pattern not found: ' + old, '')
        open(p, 'w').write(s.replace(old, new, 1))
    from sa import harness, limits, mir
    import importlib, io, contextlib
    out = ''
    tr = ''
    if tst:
        r = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tr = 'tests pass' if r.returncode == 0 else 'TESTS FAIL'
    mods = os.environ['MOD'].split(',') if 'MOD' in os.environ else [prop]
    if allc: mods = sorted(x[:-3].upper() for x in os.listdir(V + '/sa/checks') if x.startswith('c') and x.endswith('.py'))
    try:
        lib, b = mir.dump(d)
    except mir.AnalysisError as e:
        return (q, '?', 'does not compile\n' + str(e)[-1500:], '')
    hit = []
    txt = ''
    for m in mods:
        ctx = harness.Ctx(m, repo=d, lib=lib, bin_=b)
        mod = importlib.import_module('sa.checks.' + m.lower())
        limits.run(mod, ctx)
        bad = [o for o in ctx.obs if o[1] == 'bad']
        known = [k for k in harness.load_known() if k.get('property') == m and k.get('status') == 'known']
        bad = [o for o in bad if not any(k['obligation'] == o[0] and k.get('contains', '') in o[3] for k in known)]
        if bad: hit.append(m); txt += '\n      '.join(['']+['%s %s: %s @%s' % (m, o[0], o[3][:int(os.environ.get("W","230"))], o[2][:60]) for o in bad[:3]])
        if vb or (kind == 'BAD' and not bad and m == prop):
            txt += '\n      '.join(['']+['%s und %s: %s' % (m, o[0], o[3][:int(os.environ.get("W","230"))]) for o in ctx.obs if o[1] == 'undecided'][:6])
    return (q, hit, txt, tr)

jobs = []
for p in props:
    sp = importlib.util.spec_from_file_location('m', os.environ.get('MUTS', V + '/tools/muts') + '/%s.py' % p); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    k = 0
    for kind in ('BAD', 'GOOD'):
        for e in getattr(m, kind, []):
            if (not only or k in only) and not ('-g' in sys.argv and kind == 'BAD'): jobs.append((p, kind, k, e))
            k += 1
with multiprocessing.Pool(min(6, len(jobs)), maxtasksperchild=None) as pool:
    miss = fa = und = 0
    for q, hit, txt, tr in pool.imap_unordered(job, jobs, chunksize=1):
        p, kind, n, e = q
        d = e if isinstance(e, tuple) else e[0]
        lab = '%s#%d %s' % (p, n, ' '.join(d[2].split())[:90])
        if hit == '?': print('ERROR ', kind, lab, txt)
        elif kind == 'BAD':
            if p in hit or (allc and hit): print('caught', lab, hit if allc else '', tr, txt if vb else '')
            else: miss += 1; print('MISSED', lab, tr, txt)
        else:
            if hit: fa += 1; print('FALSE ALARM', lab, tr, txt)
            else: print('quiet ', lab, tr, txt)
print('missed', miss, 'false alarms', fa)
shutil.rmtree(W, ignore_errors=True)
