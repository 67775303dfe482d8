#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from the check modules (single source of the texts)"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import na
props, checks = [], []
for n in sorted(os.listdir(os.path.join(V, 'sa', 'checks'))):
    if not (n.startswith('c') and n.endswith('.py')):
        continue
    pid = n[:-3].upper()
    m = importlib.import_module('sa.checks.' + n[:-3])
    props.append(dict(id=pid, **m.PROP))
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'env VERIF_TIER=thorough python3 check.py ' + pid,
                   'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': getattr(m, 'NOTE', m.RULE)})
for p in na.NA:
    props.append({k: v for k, v in p.items() if k != 'reason'})
for p in props:
    a = p['anchors']
    if isinstance(a['mechanism'], str):
        a['mechanism'] = [{'name': x.strip(), 'where': ', '.join(a['files'])} for x in a['mechanism'].split(';')]
    if a.get('state') and isinstance(a['state'], list) and isinstance(a['state'][0], str):
        a['state'] = [{'name': x, 'where': ', '.join(a['files'])} for x in a['state']]
props.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1,
       'setup_cmd': 'python3 -c "from sa import mir; mir.build_driver(); mir.dump()"',
       'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in na.NA],
       'notes': 'Static analysis of rustc MIR (see DESIGN.md). No hooks in /repo; genuine defects were repaired by the fix: commits listed in known_findings.txt.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, sch)
        if len(p['title']) > 80: print('title too long', p['id'])
    print(len(checks), 'checks,', len(na.NA), 'not applicable: valid')
except ImportError:
    print('no jsonschema')

# ---- DESIGN.md
sys.path.insert(0, os.path.join(V, 'tools'))
from design_notes import N
out = open(os.path.join(V, 'tools', 'design_head.md')).read()
for c in checks:
    pid = c['property']
    m = importlib.import_module('sa.checks.' + pid.lower())
    n = N.get(pid)
    P = m.PROP
    out += '### %s %s\n\n%s\n\n' % (pid, P['title'], P['statement'])
    out += '* Decided by: %s. %s\n' % (m.TECHNIQUE, m.RULE)
    if n:
        out += '* Enumerated: %s.\n* Oracle: %s.\n* Bounds: %s.\n' % n[:3]
        out += '* Beyond tests: %s. %s\n' % (n[3], P['why_tests_cant'])
    else:
        print('no design notes for', pid)
    out += '* Anchored in %s.\n\n' % ', '.join(P['anchors']['files'])
out += '## 4. Not applicable\n\n'
for p in na.NA:
    out += '* **%s** %s. %s Reason: %s.\n' % (p['id'], p['title'], p['statement'], p['reason'])
out += open(os.path.join(V, 'tools', 'design_tail.md')).read()
import glob
rows = []
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), j['property'], j['what_it_breaks'].replace('|', '/').replace(chr(10), ' '), j.get('caught', 'caught by ' + j['property'])))
out += '| id | property | what it breaks | caught |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
