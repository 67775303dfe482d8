#!/usr/bin/env python3
"""pretty-print MIR of functions whose path contains argv[2]"""
import json,sys
def place(p):
    s='_%d'%p[0]
    for e in p[1:]:
        k=e[0]
        if k=='*': s='(*%s)'%s
        elif k=='f': s+='.%d'%e[1]
        elif k=='i': s+='[_%d]'%e[1]
        elif k=='d': s='(%s as %s)'%(s,e[2])
        else: s+=str(e)
    return s
def const(c):
    if c['c']=='fn': return (c.get('res_path') or c['path'])+('@'+c['id'] if 0 else '')
    if c['c']=='promoted': return 'promoted[%d]'%c['idx']
    return repr(c.get('v',c.get('opaque',c.get('def',c))))
def op(o):
    if o[0]=='const': return const(o[1])
    return ('' if o[0]=='copy' else 'mv ')+place(o[1])
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s %s'%(r[1],place(r[2]))
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='discr': return 'discr(%s)'%place(r[1])
    if k=='cast': return 'cast[%s](%s)'%(r[1],op(r[2]))
    if k=='agg': return 'agg %s (%s)'%(json.dumps({a:b for a,b in r[1].items() if a!='targs'}),', '.join(op(x) for x in r[2]))
    return json.dumps(r)
def pp(f,types):
    print('fn',f['path'],'  id',f['id'],f['span'])
    for n,p in f.get('names',[]): print('   ',n,'=',place(p))
    for i,l in enumerate(f['locals']):
        print('    _%d: %s'%(i,types[l['ty']]['str']))
    body(f)
    for k,pr in enumerate(f.get('promoted',[]) or []):
        print('  promoted',k); body(pr)
def body(f):
    for i,b in enumerate(f['blocks']):
        if b['cl']: continue
        print('  bb%d:'%i, '   //',b['sp'])
        for s in b['s']:
            if s[0]=='=': print('     ',place(s[1]),'=',rv(s[2]))
            elif s[0] in('live','dead'): pass
            else: print('     ',s)
        t=b['t']
        if t[0]=='call': print('     ',place(t[3]),'= CALL',op(t[1]),'(',', '.join(op(x) for x in t[2]),') -> bb',t[4],t[5])
        elif t[0]=='switch': print('      SWITCH',op(t[1]),t[3],'else',t[4])
        elif t[0]=='drop': print('      drop',place(t[1]),'->',t[2])
        else: print('     ',json.dumps(t))
d=json.load(open(sys.argv[1]))
for f in d['fns']:
    if sys.argv[2] in f['path'] or sys.argv[2] in f['id']: pp(f,d['types'])
