#!/usr/bin/env python3
"""explore one function and print its paths: ex.py [dump.json] name [inline substrings...]"""
import sys, json
sys.path.insert(0,'/verif')
from sa import mir
from sa.engine import *
c=mir.Crate(json.load(open('/tmp/mo/rust_systre-lib.json')))
pat=sys.argv[1]; inl=sys.argv[2:]
fs=[f for f in c.fns if f.path.endswith(pat) or f.short==pat or mir.strip_generics(f.path).endswith(pat)]
for f in fs:
    if f.kind=='Closure': continue
    e=Engine(c, inline=lambda g: any(x in g.path for x in inl))
    rs=e.run(f)
    print('==',f.path,len(rs),'paths')
    for r in rs:
        print('--',r.kind,show(r.ret) if isinstance(r.ret,T) else r.ret)
        for t,v in r.rel: print('      ',v,show(t))
        for ev,_ in r.event_list():
            if ev[0] in('write','call','mut','push','lostwrite'): print('     *',ev[0],' '.join(show(x) if isinstance(x,T) else (fmtcell(x) if isinstance(x,tuple) and x and isinstance(x[0],str) and x[0] in 'LAUOB' else str(x)[:80]) for x in ev[1:5]))
            if ev[0]=='back':
                for cp,v in ev[2].items(): print('     * back',fmtcell(cp[0]),cp[1],':=',show(v))
            if ev[0]=='loop':
                for cp,v in ev[2].items(): print('     * loop',fmtcell(cp[0]),cp[1],'init',show(v.args[3]))
