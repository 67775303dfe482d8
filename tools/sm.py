#!/usr/bin/env python3
"""summaries: sm.py name [inline substrings...]"""
import sys, json, os
sys.path.insert(0,'/verif')
from sa import mir
from sa.engine import *
from sa.summary import *
c=mir.dump(os.environ['R'])[0] if os.environ.get('R') else mir.Crate(json.load(open(os.environ.get('D','/tmp/mo/rust_systre-lib.json'))))
pat=sys.argv[1]; inl=sys.argv[2:]
for f in c.fns:
    if f.kind=='Closure' or not (f.path.endswith(pat) or f.short==pat or mir.strip_generics(f.path).endswith(pat)): continue
    s=Summary(Engine(c, inline=lambda g: any(x in g.path for x in inl), **(dict(writes_cells=()) if os.environ.get('NC') else {})),f)
    print('==',f.path,len(s.paths),'paths')
    for p in s.paths:
        print('--',p.kind,show(p.ret) if isinstance(p.ret,T) else p.ret[-1:] if p.ret else p.ret)
        for t,v in p.facts(): print('      ',v,show(t))
        for e in p.events:
            if e[0]=='back':
                for cp,v in e[2].items():
                    ph=p.st.loops[e[1]][cp]
                    if ph in s.inv: continue
                    print('     * back',show(ph),':=',show(p.norm(v)))
            if e[0]=='write' and e[1][0]!='L': print('     * write',fmtcell(e[1]),[show(x[1]) if isinstance(x[1],T) else x[1] for x in e[2]],show(p.norm(e[3])))
            if e[0]=='mut': print('     * mut',e[1],fmtcell(e[2]),e[3])
            if e[0]=='unwrap': print('     * unwrap',show(p.norm(e[2])))
            if e[0]=='panic': print('     * panic',e[1:3])
            if e[0]=='loop':
                for cp,v in e[2].items():
                    if v in s.inv: continue
                    print('     * loop',show(v),'init',show(p.norm(v.args[3])))
