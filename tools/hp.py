#!/usr/bin/env python3
"""final values of &mut arguments: hp.py fn [inline...]"""
import sys, json, os
sys.path.insert(0,'/verif')
from sa import mir
from sa.engine import *
from sa.summary import *
c=mir.Crate(json.load(open(os.environ.get('D','/tmp/mo/rust_systre-lib.json'))))
pat=sys.argv[1]; inl=sys.argv[2:]
for f in c.fns:
    if f.kind=='Closure' or not (f.path.endswith(pat) or f.short==pat or mir.strip_generics(f.path).endswith(pat)): continue
    s=Summary(Engine(c, inline=lambda g: any(x in g.path for x in inl)),f)
    print('==',f.path)
    for p in s.returns():
        print('-- ret',show(p.ret))
        for t,v in p.facts(): print('      ',v,show(t))
        for i in range(f.argc):
            h=p.heap(('A',i))
            if h is not None and h.op!='arg': print('     $%d ='%i, show(h))
