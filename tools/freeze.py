"""freeze the list of functions of the reference tree (everything else is a new helper and gets inlined)"""
import sys, json
sys.path.insert(0, '/verif')
from sa import mir
lib, b = mir.dump()
ps = sorted({mir.strip_generics(f.path) for f in lib.fns if f.kind != 'Closure'})
json.dump(ps, open('/verif/sa/base_fns.json', 'w'), indent=0)
print(len(ps))
