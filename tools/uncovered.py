"""functions of the library that have a body but no contract"""
import sys; sys.path.insert(0,'/verif')
import spec.all
from cppv import contract as C
from cppv.contract import short
tus=sys.argv[1:] or None
P=spec.all.program(['ringing/%s.cpp'%x for x in tus] if tus else spec.all.FULL+['ringing/lexical_cast.cpp','ringing/place_notation.cpp'])
from collections import defaultdict
d=defaultdict(list)
for k,b in P.bodies.items():
    s=short(k)
    if s in C.CONTRACTS: continue
    f=b.loc.rsplit(':',1)[0] if ':' in b.loc else b.loc
    d[f.split(':')[0]].append(s)
for f in sorted(d):
    print(f)
    for s in d[f]: print('   ',s)
