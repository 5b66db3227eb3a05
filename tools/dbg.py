"""dbg.py [-c CANDSUBSTR] KEYSUBSTR...   verify matching contracts, print failures"""
import sys; sys.path.insert(0,'/verif')
import os, importlib
from cppv.cxx import *
from cppv import prove, contract as C
from cppv.contract import *
from cppv.terms import *
args=sys.argv[1:]; cand=None; dump=False; mods=None; quiet=False; onlyprop=None
while args and args[0].startswith('-'):
    if args[0]=='-c': cand=args[1]; args=args[2:]
    elif args[0]=='-d': dump=True; args=args[1:]
    elif args[0]=='-q': quiet=True; args=args[1:]
    elif args[0]=='-p': onlyprop=args[1]; args=args[2:]
import spec.all
TUS=os.environ.get('TUS')
P=spec.all.program([('ringing/%s.cpp'%x if not x.startswith('/') else x) for x in TUS.split(',')] if TUS else spec.all.FULL)
B={short(k):b for k,b in P.bodies.items()}
tot=0;badt=0
for k,c in list(C.CONTRACTS.items()):
    if args and not any(s in k for s in args): continue
    if onlyprop and c.prop!=onlyprop: continue
    if c.trusted: print('TRUSTED',k,c.trusted); continue
    if k not in B:
        if args or not TUS: print('NO BODY',k)
        continue
    for al in [None]+c.alias:
        prove.DEBUG_CAND=cand; prove.DEBUG_FULL=dump
        try: R=prove.verify(P,c,B[k],alias=al,log=print if not quiet else None,record=False)
        except Exception as e:
            import traceback
            if args and not quiet: traceback.print_exc()
            print(k,'ERR',type(e).__name__,e); badt+=1; continue
        bad=[(o,r) for o,r in R.obls if not r or r.status!='unsat']
        tot+=len(R.obls); badt+=len(bad)
        print(k,'' if al is None else 'alias %s'%al,len(R.obls),'bad',len(bad),'%.1fs'%R.time, 'rounds',R.rounds, 'paths',R.paths)
        if R.unreachable: print('    UNREACHABLE',R.unreachable)
        if R.unvisited: print('    UNVISITED lines',R.unvisited)
        for o,r in bad: print('    FAIL',o.name,o.line,r and (r.status,r.solver,r.out[:200]), show(o.goal)[:400])
        if dump and bad:
            o,r=bad[0]
            for a in o.assume: print('   ',show(a)[:400])
            print('  |-',show(o.goal)[:600])
        if not quiet:
            for l,x in R.loops.items(): print('   loop',l.rsplit('>',1)[1],x)
print('total',tot,'bad',badt)
