import sys, time, traceback
sys.path.insert(0,'/verif')
from pfv import world, core, spec, ops
from pfv.world import *
spec.DEBUG=True
L=Loader(os.environ.get('REPO','/repo'),'/tmp/pfvir')
c=sys.argv[1]
W=World(L,c)
sel=sys.argv[2:]
for op,l in spec.SPEC.items():
    if sel and op not in sel: continue
    for f,p,ret,only,grp in l:
        if only and not only(W.ci): continue
        tabs=W.ops[c] if op in W.ops[c] and not op.startswith('it_') else W.ops[c+'Iter']
        e=tabs.get(op[3:] if op.startswith('it_') else op)
        if not e: print('no',op); continue
        r=spec.run_scenario(W,c,op,e,f,p,ret)
        if r is None: continue
        bad=[o for o in r.obl if o.status!='proved']
        print('%-16s %-34s %-11s obl %d bad %d out %d succ %d loops %d q %d %.1fs %s'%(op,r.label,r.status,len(r.obl),len(bad),r.outcomes,r.success,r.loops,r.queries,r.time,r.why))
        seen=set()
        for o in bad:
            k=(o.kind,o.where,o.msg[:150])
            if k in seen: continue
            seen.add(k)
            print('      ',o.kind,o.status,o.where,o.msg[:int(os.environ.get("W","300"))])
