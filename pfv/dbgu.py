import sys, os
sys.path.insert(0,'/verif')
from pfv import world, core, spec, ops, units, raw, unsafe, simdmod
spec.DEBUG=True
L=world.Loader(os.environ.get('REPO','/repo'),'/tmp/pfvir')
import re
for u in units.UNITS:
    if len(sys.argv)>1 and not re.search(sys.argv[1], u.name+' '+u.src): continue
    if not u.rx: continue
    m=L.mod(u.src)
    for fn in units.instances(m,u):
        if len(sys.argv)>2 and not re.search(sys.argv[2], core.demangle(fn)): continue
        r=units.run_unit(L,u,fn)
        bad=[o for o in r.obl if o.status!='proved']
        print('%-20s %-60s %-8s obl %d bad %d loops %d q %d %.1fs %s'%(u.src,r.label[:60],r.status,len(r.obl),len(bad),r.loops,r.queries,r.time,r.why[:300]))
        seen=set()
        for o in bad:
            k=(o.kind,o.where,o.msg[:150])
            if k in seen: continue
            seen.add(k)
            print('      ',o.kind,o.status,o.where,o.msg[:int(os.environ.get("W","300"))])
