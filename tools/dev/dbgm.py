import sys, os, re
sys.path.insert(0,'/verif')
from pfv import spec, ops, units, raw, unsafe, check
try:
    from pfv import simdmod
except ImportError: pass
from pfv.world import Loader
spec.DEBUG=True
cn=sys.argv[1]; rx=re.compile(sys.argv[2] if len(sys.argv)>2 else '.')
L=Loader(os.environ.get('REPO','/repo'),os.environ.get('W','/tmp/pfvir2'))
import time
for u in units.UNITS:
    if isinstance(u, raw.MUnit) and u.cn==cn and rx.match(u.method):
        r=raw.run_method(L,u)
        bad=[o for o in r.obl if o.status!='proved']
        print(u.method,u.label,r.status,r.why[:300],'%d/%d'%(len(r.obl)-len(bad),len(r.obl)),'succ',r.success,'%.1f'%r.time)
        for o in bad: print('     ',o.status,o.kind,o.where,o.msg[:200],o.detail[-300:])
