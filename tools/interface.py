"""the operations each type offers -> pfv/interface.json (regenerate only when the interface of /repo is meant to change)"""
import sys, os, json, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pfv import world
d = tempfile.mkdtemp()
out = {}
L = world.Loader(os.environ.get('PFV_REPO', '/repo'), d)
for c in sorted(world.CLASSES):
    w = world.World(L, c)
    for t in (c, c + 'Iter'):
        out[t] = sorted(w.ops[t])
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pfv', 'interface.json'), 'w'), indent=0, sort_keys=True)
print({k: len(v) for k, v in out.items()})
