"""prints the seeded-bug table of DESIGN.md; arguments: results 'id rc how' gathered by catch.sh (in /tmp/catch.ID)"""
import glob, json, os, re
for d in sorted(glob.glob('/verif/seeded/*/')):
    i = d.split('/')[-2]
    m = json.load(open(d + 'meta.json'))
    f = '/tmp/catch.' + i
    t = open(f, errors='replace').read() if os.path.exists(f) else ''
    v = re.findall(r'^VIOLATION property=(\S+) \S+( no-failing-input-found)?', t, re.M)
    how = 'missed' if not v and t else '?' if not t else 'failing input' if any(not x[1] for x in v) else 'obligation only'
    print('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], how))
