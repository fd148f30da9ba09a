#!/bin/bash
# seedcheck.sh ID... : apply, build+test, demo, in /repo (restores after)
for id in "$@"; do
 d=/verif/seeded/$id
 git -C /repo apply $d/patch.diff || { echo "$id NOAPPLY"; continue; }
 bash /opt/vp/test.sh /tmp/seedw/$id.json >/tmp/seedw/$id.log 2>&1
 python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('passed') or b.get('stable') or b
r=json.load(open(f'/tmp/seedw/{sys.argv[1]}.json'))
miss=[t for t in st if t not in set(r['passed'])]
print(sys.argv[1],'stable missing:',len(miss),miss[:3])
P
 bash $d/demo.sh >/tmp/seedw/$id.demo 2>&1; echo "$id demo rc with patch: $?"; tail -2 /tmp/seedw/$id.demo
 git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do bash /verif/seeded/$id/demo.sh >/tmp/seedw/$id.demo0 2>&1; echo "$id demo rc clean: $?"; done
