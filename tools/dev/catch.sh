#!/bin/bash
# catch.sh ID [PROP]  -- run a property's check on a scratch copy with the planted bug
R=/tmp/mt/repo; [ -d $R ] || { mkdir -p /tmp/mt; cp -a /repo $R; }
cd $R && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
for id in "$@"; do
git checkout -q -- .; git apply /verif/seeded/$id/patch.diff || exit 3
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /verif; PFV_REPO=$R bin/check $p --tier quick > /tmp/catch.$id 2>&1; echo "$id $p rc=$? $(grep -a VIOLATION /tmp/catch.$id | head -2 | cut -c1-160 | tr '\n' ' ')"
cd $R
done
git checkout -q -- .
