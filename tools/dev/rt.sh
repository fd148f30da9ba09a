#!/bin/bash
# rt.sh SETS PROPS...  -- run checks on a scratch copy with behaviour-preserving rewrites (looking for false alarms)
R=/tmp/mt/repo; cd $R && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
python3 /verif/tools/dev/refac.py $R $1 || exit 3; shift
cd /verif
for p in "$@"; do PFV_REPO=$R bin/check $p --tier quick > /tmp/rt.$p 2>&1; echo "$p rc=$? $(grep -a VIOLATION /tmp/rt.$p | head -3 | cut -c1-200)"; grep -aE "bounded|degraded|unsupported" /tmp/rt.$p | head -12 | cut -c1-220; done
