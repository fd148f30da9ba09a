cd /verif; W=${W:-700} timeout 900 python3-vt pfv/dbg.py "$@" 2>&1 | cut -c1-${CW:-400} | grep -v "ok  .*bad 0 " | grep -v "^Traceback\|^  File\|^    \w\|^ *\^*$" | head -${HL:-60}
