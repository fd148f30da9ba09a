cd /verif; for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C13 C14 C15 C16}; do s=$(date +%s); timeout 900 bin/check $p --tier quick > /tmp/all.$p 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(tail -1 /tmp/all.$p | cut -c1-200) $(grep -ac VIOLATION /tmp/all.$p)"; done
