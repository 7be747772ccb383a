cd /verif; for p in "$@"; do timeout 900 python3 tools/check.py $p 2>&1 | tail -3; echo "$p rc=$?"; done
