cd /verif; VERIF_REPO=/tmp/wt VERIF_BUILD=/tmp/vb timeout 800 python3-vt tools/vcdbg.py "$@" 2>&1
