#!/bin/bash
# seedtest.sh [--notest] [--check] ID...: in a private mount namespace with a scratch copy of /repo bound at /repo,
# confirm a planted bug: demo passes before, patch applies, builds, stable tests pass, demo fails after; with --check run the property's check.
if [ -z "$SEED_NS" ]; then
  export SEED_NS=1; W=$(mktemp -d /tmp/seed.XXXXXX); export W
  unshare -m bash "$0" "$@"; rc=$?
  rm -rf "$W"; exit $rc
fi
NOTEST=; CHECK=; ONLYCHECK=
while [[ "$1" == --* ]]; do case $1 in --notest) NOTEST=1;; --check) CHECK=1;; --onlycheck) ONLYCHECK=1; CHECK=1; NOTEST=1;; esac; shift; done
cp -a /repo $W/repo; [ -z "$SEEDPULL" ] || git -C $W/repo pull -q $SEEDPULL; mount --make-rprivate / ; 
mkdir -p $W/verif; cp -a /verif/. $W/verif/
S=/verif/seeded; cp -a $S $W/seeded
mount --bind $W/repo /repo
mount --bind $W/verif /verif
for ID in "$@"; do
  D=$W/demo; rm -rf $D; cp -a $W/seeded/$ID $D; rm -f $D/*.diff $D/meta.json
  P=$(python3 -c "import json;print(json.load(open('$W/seeded/$ID/meta.json'))['property'])")
  cd /repo; git checkout -q -- .; 
  if [ -z "$ONLYCHECK" ]; then
  bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$ID: base build failed"; tail -5 $W/build.log; continue; }
  ( cd /repo; timeout 300 bash $D/demo.sh >$W/demo0.log 2>&1 ); r0=$?
  fi
  git apply $W/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; continue; }
  if [ -z "$ONLYCHECK" ]; then
  bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$ID: patched build failed"; tail -15 $W/build.log; git checkout -q -- .; continue; }
  ( cd /repo; timeout 300 bash $D/demo.sh >$W/demo1.log 2>&1 ); r1=$?
  T=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
    T=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
s=b.get('stable') or b.get('passed') or b
miss=[t for t in s if t not in set(o['passed'])]
print('tests ok' if not miss else 'TESTS BROKEN %d %s'%(len(miss),miss[:3]))
P
)
  fi
  echo "$ID: demo base=$r0 patched=$r1; $T"
  [ $r0 = 0 ] || tail -5 $W/demo0.log; [ $r1 != 0 ] || tail -5 $W/demo1.log
  fi
  if [ -n "$CHECK" ]; then
    cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $P > $W/check.log 2>&1; echo "$ID: check $P rc=$?"; grep -v '^  ' $W/check.log | tail -8
  fi
  cd /repo; git checkout -q -- .
done
