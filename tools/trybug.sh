#!/bin/bash
# tools/trybug.sh ID [notest]  -- confirm a planted bug in a private mount namespace:
# the demo passes on the unchanged tree, the patch applies, builds, keeps the stable tests, the demo
# then fails; finally the check of its property is run on the patched tree.
ID=$1; MODE=$2
B=/verif/seeded/$ID
W=/tmp/trybug-$ID
if [ -z "$INNER" ]; then
  mkdir -p $W; rsync -a --delete /repo/ $W/repo/ 2>/dev/null || { rm -rf $W/repo; cp -a /repo $W/repo; }
  INNER=1 unshare -Urm bash -c "mount --bind $W/repo /repo && bash $0 $ID $MODE"
  rm -rf /tmp/trybug-$ID
  exit
fi
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
mkdir -p $W/demo; cp -r $B/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cd /repo
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$ID: base build failed"; tail -5 $W/build.log; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1; r0=$?
git apply $B/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ "$MODE" != notest ]; then
  bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
  python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('$W/t.json'))
print('$ID: stable tests lost:', sorted(b-set(t['passed'])))
P
else
  bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$ID: patched build failed"; tail -5 $W/build.log; exit 1; }
fi
timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1; r1=$?
echo "$ID: demo unchanged rc=$r0, patched rc=$r1"
[ $r0 = 0 ] || tail -5 $W/d0.log
tail -3 $W/d1.log
cd /verif
if [ "$MODE" != nocheck ]; then
TCSIM_OUT=$W/out TCSIM_EVIDENCE=$W/ev VERIF_SEED=1 timeout 900 python3 run.py --property $P --tier quick > $W/check.log 2>&1; rc=$?
echo "$ID: check $P rc=$rc: $(grep -m1 VIOLATION $W/check.log)"
grep -A4 -m1 VIOLATION $W/check.log | cut -c1-300
tail -2 $W/check.log | cut -c1-300
fi
