#!/bin/bash
# plant.sh ID [check]: confirm the planted bug seeded/ID: applies, builds, passes the stable tests, demo 0 clean / nonzero
# patched, and (with "check") run its property's quick check against it. /repo is restored whatever happens.
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/plant.XXXX); trap 'git -C /repo checkout -q -- .; rm -rf $D' EXIT
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
cp $S/demo* $D/
( cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 300 bash $D/demo.sh >$D/clean.log 2>&1 ); C=$?
[ $C = 0 ] || { echo "$ID: demo fails on clean tree ($C)"; tail -20 $D/clean.log; exit 1; }
git -C /repo apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ "$2" != nocheck ]; then
 bash /opt/vp/test.sh $D/out.json >$D/test.log 2>&1
 python3 - $D/out.json <<'PY' || { echo "$ID: tests fail"; tail -5 $D/test.log; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
base=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
miss=base-set(o['passed'])
if not base or miss: print(list(b.keys()), list(miss)[:5]); sys.exit(1)
PY
else bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$ID: does not build"; exit 1; }
fi
( cd /repo && timeout 300 bash $D/demo.sh >$D/bad.log 2>&1 ); B=$?
[ $B != 0 ] || { echo "$ID: demo passes with the patch"; exit 1; }
echo "$ID: valid (demo exit $B: $(tail -1 $D/bad.log | cut -c1-150))"
if [ "$2" = check ]; then
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/run.py check $P quick > $D/check.log 2>&1; R=$?
 echo "$ID: check $P exit $R: $(grep -m1 VIOLATION $D/check.log)"; [ $R = 1 ] || tail -5 $D/check.log
fi
git -C /repo checkout -q -- . ; (bash /opt/vp/build.sh >/dev/null 2>&1)
