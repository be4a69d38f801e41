#!/bin/bash
# plant.sh ID [check]: validates a planted bug in a scratch copy of /repo bind-mounted over /repo in a private mount namespace:
# demo passes unpatched, patch builds, stable tests pass, demo fails patched; then runs the property's check (must report).
ID=$1; W=${PLANT:-/tmp/plant}; V=/verif; D=$V/seeded/$ID
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo fetch -q /repo HEAD && git -C $W/repo checkout -q -- . && git -C $W/repo reset -q --hard FETCH_HEAD
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -m bash -c '
W='$W'; V='$V'; D='$D'; ID='$ID'; PROP='$PROP'; NOTEST='"${NOTEST:-0}"'; ONLY='"${ONLY:-}"'
mount --bind $W/repo /repo || exit 9
cp -r $D $W/demo-$ID
cd /repo
if [ -z "$ONLY" ]; then
bash /opt/vp/build.sh > $W/$ID.build0 2>&1 || { echo "$ID: BASE BUILD FAILED"; tail -5 $W/$ID.build0; exit 1; }
timeout 300 bash $W/demo-$ID/demo.sh > $W/$ID.demo0 2>&1 || { echo "$ID: DEMO FAILS ON BASE"; tail -15 $W/$ID.demo0; exit 1; }
fi
git apply $D/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$ONLY" ]; then
bash /opt/vp/build.sh > $W/$ID.build1 2>&1 || { echo "$ID: PATCHED BUILD FAILED"; tail -5 $W/$ID.build1; exit 1; }
timeout 300 bash $W/demo-$ID/demo.sh > $W/$ID.demo1 2>&1; r=$?
[ $r = 0 ] && { echo "$ID: DEMO PASSES WITH PATCH"; tail -5 $W/$ID.demo1; exit 1; }
echo "$ID: demo rc with patch $r: $(tail -1 $W/$ID.demo1)"
if [ $NOTEST = 0 ]; then
bash /opt/vp/test.sh $W/$ID.json > $W/$ID.test 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r=json.load(open("$W/$ID.json"))
miss=[t for t in b if t not in r["passed"]]
print("$ID: tests", "ok" if not miss else "BROKEN %s"%miss)
P
fi
fi
[ "$ONLY" = demo ] && exit 0
cd $V; VERIF_BUILD=$W/build timeout 900 python3 mc/run.py $PROP --tier quick > $W/$ID.check 2>&1; rc=$?
echo "$ID: check $PROP rc=$rc $(grep -m1 -A0 "key=" $W/$ID.check | head -c 300)"
'
git -C $W/repo checkout -q -- .
rm -rf $W/demo-$ID
