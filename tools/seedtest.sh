#!/bin/bash
# usage: seedtest.sh ID [nocheck|CHECK...]: tries planted bug ID in private copies of /repo and /verif
ID=$1; shift
S=${SEEDDIR:-/verif/seeded}/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $W/repo; mkdir $W/demo $W/verif; cp -a $S/. $W/demo/
rsync -a --exclude=.git --exclude=replays --exclude=seeded /verif/ $W/verif/ 2>/dev/null || cp -a /verif/. $W/verif/
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS="${*:-$PROP}"
export W CHECKS
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "BASE BUILD FAILED"; exit; }
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; r0=$?
git apply $W/demo/patch.diff || { echo "APPLY FAILED"; exit; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "BUILD FAILED"; tail -20 $W/b1.log; exit; }
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
tests=$(python3 -c "import json;d=json.load(open(\"$W/t.json\"));print(len(d[\"passed\"]),\"passed\",len(d[\"failed\"]),\"failed\")" 2>/dev/null || tail -1 $W/t.log)
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; r1=$?
echo "demo base=$r0 patched=$r1; tests: $tests"
[ $r0 = 0 ] || tail -5 $W/d0.log
[ $r1 != 0 ] || tail -5 $W/d1.log
if [ "$CHECKS" != nocheck ]; then for c in $CHECKS; do cd /verif; VERIF_SEED=1 timeout 900 ./check.sh $c quick >$W/c.log 2>&1; echo "check $c: rc=$? $(grep -a VIOLATION $W/c.log | head -1)"; grep -a -m3 "is false\|ERROR\|expected an exc" $W/c.log; done; fi
'
rm -rf "$W"
