#!/bin/bash
# seed_try.sh <seeded dir name>...: confirms planted bugs in a private copy of
# /repo (bind-mounted over /repo in a user namespace) and runs the property's check.
# Usage: seed_try.sh [-n] id...   (-n: skip the stable tests)
skip=0; [ "$1" = -n ] && { skip=1; shift; }
for id in "$@"; do
W=$(mktemp -d /tmp/seedw.XXXXXX)
cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"; mkdir "$W/build"
SKIP=$skip ID=$id W=$W unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp
D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
cp -r $D $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "$ID: base build failed"; exit; }
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit; }
if [ $SKIP = 0 ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
t=$(python3 -c "
import json;b=json.load(open(\"/opt/vp/BASELINE.json\"));r=json.load(open(\"$W/t.json\"))
b=b if isinstance(b,list) else b.get(\"passed\",b.get(\"tests\",b.get(\"stable\",[])))
m=[x for x in b if x not in set(r[\"passed\"])];print(len(r[\"passed\"]),\"missing\",len(m),m[:4])")
else bash /opt/vp/build.sh >$W/b1.log 2>&1; t="skipped rc=$?"; fi
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; b=$?
cd /verif
VERIF_BUILD=$W/build VERIF_SEED=1 VERIF_TIER=quick python3 check.py $P --evidence-dir $W >$W/c.log 2>&1; c=$?
echo "$ID: demo base=$a patched=$b tests: $t check $P rc=$c $(grep -m1 VIOLATION $W/c.log) $(grep -m1 total $W/c.log)"
[ $a = 0 ] || tail -5 $W/d0.log; [ $b != 0 ] || tail -5 $W/d1.log; [ $c = 1 ] && grep -A4 -m1 VIOLATION $W/c.log | cut -c1-400 | tail -4; [ $c = 0 -o $c = 1 ] || tail -15 $W/c.log
'
rm -rf "$W"
done
