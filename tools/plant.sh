#!/bin/bash
# plant.sh ID [PROP...]: in a private copy of /repo and /verif (bind-mounted in a user namespace), applies seeded/ID/patch.diff,
# builds, runs the stable tests, the demo with and without the patch, and the given checks (default: the property in meta.json).
id=$1; shift
W=/tmp/plant/$id; rm -rf /tmp/plant/$id; mkdir -p $W
cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/. $W/verif/ ; rm -rf $W/verif/build/run $W/verif/build/replay
cp -a /verif/seeded/$id $W/demo
props="$@"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
[ "$props" = none ] && props=
export id props W
unshare -Urm bash -c '
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "BASE BUILD FAILED"; exit 9; }
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; echo "$id demo clean rc=$?"
git apply $W/demo/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 9; }
bash /opt/vp/test.sh $W/t.json >$W/b1.log 2>&1 || echo "TEST RUN FAILED"
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W/t.json"))
k=b["stable"]
m=[x for x in k if x not in t["passed"]]
print("$id tests missing:", m[:5], len(t["passed"]))
P
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo "$id demo patched rc=$?"
cd /verif
for p in $props; do VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p quick >$W/c.$p.log 2>&1; rc=$?; echo "$id check $p rc=$rc $(grep -c ^VIOLATION $W/c.$p.log) $(grep -m1 refuses $W/c.$p.log | cut -c1-160)"; done
'
[ -n "$KEEP" ] || rm -rf $W/repo $W/verif
