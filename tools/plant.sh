#!/bin/bash
# Development tool: confirm a planted bug in a scratch copy of /repo that is bind-mounted over /repo in a private
# mount+network namespace.  usage: plant.sh <seeded-id> [nocheck|notest]
# Prints: demo on the unchanged tree, build, stable tests, demo with the patch, and the verdict of the property's check.
ID=$1; MODE=$2; S=/verif/seeded/$ID; [ -d $S ] || S=/verif/seeded-more/$ID
[ -f "$S/patch.diff" ] || { echo "no $S/patch.diff"; exit 2; }
W=/tmp/plant-$ID; rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urmn bash -c '
ip link set lo up 2>/dev/null
W=$1; S=$2; PROP=$3; MODE=$4; ID=$5
mount --bind $W/repo /repo
cd /repo
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "$ID demo-unchanged rc=$?"
git -c safe.directory=/repo apply $S/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
if [ "$MODE" != notest ]; then
 bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1
 python3 - $W/t.json $ID <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); base=set(b["stable"])
t=json.load(open(sys.argv[1])); miss=base-set(t["passed"])
print(sys.argv[2],"tests: %d passed, missing %s"%(len(t["passed"]),sorted(miss)[:5]))
P
fi
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo "$ID demo-patched rc=$?"
' _ "$W" "$S" "$PROP" "$MODE" "$ID"
if [ "$MODE" != nocheck ]; then   # outside the namespace: inside, io_uring counts against the locked-memory limit
 cp -a "${VERIF:-/verif}" $W/verif; cd $W/verif
 VF_PORT_BASE=$((22000 + RANDOM % 20 * 1000)) VF_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $PROP >$W/check.log 2>&1; echo "$ID check $PROP rc=$? $(grep -m2 -A1 "^VIOLATION" $W/check.log|tr "\n" " " | cut -c1-300)"
fi
mkdir -p /tmp/plantlogs/$ID; cp $W/*.log /tmp/plantlogs/$ID/ 2>/dev/null; rm -rf "$W"
