#!/bin/bash
# plant.sh <id> [nocheck]: confirms a planted bug against /repo (build, stable tests, demo both ways, the property's check)
ID=$1; D=/verif/seeded/$ID
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cp -r $D /tmp/demo_$ID; rm -f /tmp/demo_$ID/patch.diff /tmp/demo_$ID/meta.json
git -C /repo apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1 || { echo "$ID: BUILD FAILED"; tail -5 /tmp/plant_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/plant_o.json >/dev/null 2>&1
python3 - <<P
import json; d=json.load(open('/tmp/plant_o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('passed') or b.get('stable') or b.get('tests'); bad=[t for t in st if t not in d['passed']]
print("$ID: tests passed %d, broken stable: %s" % (len(d['passed']), bad))
P
(cd /repo; timeout 300 bash /tmp/demo_$ID/demo.sh >/tmp/plant_demo.log 2>&1; echo "$ID: demo with patch: $? (want nonzero) $(tail -1 /tmp/plant_demo.log)")
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" != nocheck ]; then (cd /verif; python3 run.py $P quick 2>/dev/null | tail -3; echo "$ID: check $P exit ${PIPESTATUS[0]}"); fi
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash /tmp/demo_$ID/demo.sh >/tmp/plant_demo.log 2>&1; echo "$ID: demo without patch: $? (want 0)")
rm -rf /tmp/demo_$ID
