#!/bin/bash
# tools/trybug.sh ID [check...]: applies seeded/ID/patch.diff to /repo, builds, runs the
# stable tests, the demo and the given checks, and undoes the change.
ID=$1; shift
S=/verif/seeded/$ID
cd /repo || exit 1
git diff --quiet || { echo "/repo is dirty"; exit 1; }
undo() { git -C /repo checkout -q -- . ; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh > /tmp/trybug.log 2>&1 || { echo "base build failed"; exit 1; }
bash $S/demo.sh > /tmp/trybug.demo0 2>&1; echo "demo on base: $? (want 0)"
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
trap undo EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh > /tmp/trybug.log 2>&1 || { echo "build failed"; tail -5 /tmp/trybug.log; exit 1; }
bash $S/demo.sh > /tmp/trybug.demo1 2>&1; echo "demo with bug: $? (want nonzero)"; tail -3 /tmp/trybug.demo1
fi
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/trybug.json > /tmp/trybug.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/trybug.json'))
st=b.get('stable') or b.get('passed') or b
miss=[x for x in st if x not in t['passed']]
print('stable tests broken:', miss)
P
fi
for c in "$@"; do (cd /verif && python3-vt run.py $c quick | tail -3; echo "check $c rc=$?"); done
