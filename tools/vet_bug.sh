#!/bin/bash
# vet_bug.sh ID...: confirm that each planted bug applies, builds, passes the stable tests, and that its demo
# tells it from the unchanged tree; then run the check of its property against it. Leaves /repo unchanged.
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 2; }
  bash /opt/vp/build.sh >/tmp/vet.log 2>&1 || { echo "$id base build failed"; continue; }
  (cd /repo && timeout 300 bash /verif/$d/demo.sh >/tmp/vet.demo0 2>&1); r0=$?
  git -C /repo apply /verif/$d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/vet.log 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/vet.json >>/tmp/vet.log 2>&1
  t=$(python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/vet.json'))['passed'])
print(len(s-p))")
  (cd /repo && timeout 300 bash /verif/$d/demo.sh >/tmp/vet.demo1 2>&1); r1=$?
  NEO_BUILD=/tmp/vetbuild timeout 900 python3 bin/check.py $prop >/tmp/vet.check.$id 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id prop=$prop demo(clean)=$r0 build=$rb stable-failing=$t demo(bug)=$r1 check=$rc $(grep -h '^violated\|CHECK-ERROR' /tmp/vet.check.$id | head -1 | cut -c1-220)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
