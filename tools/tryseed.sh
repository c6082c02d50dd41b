#!/bin/bash
# tryseed.sh <id>...: applies each planted bug to /repo, builds, runs the tests, the demo and its check, and undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  st=$(bash tools/stable.sh 2>&1 | tail -1)
  (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1); dm=$?
  ./check $p >/tmp/seedcheck.out 2>&1; rc=$?
  v=$(grep -a "^VIOLATION property=$p" /tmp/seedcheck.out | head -1)
  git -C /repo checkout -q -- .
  echo "$id: [$st] demo(bug)=$dm check=$rc $v"
done
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1); echo "$id: demo(clean)=$?"; done
