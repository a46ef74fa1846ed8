#!/bin/bash
# tryseed.sh ID...: apply a planted change to /repo, run its property's check, undo it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  (bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id does not build"; cd /verif; bash check.sh $p 2>/dev/null | grep -v "^KNOWN" | cut -c1-220 | tail -${N:-6}; echo "$id: exit ${PIPESTATUS[0]}")
  git -C /repo checkout -q -- .
done
