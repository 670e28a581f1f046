#!/bin/bash
# runseeds.sh [ID...]: run the check of each planted bug against it, in the scratch copy /tmp/sr.
# Evidence goes to a scratch directory.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /tmp/sr checkout -q -- . && git -C /tmp/sr apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  REPO=/tmp/sr VERIF_BUILD=/tmp/vbuild VERIF_EVIDENCE=/tmp/vev python3 check.py $p quick > /tmp/rs_$id.log 2>&1; rc=$?
  echo "$id: exit $rc $(grep -h -E 'VIOLATION' /tmp/rs_$id.log | sed 's/replay=.*json//') | $(grep -c 'failed obligation' /tmp/rs_$id.log) failed obligations $(grep -h 'UNDECIDED' /tmp/rs_$id.log | cut -c1-160) | $(grep -h 'input:' /tmp/rs_$id.log | cut -c1-100)"
  git -C /tmp/sr checkout -q -- .
done
