#!/bin/bash
# seedcatch.sh [ID...]: runs the analyser (UC, default /tmp/uc) on /repo with each planted change applied.
UC=${UC:-/tmp/uc}; export VERIF_DIR=/tmp/v; mkdir -p /tmp/v/evidence; cp /verif/known_findings.txt /tmp/v/
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  out=$($UC $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-200)"
done
