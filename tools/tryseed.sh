#!/bin/bash
# tools/tryseed.sh NAME...: run the property's quick check against each planted bug (in a scratch copy of /repo)
for n in "$@"; do
  d=/verif/seeded/$n; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d); git clone -q /repo $w/repo; git -C $w/repo apply $d/patch.diff
  VP_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} python3 /verif/checks/run.py $p --tier quick > $w/out 2>&1; rc=$?
  echo "$n $p rc=$rc $(grep -c VIOLATION $w/out) | $(grep -o 'violated: .\{0,110\}' $w/out | head -1)$(grep -o 'check error.*' $w/out|head -1)"
  tail -1 $w/out | cut -c1-160
  rm -rf "$w"
done
