#!/bin/bash
# tools/trybug.sh ID...  : apply each seeded patch to /repo, run its property's check, undo
cd /verif
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  O=$(bash check.sh $P 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $P rc=$rc $(echo "$O" | grep VIOLATION | sed 's/.*replay=[^ ]*//') $(echo "$O" | grep -m1 'failing input\|failed obl' | cut -c1-200)"
done
