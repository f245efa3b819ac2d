#!/bin/bash
# usage: tools/try_seeds.sh [id-prefix...]   applies each planted bug to /repo, runs the check of its property, restores /repo
cd /verif
for p in "${@:-}"; do for d in seeded/$p*/; do
  id=$(basename $d); prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo dirty"; exit 2; }
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); ./check $prop > /tmp/seed.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s violations=$(grep -c ^VIOLATION /tmp/seed.$id.log) confirmed=$(grep ^VIOLATION /tmp/seed.$id.log | grep -vc no-failing)"
done; done
