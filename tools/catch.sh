#!/bin/bash
# catch.sh [id…]: plants each bug in /repo, runs its property's quick check, undoes it. Development only.
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); ./check.sh $p quick >/tmp/catch.$id.log 2>&1; r=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$r $((e-s))s $(grep -m1 VIOLATION /tmp/catch.$id.log | cut -c1-120)"
done
