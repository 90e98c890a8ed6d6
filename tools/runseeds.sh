#!/bin/bash
# runseeds.sh [ids...]: applies each seeded bug to a copy of /repo and runs its property's check.
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  m=/tmp/runseeds.m
  rm -rf /tmp/runseeds.m; git clone -q /repo $m
  git -C $m apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$SECONDS
  VERIF_REPO=$m ./check.sh $p > /tmp/runseeds.out 2>&1; rc=$?
  echo "$id $p rc=$rc $((SECONDS-t))s $(grep -m1 counterexample /tmp/runseeds.out | cut -c1-150)"
done
rm -rf /tmp/runseeds.m /tmp/runseeds.out
