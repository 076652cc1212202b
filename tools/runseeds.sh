#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
ids=${*:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 ./check.sh $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then v=CAUGHT; else v="MISSED rc=$rc"; fi
  echo "$id $p $v $((e-s))s"
done
