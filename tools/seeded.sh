#!/bin/bash
# tools/seeded.sh [ID...]: runs the quick check of each planted bug's property
# against a copy of /repo with the bug; prints which are caught
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seed.XXXX)
  cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
  if ! git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff"; then echo "$id $p DOES NOT APPLY"; rm -rf "$w"; continue; fi
  s=$(date +%s)
  VERIF_REPO="$w/repo" VERIF_TIER=quick VERIF_SEED=1 timeout 900 ./run.sh "$p" > "/tmp/seed.$id.log" 2>&1; rc=$?
  e=$(date +%s)
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "/tmp/seed.$id.log"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $((e-s))s"
  rm -rf "$w"
done
