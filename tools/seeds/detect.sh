#!/bin/bash
# Runs the check of its property against each planted bug (all of them or those named).
# usage: detect.sh [ID...]; prints "caught"/"MISSED" per bug. /repo is restored after each.
cd "$(dirname "$0")/../.." || exit 2
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "NOAPPLY $id"; continue; }
  t=$SECONDS
  out=$(timeout 900 ./check.sh ${PROP:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=${PROP:-$p} " <<<"$out")
  if [ $rc = 1 ] && [ $v -gt 0 ]; then s=caught; else s="MISSED rc=$rc"; fi
  echo "$s $id ${PROP:-$p} $((SECONDS-t))s $(grep -m1 '^VIOLATION' <<<"$out" | cut -c1-120)"
done
