#!/bin/bash
# Runs the check of each planted bug's property with the bug applied to /repo, and restores /repo.
# Usage: tools/try_seeds.sh [id...]
cd /verif || exit 9
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  t=$SECONDS
  out=$(timeout 900 bash ./check.sh "${PROP:-$p}" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=${PROP:-$p} " <<<"$out"; then v=caught; else v="MISSED rc=$rc"; fi
  echo "$id ${PROP:-$p} $v $((SECONDS-t))s"
done
