#!/bin/bash
# Runs every check with a behaviour-preserving rewrite applied to /repo, and restores /repo. None may alarm.
# Usage: tools/try_refactorings.sh [name...]
cd /verif || exit 9
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
names=("$@"); [ $# -gt 0 ] || names=($(ls tools/refactorings | sed 's/\.diff$//'))
for n in "${names[@]}"; do
  git -C /repo apply "/verif/tools/refactorings/$n.diff" || { echo "$n does not apply"; continue; }
  bad=0
  for p in ${PROPS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
    out=$(timeout 900 bash ./check.sh "$p" quick 2>&1); rc=$?
    [ $rc -eq 0 ] || { bad=1; echo "$n: $p exit $rc"; tail -4 <<<"$out" | cut -c1-300; }
  done
  git -C /repo checkout -q -- .
  [ $bad -eq 0 ] && echo "$n: all quiet"
done
