#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the checker and the command line tool from /repo and runs one check.
# Exit 0: held on everything explored. Exit 1: VIOLATION printed. Anything else: the check could not run.
cd "$(dirname "$0")" || exit 2
prop="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
source ./env.sh
bash ./build.sh >target/build.log 2>&1 || { tail -n 40 target/build.log >&2; echo "build failed" >&2; exit 3; }
exec "$MC_ROOT/target/debug/mc" check "$prop" "$tier"
