#!/bin/bash
# check.sh <ID>                 run the check of one property (tier: VERIF_TIER)
# check.sh <ID> replay <file>   run one saved case again
cd "$(dirname "$0")" || exit 2
id=$1
flavor=$(cat src/$id.flavor 2>/dev/null || echo opt)
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
mkdir -p build replays evidence
jobs=$(nproc)
exec 9>build/.lock; flock 9
if ! make -s -f build.mk -j"$jobs" FLAVOR=$flavor build/$flavor/$id >build/$id.log 2>&1; then
  tail -40 build/$id.log
  echo "check $id: build failed"
  exit 2
fi
flock -u 9; exec 9>&-
if [ "$2" = replay ]; then
  exec build/$flavor/$id --replay "$3" --known known_findings.txt
fi
shift
exec build/$flavor/$id --evidence evidence/$id.json --replay-dir replays \
  --known known_findings.txt "$@"
