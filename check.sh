#!/bin/bash
# usage: check.sh ID        (VERIF_SEED, VERIF_TIER from the environment)
# Builds the monitor of one property against /repo's working tree and runs it.
# exit 0 held / 1 VIOLATION / 2 inconclusive
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./lib.sh
ID=${1:?id}
mkdir -p evidence/replay
rm -f "evidence/$ID.json"
find "$VH_ROOT/evidence/replay" -maxdepth 1 -name "$ID-*" -delete 2>/dev/null
[ -f "stages/$ID.sh" ] && { . "stages/$ID.sh"; exit $?; }
vh_build "$ID" || { echo "INCONCLUSIVE: build failed"; exit 2; }
vh_run "$ID"
