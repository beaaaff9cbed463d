#!/bin/bash
# usage: run.sh ID [quick|thorough]   (the tier may also come from VERIF_TIER)
# Builds the harness of property ID against the current /repo working tree and runs it.
ID=${1:?property id}
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
export REPO=${VERIF_REPO:-/repo}
export VERIF_T0=$(date +%s.%N)
. "$VERIF_ROOT/env.sh"
WORK=$(mktemp -d /tmp/verif.$ID.XXXXXX) || exit 3
export VERIF_WORK=$WORK
trap 'rm -rf "$WORK" "/dev/shm/$(basename "$WORK")"' EXIT
exec 3>&1
python3 "$VERIF_ROOT/tools/build.py" "$ID" "$WORK" || { echo "CHECK-ERROR: build of $ID failed"; exit 3; }
bash "$WORK/run"
exit $?
