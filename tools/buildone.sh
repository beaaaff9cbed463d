#!/bin/bash
# developer helper: buildone.sh ID -> /tmp/h.ID/bin1
. /verif/env.sh; export VERIF_ROOT=${VERIF_ROOT:-/verif} REPO=${VERIF_REPO:-/repo}
W=/tmp/h.$1; rm -rf $W; mkdir -p $W; python3 $VERIF_ROOT/tools/build.py $1 $W
