#!/bin/bash
# developer helper: sweep.sh ID BOUND : first finding of every scenario of a built schedule check
B=$1; /tmp/h.$B/bin1 -list | sed 's/ [0-9]* [0-9]*$//' | xargs -P 8 -d '\n' -I{} bash -c 'out=$(VERIF_ROOT=/tmp/swp VERIF_SCEN="$1" VERIF_BOUND='$2' timeout 120 /tmp/h.'$B'/bin1 2>&1); w=$(echo "$out" | grep  "  what:" | cut -c1-230 | sort | uniq -c | sort -rn | head -2 | tr "\n" ";"); echo "$1 | ${w:-ok}"' _ {}
