#!/bin/bash
# developer helper: mkseed.sh NAME PROPERTY: turns the uncommitted diff of /tmp/seedwt into /verif/seeded/NAME/patch.diff,
# then confirms: builds, demo passes without and fails with the patch (stable tests: mkseed.sh NAME PROPERTY full).
. /verif/env.sh
N=$1; D=/verif/seeded/$N; mkdir -p $D
git -C /tmp/seedwt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cd /tmp/seedwt && go build ./... || exit 1
rm -rf /tmp/seeddemo.$N; mkdir -p /tmp/seeddemo.$N; cp $D/* /tmp/seeddemo.$N/; rm -f /tmp/seeddemo.$N/patch.diff /tmp/seeddemo.$N/meta.json
cd /tmp/fixwt && timeout 300 bash /tmp/seeddemo.$N/demo.sh > /tmp/sd/$N.ok 2>&1; a=$?
cd /tmp/fixwt && git apply $D/patch.diff && { timeout 300 bash /tmp/seeddemo.$N/demo.sh > /tmp/sd/$N.bad 2>&1; b=$?; git checkout -- .; }
rm -rf /tmp/seeddemo.$N
echo "$N demo unchanged=$a patched=$b"
git -C /tmp/seedwt checkout -q -- .
