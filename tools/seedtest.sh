#!/bin/bash
# seedtest.sh ID...: runs the check of each planted bug's property against a scratch copy of /repo with the bug applied
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    W=$(mktemp -d /tmp/seedtest.XXXXXX)
    rsync -a --exclude _build --exclude hilapp/build /repo/ $W/
    git -C $W apply /verif/seeded/$id/patch.diff
    if grep -q '^+++ b/hilapp' /verif/seeded/$id/patch.diff; then make -j8 -C $W/hilapp > $W/hil.log 2>&1; fi
    s=$(date +%s)
    HV_REPO=$W /verif/bin/check $p > $W/out 2>&1; rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION $W/out)"
    [ $rc = 1 ] || tail -3 $W/out
    find $W -depth -delete
done
