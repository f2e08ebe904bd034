#!/bin/bash
# catch.sh ID...: run the quick check of each planted bug's property against it (in /repo, undone afterwards).
# CHECKS="C01 C02" overrides which checks run.
cd /verif || exit 2
for id in "$@"; do
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    for c in ${CHECKS:-$prop}; do
        t0=$SECONDS
        VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${TIER:-quick} bash check.sh $c >/tmp/catch.$id.$c.out 2>&1
        rc=$?
        echo "$id $c exit $rc $((SECONDS-t0))s $(grep -c VIOLATION /tmp/catch.$id.$c.out) $(grep -A1 VIOLATION /tmp/catch.$id.$c.out | tail -1 | cut -c1-200)"
    done
    git -C /repo checkout -q -- .
done
