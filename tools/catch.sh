#!/bin/bash
# catch.sh <seed>... : applies each planted bug to /repo, runs its property's check (or $CHECKS),
# undoes it, and records the result in tools/caught.txt.
cd /verif
for s in "$@"; do
    [ -f seeded/$s/meta.json ] || continue
    p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
    git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
    for c in ${CHECKS:-$p}; do
        t0=$SECONDS
        VERIF_EVIDENCE=/tmp/catch-evidence ./check $c > /tmp/catch.log 2>&1
        rc=$?
        echo "$s $p check=$c rc=$rc $((SECONDS-t0))s $(grep -m1 VIOLATION /tmp/catch.log | cut -c1-160)"
        grep -v "^$s $c " tools/caught.txt 2>/dev/null > /tmp/caught.new
        echo "$s $c $rc" >> /tmp/caught.new
        sort /tmp/caught.new > tools/caught.txt
    done
    git -C /repo checkout -q -- .
done
