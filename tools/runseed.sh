#!/bin/bash
# runseed.sh <seed> [tier]: applies a planted bug to /repo, runs the property's check, undoes it.
n="$1"; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$n/patch.diff || exit 1
cd /verif && timeout 900 ./check ${3:-$p} ${2:-quick} > /tmp/runseed.$n.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$n $p rc=$rc $(grep -c VIOLATION /tmp/runseed.$n.log) violations; $(grep -m1 '   op=' /tmp/runseed.$n.log | cut -c1-120)"
