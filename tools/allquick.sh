#!/bin/bash
# every claimed check, quick, one line each
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c 'import sys;sys.path.insert(0,"lib");import plans;print(" ".join(sorted(plans.PLANS)))')}; do
  timeout 900 ./check $p quick > /tmp/aq.$p 2>&1; echo "rc=$? $(grep -v KNOWN /tmp/aq.$p | tail -1 | cut -c1-160)"
done
