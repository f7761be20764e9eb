#!/bin/bash
# Run every registered check; one line each, with the undecided items.
cd "$(dirname "$0")/.."
for c in $(python3 -c "import sys; sys.path.insert(0,'engine'); from registry import CHECKS; print(*sorted(CHECKS))"); do
  s=$(date +%s)
  python3 engine/check.py $c ${1:-quick} 2>&1 | cut -c1-${2:-300} | head -8
  echo "    $(( $(date +%s) - s )) s"
done
