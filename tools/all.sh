#!/bin/bash
# every registered check, in parallel (development aid)
cd "$(dirname "$0")/.." || exit 1
python3 -c "
from rules.registry import REGISTRY
print('\n'.join(REGISTRY))" | xargs -P 6 -I{} bash -c 'o=$(python3 run.py {} 2>&1 | tail -1 | cut -c1-150); echo "$o"' | sort | grep -v "undecided=0" ; echo done
