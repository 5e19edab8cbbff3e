#!/bin/bash
# every claimed check on the current tree
cd /verif
for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh $p "$@" 2>&1 | tail -2; done
