#!/bin/bash
# run every registered check once (development aid)
cd /verif
for c in ${@:-$(python3 -c "import json;print(*[x['property_id'] if 'property_id' in x else x['property'] for x in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); python3 check.py $c | tail -2; echo "  [$c exit ${PIPESTATUS[0]} $(($(date +%s)-s)) s]"
done
