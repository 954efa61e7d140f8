#!/bin/sh
# runs every claimed check on /repo and prints the last line of each
cd "$(dirname "$0")"
for i in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  o=$(bin/check "$i" 2>&1); r=$?
  echo "$r $(echo "$o" | tail -1 | cut -c1-150)"
done
