#!/bin/bash
# every check against /repo, a few at a time; prints the last lines of each
cd "$(dirname "$0")/.."
out=${1:-/tmp/all}; mkdir -p "$out"
python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c.get('property') or c.get('id'))" | xargs -P 7 -I{} sh -c "timeout 900 python3 check.py --property {} > $out/{}.txt 2>&1; echo rc=\$? >> $out/{}.txt"
for f in "$out"/*.txt; do tail -2 "$f" | tr '\n' ' ' | cut -c1-250; echo; done
