#!/bin/bash
# run every registered check on the current tree; prints one line each   usage: all.sh [ids...]
cd /verif
ids=${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for k in $ids; do
  timeout 900 python3-vt check.py $k > /tmp/o.$k 2>&1; rc=$?
  echo "$k rc=$rc $(grep -m1 obligations /tmp/o.$k | cut -c1-110)"
done
