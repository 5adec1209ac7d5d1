#!/bin/bash
# run every check on the unchanged tree
cd "$(dirname "$0")/.."
for c in $(python3 -c 'import json;print(*[x["property"] for x in json.load(open("MANIFEST.json"))["checks"]])'); do
  python3 check.py $c --tier quick > /tmp/all_$c.log 2>&1 &
done; wait
grep -H "obligations\|VIOLATION\|Error\|KNOWN" /tmp/all_C*.log | sed 's,/tmp/all_,,'
