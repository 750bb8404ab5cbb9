#!/bin/bash
# trybug.sh ID [prop] [tier]: applies a planted bug to /repo, runs a check, undoes it
d=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo dirty"; exit 3; }
git -C /repo apply "$d/patch.diff" || exit 3
timeout 900 /verif/check.sh "$p" "${3:-quick}" 2>&1 | grep -E 'VIOLATION|HELD|error|note' | head -5
git -C /repo checkout -- .
