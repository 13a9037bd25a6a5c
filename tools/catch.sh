#!/bin/bash
# catch.sh ID [CHECK...]: applies a planted bug to /repo, runs the checks (default: its property's), undoes it.
id=$1; shift; d=/verif/seeded/$id
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$d/patch.diff" || exit 2
cd /verif
for c in $p; do
  s=$(date +%s); ./check.py $c > /tmp/catch.$id.$c 2>&1; rc=$?
  echo "$id $c rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/catch.$id.$c)"
done
