#!/bin/bash
# usage: tools/catch.sh ID...   Applies each planted bug to /repo, runs the check of its property, undoes it.
R=${SEED_REPO:?set SEED_REPO}
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C $R apply seeded/$id/patch.diff 2>/dev/null || git -C $R apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(python3 checks/run.py $p 2>/tmp/catch.err); code=$?
  git -C $R checkout -q -- .
  echo "$id $p exit=$code $(( $(date +%s) - s ))s $(echo "$out" | grep -v VIOLATION | cut -c1-150 | tail -1)"
done
