#!/bin/bash
# usage: try_seed.sh SEED-ID [PROPERTY...]   apply to /repo, run checks, undo
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  out=$(./check.sh "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c VIOLATION) violations: $(echo "$out" | grep -m1 -v '^warn\|VIOLATION' | cut -c1-200)"
done
