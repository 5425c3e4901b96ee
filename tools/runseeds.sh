#!/bin/bash
# applies every planted bug to /repo in turn, runs the check of its property and reports whether it was caught
cd "$(dirname "$0")/.." || exit 1
for d in ${1:+$(printf 'seeded/%s ' "$@")} ${1:-seeded/*}; do
  [ -f "$d/patch.diff" ] || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  o=$(python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$(basename $d) $p rc=$rc $(grep -m1 VIOLATION <<<"$o" | sed 's/.*replay//')"
done
