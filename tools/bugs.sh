#!/bin/bash
# bugs.sh [ID...]: runs each planted bug's own check (or PROPS="C01 ..." / PROPS=all) against it, in a scratch worktree.
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
export VERIF_REPO=/repo
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(python3 check.py ${PROPS:-$prop} 2>/tmp/bugs.err); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id ($prop) rc=$rc"; echo "$out" | grep VIOLATION; [ $rc -eq 0 ] && echo "$out" | cut -c1-300
  for r in $(echo "$out" | grep -o 'replay=[^ ]*' | cut -d= -f2); do grep -a "failed obligation" $r | sort | uniq -c | head -5; grep -a -A30 "configuration\|scenario" $r | grep -a -- "->\|scenario" | head -2; done
done
