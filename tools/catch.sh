#!/bin/bash
# usage: catch.sh <worktree> [ids...]  -- runs each planted bug's check against a scratch copy of a worktree
wt=$1; shift
ids=${@:-$(ls /verif/seeded)}
for id in $ids; do
  d=/verif/seeded/$id
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  t=$(mktemp -d /tmp/catch.XXXXXX) && cp -a $wt/. $t/
  git -C $t checkout -q -- . && git -C $t apply $d/patch.diff || { echo "$id: does not apply"; rm -rf "$t"; continue; }
  out=$(DST_REPO=$t bash /verif/run_check.sh $prop ${TIER:-quick} --out $t/ev ${SEED:+--seed $SEED} 2>&1); code=$?
  echo "$id $prop exit=$code $(echo "$out" | grep -E '^seed' | head -1 | cut -c1-150)"
  [ $code = 2 ] && echo "$out" | tail -5
  rm -rf "$t"
done
