#!/bin/bash
# usage: plant.sh <id> <worktree>  -- takes the diff of a scratch worktree as seeded/<id>/patch.diff and
# confirms it: applies, stable tests pass with it, demo passes without and fails with it
set -u
id=$1; wt=$2; d=/verif/seeded/$id
mkdir -p $d
git -C $wt diff > $d/patch.diff
git -C /repo apply --check $d/patch.diff || { echo "does not apply"; exit 1; }
(cd /repo && timeout 300 bash $d/demo.sh) >/tmp/demo0.log 2>&1; a=$?
(cd $wt && DEMO_REPO=$wt timeout 300 bash $d/demo.sh) >/tmp/demo1.log 2>&1; b=$?
echo "$id demo clean=$a patched=$b: $(tail -1 /tmp/demo1.log)"
[ $a = 0 ] && [ $b != 0 ] || { tail -5 /tmp/demo0.log; exit 1; }
