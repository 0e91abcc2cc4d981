#!/bin/bash
# trycopy.sh BUG [CHECK...]: as trybug.sh, but in a scratch copy of /repo (QMSIM_REPO), leaving /repo alone.
b=/verif/seeded/$1; n=$1; shift
p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
d=/tmp/trycopy_$n
cp -a /repo "$d" || exit 9
trap 'rm -rf "$d"' EXIT
git -C "$d" apply $b/patch.diff || exit 9
cd /verif
for c in ${@:-$p}; do
  s=$(date +%s); QMSIM_REPO=$d VERIF_SEED=1 timeout 880 bash check.sh $c --tier quick $TRYARGS > /tmp/try_${n}_$c.log 2>&1; r=$?
  echo "$n $c rc=$r $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/try_${n}_$c.log)"
done
