#!/bin/bash
# trybug.sh BUG [CHECK...]: apply a planted bug to /repo, run its property's check (or the given ones), undo.
b=/verif/seeded/$1; shift
p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
git -C /repo apply $b/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for c in ${@:-$p}; do
  s=$(date +%s); VERIF_SEED=1 timeout 880 bash check.sh $c --tier quick > /tmp/try_$(basename $b)_$c.log 2>&1; r=$?
  echo "$(basename $b) $c rc=$r $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/try_$(basename $b)_$c.log)"
done
