#!/bin/bash
# try_seeded.sh [ID...]: apply each seeded change to /repo, run the quick check
# of its property (and, with ALL=1, every other one), undo it.
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  cs=$p; [ -n "$ALL" ] && cs=$(ls checks | sed -n 's/^c\([0-9][0-9]\)\.py$/C\1/p')
  for c in $cs; do
    s=$(date +%s)
    ./run.sh $c --tier quick --no-evidence ${SEED:+--seed $SEED} > /tmp/try_$c.log 2>&1; r=$?
    echo "$id ($p) $c exit $r $(( $(date +%s) - s ))s $(grep -c VIOLATION /tmp/try_$c.log) $(grep -o 'violation class [^:]*' /tmp/try_$c.log | head -1) runs: $(tail -1 /tmp/try_$c.log | grep -o '[0-9]* runs')"
  done
  git -C /repo checkout -- .
done
