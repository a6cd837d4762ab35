#!/bin/bash
# inplace.sh PID SEED... : run the check of one property on planted changes in /repo itself, one after another
p=$1; shift
for s in "$@"; do
  git -C /repo apply /verif/seeded/$s/patch.diff || continue
  echo "$s: $(cd /verif && python3-vt checks/run.py $p $OPT 2>&1 | grep -E 'VIOLATION|obligations' | tr '\n' ' ')"
  git -C /repo checkout -q -- .
done
