#!/bin/bash
# soak.sh SECONDS SEEDS... : every exploration with other seeds (from a copy)
secs=$1; shift
d=$(mktemp -d /tmp/soak.XXXXXX); cp -a /verif/checks /verif/explore /verif/pyvc /verif/contracts /verif/known_findings.json $d/
for p in ${PIDS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}; do
  [ -f $d/explore/$p.py ] || continue
  for s in "$@"; do
    echo "$p $s"
  done
done | xargs -P ${J:-5} -L1 bash -c 'cd '$d' && mkdir -p out/$0.$1 && cp -a checks explore pyvc contracts known_findings.json out/$0.$1/ && cd out/$0.$1 && EXPLORE_S='$secs' VERIF_SEED=$1 python3-vt checks/run.py $0 --no-proof > ../$0.$1.log 2>&1; echo "$0 $1 rc=$?"'
grep -l "VIOLATION\|exploration error" $d/out/*.log
echo $d
