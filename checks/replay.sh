#!/bin/sh
# replay.sh FILE: run the recorded failing input against /repo's current tree
cd "$(dirname "$0")/.." && exec python3-vt - "$1" <<'P'
import json, subprocess, sys, os
sys.path.insert(0, os.getcwd())
from checks import common
d = json.load(open(sys.argv[1]))
s, m = common.scratch_build()
try:
    out = os.path.join(s, 'r.json')
    subprocess.run([common.PY, 'checks/explore_main.py', d['property'], s, '1', 'quick', out, os.path.abspath(sys.argv[1])])
    r = json.load(open(out)); print(json.dumps(r['failures'] or r['errors'] or 'no failure', indent=1))
finally:
    common.remove(s)
P
