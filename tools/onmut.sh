#!/bin/bash
# run a check against a changed copy of the repository: onmut.sh TREE PID args
e=$(mktemp -d); unshare -Urm bash -c "mount --bind $1 /repo && mount --bind $e /verif/evidence && cd /verif && python3-vt checks/run.py $2 ${*:3}"; r=$?; rm -rf "$e"; exit $r
