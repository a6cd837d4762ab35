#!/bin/bash
# run only the exploration of one property
cd /verif && exec python3-vt checks/run.py $1 --no-proof "${@:2}"
