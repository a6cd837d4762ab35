#!/bin/sh
# run one check verbosely
cd /verif && exec python3-vt checks/run.py "$@" -v
