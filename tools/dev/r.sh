#!/bin/bash
# r.sh C01 seeds...
cd /verif; c=$1; shift
for s in "${@:-1}"; do VERIF_SEED=$s timeout 900 /opt/venv/bin/python run.py $c 2>&1 | cut -c1-${W:-700} | head -${L:-14}; done
