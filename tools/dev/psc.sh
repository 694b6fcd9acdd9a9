#!/bin/bash
# psc.sh id [check]: run the check on a copy with the planted bug
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
d=/tmp/pc/$id.$p; mkdir -p /tmp/pc; cp -a /repo $d; git -C $d apply /verif/seeded/$id/patch.diff || { echo "== $id NOAPPLY"; exit; }
cd /verif
out=$(VERIF_REPO=$d VERIF_SEED=1 VERIF_JOBS=${J:-3} timeout 900 /opt/venv/bin/python -B run.py $p 2>&1); rc=$?
echo "== $id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | sed -n 2p | cut -c1-${W:-130})"
rm -rf $d
