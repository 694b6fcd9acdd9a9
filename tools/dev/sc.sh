#!/bin/bash
# sc.sh id... : run the own property's quick check against each seeded bug
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  out=$(VERIF_SEED=1 timeout 900 /opt/venv/bin/python -B run.py ${CHK:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id ${CHK:-$p} rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | sed -n 2p | cut -c1-${W:-160})"
done
