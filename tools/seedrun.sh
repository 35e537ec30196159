#!/bin/bash
# Applies planted bugs to /repo one at a time, runs the check of the bug's property (or PROPS="C01 C02"), undoes them.
# Usage: seedrun.sh ID...   (results are appended to /tmp/seedrun.log)
cd /verif || exit 2
for id in "$@"; do
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for q in $p; do
    t0=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh $q quick > /tmp/sr.$id.$q 2>&1; rc=$?
    echo "$id $q rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION /tmp/sr.$id.$q) | $(grep -v VIOLATION /tmp/sr.$id.$q | tail -1 | cut -c1-200)" | tee -a /tmp/seedrun.log
  done
  git -C /repo checkout -q -- . ; git -C /repo clean -fdq
done
