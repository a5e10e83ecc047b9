#!/bin/bash
# catch.sh ID [PROP...]: runs the checks (default: the property of the bug) with the bug applied to /repo.
id=$1; shift; s=/verif/seeded/$id
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply $s/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  t0=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} bash /verif/run.sh $p >/tmp/catch.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c VIOLATION /tmp/catch.log) $(grep '^  \[' /tmp/catch.log | head -2 | cut -c1-160 | tr '\n' '|')"
done
