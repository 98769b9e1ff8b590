#!/bin/bash
# Runs each planted bug's check (quick tier) against a scratch copy with the bug applied.
#   tools/seedcheck.sh [ID ...]      prints CAUGHT / MISSED per bug
cd "$(dirname "$0")/.." || exit 2
V=$PWD
R=$(mktemp -d /tmp/seedcheck-XXXXXX)
git clone -q /repo "$R/repo"
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for q in ${PIDS:-$p}; do
  git -C "$R/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  VF_REPO="$R/repo" /opt/venv/bin/python vf/run.py "$q" --seed "${SEED:-1}" >"$R/out" 2>&1; rc=$?
  e=$(( $(date +%s) - s ))
  v=$(grep -m1 VIOLATION "$R/out")
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "$id $q CAUGHT ${e}s :: $(grep -m1 -i -A1 violation "$R/out" | tail -1 | cut -c1-150)"; else echo "$id $q MISSED rc=$rc ${e}s"; fi
  git -C "$R/repo" checkout -q -- .
  done
done
rm -r "$R"
