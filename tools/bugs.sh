#!/bin/bash
# Runs the check of each planted change's property (or of the changes named) against it; /repo is restored after each.
cd "$(dirname "$0")/.." || exit 1; here=$PWD
export VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=${VERIF_REPO:-/repo}
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C "$VERIF_REPO" apply "$here/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  out=$(timeout 900 /opt/venv/bin/python harness/run.py "$p" 2>&1); rc=$?
  git -C "$VERIF_REPO" checkout -q -- .
  n=$(printf '%s\n' "$out" | grep -c "^VIOLATION property=$p")
  [ $rc = 1 ] && [ "$n" -gt 0 ] && echo "$d: caught by $p ($n)" || echo "$d: MISSED by $p (rc=$rc)"
done
