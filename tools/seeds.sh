#!/bin/bash
# Which of the planted bugs does the check of their own property report?  seeds.sh [id...]   (works on scratch copies)
cd "$(dirname "$0")/.." || exit 1
for d in ${*:-$(ls seeded)}; do
  w=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo/. "$w/"
  git -C "$w" checkout -q -- . && git -C "$w" apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; rm -rf "$w"; continue; }
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$d/meta.json'))['property'])")
  OCS_EVIDENCE=$w/evidence OCS_REPO_SRC=$w/src VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p --tier quick > "$w/out.txt" 2>&1
  echo "$d $p exit $? $(grep -v VIOL "$w/out.txt" | head -1 | cut -c1-160)"
  rm -rf "$w"
done
