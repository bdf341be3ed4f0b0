#!/bin/bash
# Runs the check of each planted bug's property against the bug. usage: hunt.sh [ID...]
# Applies the patch to /repo and undoes it; run nothing else on /repo meanwhile.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    s=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} ./check.sh "$p" quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=caught; else r="MISSED rc=$rc"; fi
    echo "$r $id $p $(($(date +%s) - s))s $(grep -m1 -A3 '^VIOLATION' <<<"$out" | cut -c1-220 | tr '\n' ' ')"
done
