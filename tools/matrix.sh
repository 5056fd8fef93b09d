#!/bin/bash
# matrix.sh [ids...] : runs, for each planted bug, the check of its property against it, and says whether it was caught
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here" || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh "$p" >/tmp/matrix.$id 2>&1
    rc=$?
    git -C /repo checkout -q -- .
    echo "$id $p rc=$rc $(($(date +%s) - s))s $(grep -m1 -c "^VIOLATION property=$p" /tmp/matrix.$id) $(grep -m1 '^VIOLATION' /tmp/matrix.$id)"
done
