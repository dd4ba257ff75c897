#!/bin/bash
# developer helper: caught.sh ID... runs the check of each planted bug's property against it (in /repo, undone afterwards)
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
    git -C /repo apply "$d/patch.diff" || exit 1
    cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property'] == '$p': print(c['quick_cmd'])")
    out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash -c "$cmd" 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$id $p rc=$rc $(echo "$out" | grep -c "VIOLATION property=$p") $(echo "$out" | grep -m2 'failed' | cut -c1-200 | tr '\n' '|')"
done
