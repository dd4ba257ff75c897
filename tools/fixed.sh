#!/bin/bash
# developer helper: fixed.sh PROP NAME REPLAYFILE WHAT... : record /repo's HEAD as the repair of a defect
p=$1 name=$2 file=$3; shift 3
cd /verif || exit 1
mkdir -p regressions/$p
python3 - "$file" regressions/$p/$name.json <<'P'
import json,sys
d=json.load(open(sys.argv[1])); json.dump({"sub":d["sub"],"value":d["value"]}, open(sys.argv[2],"w")); open(sys.argv[2],"a").write("\n")
P
echo "fixed: property=$p $(git -C /repo rev-parse --short HEAD) $*" >> known-findings.jsonl
