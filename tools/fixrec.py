#!/usr/bin/env python3
"""fixrec.py PROP COMMIT NAME SUB VALUE-JSON WHAT: record a repaired defect and its regression input"""
import sys, os, json
prop, commit, name, sub, value, what = sys.argv[1:7]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if value.startswith('@'):
    d = json.load(open(value[1:])); sub, val = d["sub"], d["value"]
else:
    val = json.loads(value)
os.makedirs(f"{root}/regressions/{prop}", exist_ok=True)
json.dump({"sub": sub, "value": val}, open(f"{root}/regressions/{prop}/{name}.json", "w"))
open(f"{root}/regressions/{prop}/{name}.json", "a").write("\n")
open(f"{root}/known-findings.jsonl", "a").write(f"fixed: property={prop} {commit} {what}\n")
