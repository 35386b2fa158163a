#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for i in ids:
    if i in props.CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="./run.py " + i, thorough_cmd="./run.py %s thorough" % i,
                                technique=props.TECHNIQUE.get(i, props.TECH), level="model_checking",
                                level_note=props.NOTES.get(i, props.NOTE)))
    else:
        m["not_applicable"].append(dict(property=i, reason=props.NOT.get(i, "check not built yet")))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
