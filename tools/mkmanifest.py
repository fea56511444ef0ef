#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPS, TECH
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        parts = PROPS[i] if isinstance(PROPS[i], list) else [PROPS[i]]
        note = "random and structured generation against an independent oracle; every failure is replayed three times and shrunk"
        if any(p["np"] for p in parts): note += "; MPI parts run on up to %d processes" % max(p["np"] for p in parts)
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH.get(i, "property-based testing with shrinking against a reference model"),
                           level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks)
m["not_applicable"] = na
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
