#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = CHECKS.get(i)
    if c is None:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=c.get("technique", "property-based testing against a reference model, with shrinking"),
                       level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the objects of libpomp are compiled as they are and their references to libc "
               "functions are renamed (objcopy) to an interposition layer in harness/shim.c.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
