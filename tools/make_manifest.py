#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks_config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_config import CHECKS
from technique import TECHNIQUE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    t, note = TECHNIQUE[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       technique=t, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: everything is observed through the public API and the built applications. "
               "Checks compile /repo's sources with ASan/UBSan (and TSan) into build/ on every run. "
               "Replay a failure with: python3 check.py --replay FILE")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
