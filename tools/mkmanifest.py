#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and the properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from plan import PLAN
NOTE = {}
try:
    from notes import NOTE
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd="bash check.sh " + i, thorough_cmd="bash check.sh %s --thorough" % i,
                           technique="TLA+ specification checked with TLC; recorded executions of the real code validated against it by TLC (trace validation)",
                           level="model_checking",
                           level_note=NOTE.get(i, "TLC checks the model within small constants; the code is judged on the recorded executions only. "
                           "Trusts TLC and the stand-ins for lsst.geom/afw/pex.exceptions in harness/substrate.")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. See DESIGN.md. No hooks in /repo are needed: the public interface is observed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
