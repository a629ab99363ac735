#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present in props/."""
import os, sys, json, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "not claimed (yet): its check is not built"})
        continue
    m = importlib.import_module(i.lower())
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": getattr(m, "TECHNIQUE", "property-based testing: model-based generated programs against a reference interpreter, with shrinking"),
                   "level": getattr(m, "LEVEL", "exploration"),
                   "level_note": getattr(m, "NOTE", None) or "Randomised search over generated cases with a fixed seed; no violation found among those generated. Assumes: " + "; ".join(getattr(m, "ASSUME", []) or ["the oracle"]) + "."})
d = {"version": 1, "setup_cmd": "python3 lib/build.py asan rel cli fuzz util", "checks": checks, "not_applicable": na,
     "notes": "Every check drives the code of /repo's working tree, rebuilt out of tree with sanitizers under /verif/out; no hooks are needed in /repo."}
json.dump(d, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed:", [x["property"] for x in na])
