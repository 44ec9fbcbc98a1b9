#!/usr/bin/env python3
"""Developer helper: writes MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "No hooks in /repo are needed. Every check extracts the functions under contract from /repo's working tree and has Verus discharge all their obligations; see DESIGN.md."}
for k in sorted(PROPS):
    p = PROPS[k]
    note = "Every obligation of the functions under contract is discharged by Verus for all inputs and iterations, on text extracted mechanically from /repo on every run; trusted: Verus, Z3, vstd, the extractor's rewrites, and the assumed contracts listed in the evidence."
    if p.get("assumptions"):
        note += " Assumes: " + "; ".join(p["assumptions"]) + "."
    m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k,
                        "technique": p.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on every run"),
                        "level": p.get("level", "proof"), "level_note": p.get("level_note", note)})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
