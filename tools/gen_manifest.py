#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(H, "..", "properties.jsonl"))]
NA = {
    "C29": "timing and memory-access traces are not observable in explored executions; the family offers no deciding step for instruction-level leakage, and sampling run times would be a different technique",
    "C30": "a computational hardness assumption: no finite exploration of executions can decide it",
}
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {
        "guard": "cfg(festa_mc)",
        "enable": "RUSTFLAGS='--cfg festa_mc' FESTA_MC_FIELDS=/verif/mc/worlds/{mini,nano}.rs FESTA_MC_DIR=/verif/mc/worlds cargo build (done by /verif/check; the 'real' world is built with the hook off)",
        "source_commits": ["09764c4"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "All checks are ./check <ID>: exhaustive exploration of bounded spaces of behaviours of the real code in several parameter worlds (see DESIGN.md).",
}
for p in props:
    i = p["id"]
    if i in PLAN:
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "explicit-state model checking of the implementation: exhaustive enumeration of bounded input/operation spaces against a reference model",
            "level": "model_checking",
            "level_note": NOTES.get(i, NOTES["*"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: the check is still being built")})
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
