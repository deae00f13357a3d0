"""Writes MANIFEST.json from rules/registry.py and properties.jsonl (development aid)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from rules.registry import REGISTRY, NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
DEFAULT_NOTE = ("Sound for the constructs the analysis models, over all control-flow paths, exceptions and cancellation points of the analysed functions; "
                "a construct it does not model makes the affected obligation undecided (listed in the evidence), never an alarm. "
                "Trusts the analyser and its summaries of the standard library and third-party calls.")
checks = []
for i in ids:
    if i in REGISTRY:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "technique": REGISTRY[i][1], "level": "other", "level_note": NOTES.get(i, DEFAULT_NOTE)})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in REGISTRY]
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, json'", "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of /repo's current source; nothing of /repo is built or run. No hooks."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
