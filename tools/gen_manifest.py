"""Writes MANIFEST.json from the registry of checks and the list of properties that are not claimed."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import registry  # noqa: E402
from sa.meta import META, NOT_APPLICABLE  # noqa: E402

checks = []
for pid in sorted(registry.CHECKS):
    tech, note = META[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "other", "level_note": note})
na = [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items()) if p not in registry.CHECKS]
man = {"version": 1, "setup_cmd": "python3 -c \"import ast, sys; sys.exit(0)\"", "checks": checks, "not_applicable": na,
       "notes": "Static analysis of /repo/aalpy only; nothing of it is imported or run. No hooks."}
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
assert sorted([c["property"] for c in checks] + [n["property"] for n in na]) == sorted(props), \
    set(props) ^ set([c["property"] for c in checks] + [n["property"] for n in na])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
