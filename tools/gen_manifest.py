#!/usr/bin/env python3
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    n = NOTES.get(p["id"])
    if not n:
        na.append({"property": p["id"], "reason": "check not built yet"}); continue
    checks.append({"property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
  "notes": "Every check builds the harness crate (/verif/harness) against /repo's working tree in two variants: native NTT backend in release mode, and tfhe-ntt backend with debug assertions and overflow checks; both run different generated cases. No hooks in /repo are needed."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
