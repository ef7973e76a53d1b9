#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from config import PROPS, HOOK_COMMITS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i} quick",
            "thorough_cmd": f"python3 tools/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on each run"),
            "level": c.get("level", "proof"),
            "level_note": c.get("level_note", "") or "deductive proof of the listed functions; trusted items are listed in the evidence",
        })
    else:
        na.append({"property": i, "reason": "check not built yet; planned as described in DESIGN.md"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": HOOK_COMMITS},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. All commands run from /verif.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
