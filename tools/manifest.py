#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
checks = json.load(open(f"{here}/tools/checks.json"))
na = json.load(open(f"{here}/tools/not_applicable.json"))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
m["hooks"] = {"guard": "none", "enable": "no hooks: the checks use ferlium's public interface only", "source_commits": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet")})
m["notes"] = "Every check is a generated-input search in /verif/harness (ferlium-check); see DESIGN.md."
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
