#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vf/registry.py."""
import json
import os
import sys

ROOT = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.join(ROOT, "vf"))
import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in registry.CHECKS:
        s = registry.CHECKS[pid]
        cmd = "python3 vf/check.py " + pid
        checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": s["technique"],
                       "level": s["level"], "level_note": s["note"], "evidence_file": "evidence/%s.json" % pid})
    else:
        na.append({"property": pid, "reason": registry.NOT_APPLICABLE.get(pid, "no monitor has been built for it")})
m = {"version": 1, "setup_cmd": "python3 vf/setup.py",
     "hooks": {"guard": "none", "enable": "No source hooks are used: the monitors observe the public behaviour of the unchanged sources, compiled with sanitizers.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "VERIF_SEED selects the workload, VERIF_TIER its size. Verdicts are about the executions observed; DESIGN.md says per property what was observed and what was not."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
