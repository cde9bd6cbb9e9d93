#!/usr/bin/env python3
"""Puts DESIGN.md together: tools/design_head.md, one section per property, defects, seeded changes."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vf"))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import registry  # noqa: E402
from design_notes import NOTES, TIMES  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [open(os.path.join(ROOT, "tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    pid = p["id"]
    c = registry.CHECKS[pid]
    out += ["### %s — %s" % (pid, p["title"]), ""]
    out += ["*Statement.* " + p["statement"], ""]
    scen, seen = [], set()
    for d in c["drivers"]:
        src = os.path.join(ROOT, "harness", d["srcs"][0])
        if src in seen:
            continue
        seen.add(src)
        for name, q, t in re.findall(r"VF_SCENARIO\((\w+),\s*(\d+),\s*(\d+)\)", open(src).read()):
            scen.append("%s %s/%s" % (name, q, t))
    flav = sorted({d["flavor"] for d in c["drivers"]})
    out += ["*Monitored and generated.* " + c["rule"], ""]
    out += ["*Builds and bounds.* %s; scenarios with quick/thorough case counts: %s. Quick run about %s." % (
        " and ".join({"asan": "address + undefined-behaviour sanitizers", "tsan": "thread sanitizer"}[f] for f in flav),
        ", ".join(scen), TIMES.get(pid, "10–20 s")), ""]
    if c["note"]:
        out += ["*What the verdict does not say.* " + c["note"], ""]
    n = NOTES.get(pid, {})
    for key, label in (("oracle", "Oracle"), ("reach", "Why it reaches what the tests do not"), ("alarms", "False alarms met and corrected"), ("open", "Seen and not judged")):
        if n.get(key):
            out += ["*%s.* %s" % (label, n[key]), ""]
out += ["## Defects found and repaired", "",
        "Each was found by a check on the original tree, repaired in /repo by a minimal `fix:` commit, and is listed in",
        "`known_findings.txt` as `fixed:` (which suppresses nothing). No finding is left open.", "",
        "| property | commit | what failed |", "|---|---|---|"]
for line in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
    if m:
        out.append("| %s | %s | %s |" % m.groups())
out += ["", open(os.path.join(ROOT, "tools/design_seeds.md")).read().rstrip(), "",
        "| seeded change | property | needs | what it breaks |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"]))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
