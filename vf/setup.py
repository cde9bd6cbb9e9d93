#!/usr/bin/env python3
"""Builds every harness once, so that the checks only recompile what changed in /repo."""
import concurrent.futures
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import build  # noqa: E402
import registry  # noqa: E402

# compile everything at once; the loop below then only links
units = {}
for spec in registry.CHECKS.values():
    for d in spec["drivers"]:
        srcs = [os.path.join(build.VERIF, "harness", s) for s in d["srcs"] + ["vf_main.cpp"]]
        extra = tuple(d.get("flags", ()))
        if d["repo"] == "CORE":
            units.update(((s, d["flavor"], ()), None) for s in build.core_sources())
        else:
            srcs += [s if s.startswith("/") else os.path.join(build.REPO, "src/paimon", s) for s in d["repo"]]
        units.update(((s, d["flavor"], extra), None) for s in srcs)
with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    list(ex.map(lambda u: build.compile_one(*u), units))

seen = set()
failed = 0
for pid, spec in sorted(registry.CHECKS.items()):
    for d in spec["drivers"]:
        key = (d["name"], d["flavor"])
        if key in seen:
            continue
        seen.add(key)
        try:
            build.build(d["name"], d["flavor"], d["srcs"] + ["vf_main.cpp"], d["repo"],
                        extra=d.get("flags", ()), libs=d.get("libs", ()))
        except build.BuildError as e:
            failed += 1
            sys.stderr.write("%s %s: %s\n" % (pid, key, str(e)[:3000]))
print("built %d harnesses, %d failed" % (len(seen) - failed, failed))
sys.exit(1 if failed else 0)
