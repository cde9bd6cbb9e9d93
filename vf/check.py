#!/usr/bin/env python3
"""Runs the check of one property: builds its drivers from /repo's working tree, runs them under
the sanitizers, judges what the monitors recorded, writes the evidence file and the verdict.

usage: check.py C05 [--replay FILE]
exit 0: held on everything executed; 1: VIOLATION line printed; anything else: error of the check.
"""
import ctypes
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import build  # noqa: E402
import registry  # noqa: E402

VERIF = build.VERIF
STALL_S = {"quick": 90, "thorough": 150}
KEEP_ENV = ("PATH", "HOME", "LANG", "TMPDIR")


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) at=(\S+) (.*)", line.strip())
            if m:
                out.append({"property": m.group(1), "at": m.group(2), "text": m.group(3)})
    return out


def sanitizer_env(flavor, logbase, light=False):
    env = {k: os.environ[k] for k in KEEP_ENV if k in os.environ}
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                           "max_allocation_size_mb=3000:detect_stack_use_after_return=1:"
                           "hard_rss_limit_mb=3500:check_initialization_order=0:"
                           "log_path=" + logbase)
    if light:   # whole-table runs start many threads
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("use_after_return=1", "use_after_return=0") + \
            ":malloc_context_size=8:quarantine_size_mb=64"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:log_path=" + logbase
    env["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:"
                           "suppressions=%s/vf/tsan.supp:log_path=%s" % (VERIF, logbase))
    return env


class Proc:
    def __init__(self, drv, exe, args, tmp, tag):
        self.drv, self.exe, self.args, self.tag = drv, exe, args, tag
        self.out = os.path.join(tmp, tag + ".out")
        self.prog = os.path.join(tmp, tag + ".prog")
        self.log = os.path.join(tmp, tag + ".san")
        self.err = os.path.join(tmp, tag + ".err")
        self.scratch = os.path.join(tmp, tag + ".scratch")
        os.makedirs(self.scratch)
        env = sanitizer_env(drv["flavor"], self.log, drv.get("light", False))
        env["VF_SCRATCH"] = self.scratch
        env["TMPDIR"] = self.scratch
        env.update(drv.get("env", {}))
        cmd = [exe, "--out", self.out, "--progress", self.prog] + args
        with open(self.err, "wb") as fe:
            self.p = subprocess.Popen(cmd, env=env, stdout=fe, stderr=fe, cwd=self.scratch,
                                      preexec_fn=_die_with_parent)
        self.beat, self.beat_t = None, time.time()

    def progress(self):
        try:
            with open(self.prog, "rb") as f:
                b = f.read()
            scen = b[:64].split(b"\0")[0].decode()
            idx, beat = struct.unpack("QQ", b[64:80])
            return scen, idx, beat, b[80:].split(b"\0")[0].decode("latin1")
        except Exception:
            return "", 0, 0, ""

    def stalled(self, limit):
        scen, idx, beat, _ = self.progress()
        if beat != self.beat:
            self.beat, self.beat_t = beat, time.time()
        return time.time() - self.beat_t > limit

    def texts(self):
        t = ""
        d = os.path.dirname(self.log)
        for n in sorted(os.listdir(d)):
            if n.startswith(os.path.basename(self.log) + "."):
                t += open(os.path.join(d, n), errors="replace").read()
        t += open(self.err, errors="replace").read()
        return t

    def records(self):
        recs, done = [], False
        if os.path.exists(self.out):
            for line in open(self.out, errors="replace"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                recs.append(r)
                done = done or "done" in r
        return recs, done


def _die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def crash_key(text, rc):
    m = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60].strip()
        return "undefined-behaviour:" + re.sub(r"[^A-Za-z]+", "-", what).strip("-") + frame(text)
    m = re.search(r"(?:ERROR|WARNING): (Address|Thread|Leak)Sanitizer:? ([a-zA-Z\- ]+)", text)
    if m:
        return "%s:%s%s" % (m.group(1).lower() + "-sanitizer", re.sub(r"\s+", "-", m.group(2).strip())[:40].rstrip("-"), frame(text))
    m = re.search(r"Assertion [`'](.*?)' failed", text)
    if m:
        return "assertion:" + re.sub(r"[^A-Za-z0-9_<>=!]+", "-", m.group(1))[:60]
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
    if m:
        return "terminate:" + m.group(1)
    return "died:rc=%d" % rc


def frame(text):
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+)", text):
        if "/src/paimon/" in m.group(2) or "/include/paimon/" in m.group(2):
            return ":" + re.sub(r"\(.*", "", m.group(1))[:70].replace(" ", "")
    return ""


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = registry.CHECKS[pid]
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    t0 = time.time()
    exes = {}
    try:
        for d in spec["drivers"]:
            if replay and replay["driver"] != d["name"] + "-" + d["flavor"]:
                continue
            exes[d["name"] + "-" + d["flavor"]] = (d, build.build(
                d["name"], d["flavor"], d["srcs"] + ["vf_main.cpp"], d["repo"],
                extra=d.get("flags", ()), libs=d.get("libs", ())))
    except build.BuildError as e:
        sys.stderr.write(str(e) + "\n")
        print("ERROR property=%s the harness does not build against the current tree" % pid)
        return 2
    t_build = time.time() - t0

    # memory-backed scratch space when there is some, for speed only
    shm = "/dev/shm"
    try:
        st = os.statvfs(shm)
        roomy = os.access(shm, os.W_OK) and st.f_bavail * st.f_frsize > (1 << 30)
    except OSError:
        roomy = False
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=shm if roomy else None)
    try:
        return run(pid, spec, tier, seed, replay, exes, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, spec, tier, seed, replay, exes, tmp, t0, t_build):
    violations = {}   # at -> dict
    stats = {}
    inconclusive = []
    errors = []
    ncpu = os.cpu_count() or 4
    base = ["--seed", str(seed), "--tier", tier]
    pending = []
    for dn, (d, exe) in exes.items():
        if replay:
            # races and hangs depend on the schedule: repeat the recorded case
            pending.append((d, exe, ["--seed", str(replay["seed"]), "--tier", replay["tier"],
                                     "--scenario", replay["scenario"], "--case", str(replay["case"]),
                                     "--repeat", "20" if d["flavor"] == "tsan" else "1"], dn + "-replay", d.get("weight", 1)))
            continue
        n = d.get("shards", 8)
        for i in range(n):
            pending.append((d, exe, base + list(d.get("args", ())) + ["--shard", "%d/%d" % (i, n)], "%s-%d" % (dn, i), d.get("weight", 1)))
    running = []
    used = 0
    stall = STALL_S[tier]
    rerun = {}

    def add_violation(drv, scen, case, key, msg, trace):
        at = "%s/%s" % (scen, key)
        if at not in violations:
            violations[at] = {"driver": drv["name"] + "-" + drv["flavor"], "scenario": scen, "case": case,
                              "key": key, "message": msg[:6000], "trace": trace, "seed": seed,
                              "tier": tier, "property": pid}

    known = {k["at"] for k in known_findings() if k["property"] == pid}
    while pending or running:
        while pending and (used == 0 or used + pending[0][4] <= ncpu):
            d, exe, args, tag, w = pending.pop(0)
            running.append((Proc(d, exe, args, tmp, tag), w))
            used += w
        time.sleep(0.02)
        for pr, w in list(running):
            rc = pr.p.poll()
            hung = False
            if rc is None:
                if pr.stalled(stall):
                    pr.p.kill()
                    pr.p.wait()
                    hung = True
                else:
                    continue
            running.remove((pr, w))
            used -= w
            recs, done = pr.records()
            for r in recs:
                if "violation" in r:
                    v = r["violation"]
                    add_violation(pr.drv, v["scenario"], v["case"], v["key"], v["msg"], v["trace"])
                elif "stats" in r:
                    s = r["stats"]
                    a = stats.setdefault(pr.drv["flavor"] + ":" + s["scenario"], {"evaluations": 0, "ops": 0, "checks": 0,
                                                           "nontrivial": 0, "sigs": set(), "samples": []})
                    for k in ("evaluations", "ops", "checks", "nontrivial"):
                        a[k] += s[k]
                    a["sigs"].update(s["sigs"])
                    if len(a["samples"]) < 2:
                        a["samples"] += s["samples"][:1]
            scen, idx, _, note = pr.progress()
            if hung:
                # a time-out is inconclusive until it happens again on a re-run
                tag = pr.tag
                rerun[tag] = rerun.get(tag, 0) + 1
                prior = rerun[tag] > 1 or "-rerun" in tag
                if prior:
                    add_violation(pr.drv, scen, idx, "no-progress",
                                  "case made no progress for %d s, twice (%s)" % (stall, note), note)
                else:
                    inconclusive.append("%s/%d" % (scen, idx))
                    args = [a for a in pr.args]
                    args += ["--scenario", scen]
                    pending.append((pr.drv, pr.exe, args, tag + "-rerun", w))
                continue
            if done and rc in (0, 1):
                continue
            text = pr.texts()
            if "HARNESS-ERROR" in text or rc == 3:
                errors.append(text[-2000:])
                continue
            if done and rc not in (0, 1):
                key = "at-exit:" + crash_key(text, rc)
                add_violation(pr.drv, "(exit)", 0, key, text[:6000], "")
                continue
            if rc == -9:
                errors.append("driver %s was killed (out of memory?) in %s/%d" % (pr.tag, scen, idx))
                continue
            key = crash_key(text, rc)
            if not text.strip() and rc >= 0 and scen == "":
                errors.append("driver %s ended with %d before running" % (pr.tag, rc))
                continue
            add_violation(pr.drv, scen, idx, key, text[:6000], note)
            at = "%s/%s" % (scen, key)
            if at in known and "-skip" not in pr.tag:
                pending.append((pr.drv, pr.exe, pr.args, pr.tag + "-skip", w))
    wall = time.time() - t0

    if replay:
        for at, v in violations.items():
            print("REPRODUCED property=%s %s\n%s\n%s" % (pid, at, v["message"], v["trace"]))
        if not violations:
            print("not reproduced")
        return 1 if violations else 0

    evaluations = sum(s["evaluations"] for s in stats.values())
    distinct = sum(len(s["sigs"]) for s in stats.values())
    samples = []
    for name in sorted(stats):
        for t in stats[name]["samples"][:1]:
            samples.append(name + ": " + t)
    unlisted = [v for at, v in violations.items() if at not in known]
    for at in violations:
        if at in known:
            text = [k["text"] for k in known_findings() if k["property"] == pid and k["at"] == at][0]
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": samples[:12] or ["(none)"],
            "operations_executed": sum(s["ops"] for s in stats.values()),
            "monitor_observations": sum(s["checks"] for s in stats.values()),
            "per_scenario": {k: {"cases": s["evaluations"], "nontrivial": s["nontrivial"],
                                 "distinct": len(s["sigs"]), "operations": s["ops"],
                                 "observations": s["checks"]} for k, s in sorted(stats.items())},
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(unlisted),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(VERIF, "evidence", pid + ".json")
    with open(evf + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(evf + ".tmp", evf)

    if unlisted:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in unlisted[:8]:
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s-%s" % (pid, v["scenario"], v["key"]))[:120]
            path = os.path.join(rdir, name + ".json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s case %s: %s: %s" % (v["scenario"], v["case"], v["key"],
                                            v["message"].strip().replace("\n", "\n    ")[:1500]))
        print("  replay with: python3 vf/check.py %s --replay <path>" % pid)
        return 1
    if errors:
        sys.stderr.write("\n".join(errors) + "\n")
        print("ERROR property=%s a driver failed to run" % pid)
        return 2
    if evaluations == 0 or distinct == 0 or sum(s["checks"] for s in stats.values()) == 0:
        print("ERROR property=%s the run observed nothing" % pid)
        return 2
    if inconclusive:
        print("note: stalled once and then completed on re-run: %s" % ", ".join(inconclusive))
    print("OK property=%s held on %d executions (%d distinct non-trivial, %d observations), %.1f s"
          % (pid, evaluations, distinct, evidence["coverage"]["monitor_observations"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
