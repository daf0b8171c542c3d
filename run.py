#!/usr/bin/env python3
"""Check one property: run.py ID [quick|thorough]

Builds the library from /repo's current tree, runs the exploration, replays
what failed, and writes evidence/ID.json.
"""
import glob
import json
import os
import re
import resource
import subprocess
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "mc"))
import build  # noqa: E402
import props  # noqa: E402


def known_findings(prop):
    """Findings listed for this property: list of (what, regex)."""
    res = []
    with open(os.path.join(VERIF, "known-findings.txt")) as fd:
        for line in fd:
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(3), m.group(2).replace("\\s", " ")))
    return res


def harness_of(prop):
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "mc_*.cc"))):
        with open(f) as fd:
            if re.search(r'\bRegister \w+\("%s"' % prop, fd.read()):
                return os.path.basename(f)[:-3]
    raise SystemExit("no harness for " + prop)


def run_bin(exe, prop, tier, out, known, task=None, timeout=None):
    cmd = [os.path.join(build.BUILD, exe), "--prop", prop, "--tier", tier, "--out", out]
    for i, (what, rx) in enumerate(known):
        cmd += ["--known", str(i), rx]
    if task is not None:
        # Alone and with a longer limit
        cmd += ["--task", task, "--jobs", "1", "--hang", "150"]
    elif tier == "thorough":
        cmd += ["--hang", "300"]
    if os.path.exists(out):
        os.unlink(out)
    err = None if os.environ.get("MC_VERBOSE") else subprocess.DEVNULL
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 0 or not os.path.exists(out):
        return None
    with open(out) as fd:
        return json.load(fd)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = props.BY_ID[prop]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    exe = harness_of(prop)
    if not build.build([exe]):
        print("cannot build %s from %s" % (exe, build.REPO))
        return 2
    known = known_findings(prop)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    out = os.path.join(ev, "replay", prop + ".run.json")
    d = run_bin(exe, prop, tier, out, known, timeout=700 if tier == "quick" else None)
    if d is None:
        print("the exploration of %s did not complete" % prop)
        return 2
    # Replay before reporting
    confirmed, dropped, tried = [], [], {}
    deadline = time.time() + 120
    for f in d["failures"]:
        if len(confirmed) >= 5 or (confirmed and time.time() > deadline):
            break
        if f["task"] not in tried:
            if len(tried) >= 12:
                break
            tried[f["task"]] = run_bin(exe, prop, tier, out + ".replay", known, f["task"], timeout=300)
        r = tried[f["task"]]
        if r is None or any(x["key"] == f["key"] for x in r["failures"]):
            confirmed.append(f)
        else:
            dropped.append(f)
    for p in (out, out + ".replay"):
        if os.path.exists(p):
            os.unlink(p)
    cov = {
        "evaluations": d["evaluations"],
        "states": d["states"],
        "transitions": d["transitions"],
        "traces_validated_against_impl": d["traces"],
        "distinct_nontrivial": d["distinct"],
        "rule": meta["rule"],
        "samples": d["samples"] or ["none"],
        "exhaustive": not d["set_full"],
    }
    for k, v in d.items():
        if k.startswith("x_"):
            cov[k[2:]] = v
    cov["bounds"] = d["notes"]
    cov["repository"] = "built from %s as it is, arkimet code instrumented only by interposing libc calls" % build.REPO
    if d["known"]:
        cov["known_findings_seen"] = {known[int(k["name"])][0]: k["count"] for k in d["known"]}
    if dropped:
        cov["not_reproduced"] = [f["key"] + " " + f["task"] for f in dropped]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": cov, "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": d["failcount"] if confirmed else 0,
    }
    with open(os.path.join(ev, prop + ".json"), "w") as fd:
        json.dump(evidence, fd, indent=1)
        fd.write("\n")
    for what, rx in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s: %d evaluations, %d states, %d transitions, %d distinct, %.1fs" % (
        prop, tier, d["evaluations"], d["states"], d["transitions"], d["distinct"], time.time() - t0))
    if not confirmed:
        return 0
    rep = os.path.join(ev, "replay", prop + ".txt")
    with open(rep, "w") as fd:
        for f in confirmed:
            fd.write("%s\n  task: %s\n  %s\n  replay: %s --prop %s --tier %s --task '%s' -v\n\n" % (
                f["key"], f["task"], f["msg"], os.path.join(build.BUILD, exe), prop, tier, f["task"]))
    for f in confirmed[:3]:
        print("  %s: %s" % (f["key"], f["msg"][:600]))
    print("VIOLATION property=%s replay=%s" % (prop, rep))
    return 1


if __name__ == "__main__":
    sys.exit(main())
