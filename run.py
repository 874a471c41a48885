#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree, explores, writes the evidence.

  python3 run.py C16 [quick|thorough] [harness options...]
  python3 run.py --replay FILE        run one recorded violation again
  python3 run.py --all [quick|thorough]
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import build as builder  # noqa: E402
from registry import CHECKS, HARNESSES  # noqa: E402

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=1500:detect_odr_violation=0:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=66:print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0",
}


def known_findings(prop):
    """key -> description, for lines 'finding: property=<id> key=<key> <what fails>'."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            w = line.split()
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = " ".join(w[3:])
    except OSError:
        pass
    return out


def run(prop, tier, extra):
    c = CHECKS[prop]
    t0 = time.time()
    harness = c["harness"]
    rc, log = builder.build(HARNESSES, [harness])
    if rc != 0:
        sys.stdout.write(log[-6000:])
        print("BUILD FAILED for the check of %s" % prop)
        return 2
    built = time.time() - t0
    out_dir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)
    res = os.path.join(out_dir, "result.json")
    env = dict(os.environ)
    env.update(ENV)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cmd = [os.path.join(builder.BUILD, "bin", harness), "--out", res, "--replays", os.path.join(out_dir, "replays"),
           "--seed", str(seed), "--jobs", str(os.cpu_count() or 8)] + c.get("args", [])
    if tier == "thorough":
        cmd.append("--thorough")
        cmd += ["--time", str(c.get("thorough_time", 1500))]
    else:
        cmd += ["--time", str(c.get("quick_time", 300))]
    known = known_findings(prop)
    for k in known:
        cmd += ["--known", k]
    cmd += extra
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(res):
        print("the check of %s ended with status %d" % (prop, r.returncode))
        return 2
    d = json.load(open(res))
    seen = {v["key"]: v for v in d["violations"] if v["known"]}
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    level = c["level"]
    cov = {}
    samples = d["samples"][:12] or ["no sample"]
    cov["samples"] = samples
    if level == "model_checking":
        cov.update(states=d["states"], transitions=d["transitions"], traces_validated_against_impl=d["traces"], executions=d["executions"])
    else:
        cov.update(evaluations=d["executions"], distinct_nontrivial=d["states"], rule=c["rule"], operations=d["transitions"])
    cov["choice_points"] = d["choice_points"]
    cov["exhaustive"] = d["exhaustive"]
    cov["scenarios"] = d["scenarios"]
    if d["counters"]:
        cov["counts"] = d["counters"]
    if d["notes"]:
        cov["notes"] = d["notes"]
    if d["state_overflow"]:
        cov["states_not_counted_table_full"] = d["state_overflow"]
    cov["build_s"] = round(built, 1)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=c.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=d["new_violations"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return 1 if d["new_violations"] else 0


def replay(path):
    prop = os.path.basename(path).split("-")[0]
    harness = CHECKS[prop]["harness"]
    rc, log = builder.build(HARNESSES, [harness])
    if rc != 0:
        sys.stdout.write(log[-6000:])
        return 2
    env = dict(os.environ)
    env.update(ENV)
    return subprocess.run([os.path.join(builder.BUILD, "bin", harness), "--replay", path] + CHECKS[prop].get("args", []), env=env).returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    props = []
    extra = []
    for i, x in enumerate(a):
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--all":
            props = sorted(CHECKS)
        elif x in CHECKS:
            props.append(x)
        else:
            extra = a[i:]
            break
    worst = 0
    for p in props:
        rc = run(p, tier, extra)
        if len(props) > 1:
            print("== %s: %d" % (p, rc), flush=True)
        worst = max(worst, rc)
    return worst


if __name__ == "__main__":
    sys.exit(main())
