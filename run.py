#!/usr/bin/env python3
"""Run one check: build /repo's current sources with the harness, explore, confirm, report.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--workers N]
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LEVEL = "model_checking"

BASE = ["-std=c++17", "-g1", "-D_GLIBCXX_ASSERTIONS", "-w", "-I" + REPO + "/libclingo-dl", "-I" + REPO + "/app/lib",
        "-I" + ROOT + "/src"]
MOCK = ["mock", "base", "core", "explore", "families", "main", "ops", "threads", "pair", "options"]
E2E = ["base", "e2e", "answers", "expr", "rewrite", "optimize", "life"]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow", "-fno-sanitize-recover=all"]
BINARIES = {
    "mc": dict(flags=["-O2"], src=MOCK, app=False),
    "mc_tsan": dict(flags=["-O1", "-fsanitize=thread"], src=MOCK, app=False),
    "mc_san": dict(flags=SAN, src=MOCK, app=False),
    "e2e": dict(flags=["-O2"], src=E2E, app=True),
    "cli": dict(flags=["-O1"], src=[], app=True, main=True),
    "e2e_san": dict(flags=SAN, src=E2E, app=True),
}
# property -> list of (job name, binary, extra arguments, soft limit quick, soft limit thorough)
JOBS = {}
for p in "C01 C02 C03 C04 C05 C06 C07 C09 C11 C12 C18 C19 C20 C21 C22 C23 C24 C25".split():
    JOBS[p] = [("mock", "mc", [], 300, 660)]
for p in "C08 C13 C14 C15 C16 C17".split():
    JOBS[p] = [("programs", "e2e", [], 300, 600)]
for p in "C09 C12 C21 C22".split():
    JOBS[p] = [("mock", "mc", [], 250, 400), ("programs", "e2e", [], 150, 300)]
JOBS["C20"] = [("mock", "mc", [], 300, 500)]
JOBS["C18"] = [("mock", "mc", [], 300, 500)]
for p in "C08 C12 C14 C15 C17 C18 C20".split():
    JOBS[p].append(("command line", "cli", [], 100, 150))
JOBS["C10"] = [("schedules", "mc", [], 250, 450), ("race detector", "mc_tsan", ["--tsan"], 150, 200)]
JOBS["C21"].append(("race detector", "mc_tsan", ["--tsan"], 150, 200))
JOBS["C26"] = [("calls", "e2e_san", [], 250, 300), ("histories", "mc_san", [], 200, 350)]
STATE_KEYS = ["states"]
TRANS_KEYS = ["transitions"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", **kw)


def build(prop, names):
    """Build the binaries from the current working tree; returns their paths."""
    bdir = os.path.join(ROOT, "build", prop)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    tasks = []
    links = []
    for n in names:
        b = BINARIES[n]
        od = os.path.join(bdir, n + ".o")
        os.makedirs(od)
        srcs = [(f, "r_" + os.path.basename(f)) for f in sorted(glob.glob(REPO + "/libclingo-dl/src/*.cc"))]
        if b["app"]:
            srcs += [(f, "a_" + os.path.basename(f)) for f in sorted(glob.glob(REPO + "/app/lib/src/*.cc"))]
        if b.get("main"):
            srcs += [(f, "m_" + os.path.basename(f)) for f in sorted(glob.glob(REPO + "/app/src/*.cc"))]
        srcs += [(os.path.join(ROOT, "src", s + ".cc"), s) for s in b["src"]]
        objs = []
        for f, o in srcs:
            o = os.path.join(od, o + ".o")
            objs.append(o)
            tasks.append(["g++"] + BASE + b["flags"] + ["-c", f, "-o", o])
        links.append(["g++"] + b["flags"] + objs + ["-o", os.path.join(bdir, n + ("-app" if b.get("main") else "")), "-lclingo", "-lpthread"])
        if b.get("main"):
            # the application is driven by a script with the interface of the other binaries
            with open(os.path.join(bdir, n), "w") as f:
                f.write('#!/bin/sh\nexec python3 "%s" --app "%s" "$@"\n' % (os.path.join(ROOT, "tools", "cli.py"), os.path.join(bdir, n + "-app")))
            os.chmod(os.path.join(bdir, n), 0o755)
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for cmds in (tasks, links):
            for r, c in zip(ex.map(sh, cmds), cmds):
                if r.returncode != 0:
                    print("build failed: " + " ".join(c) + "\n" + r.stdout[-3000:])
                    sys.exit(2)
    return {n: os.path.join(bdir, n) for n in names}


ENV = dict(os.environ, TSAN_OPTIONS="suppressions=" + ROOT + "/src/tsan.supp:halt_on_error=1:exitcode=66:report_signal_unsafe=0",
           ASAN_OPTIONS="detect_leaks=0:exitcode=67:abort_on_error=0:detect_stack_use_after_return=1:max_malloc_fill_size=1000000",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=68", LC_ALL="C")
ENV.pop("VERIF_SEED", None)


def replay(binary, extra, path):
    try:
        r = sh([binary, "--replay", path] + extra, env=ENV, timeout=240, cwd=os.path.dirname(binary))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "no progress within the time limit"


def known_findings(prop):
    res = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: ") and ("property=" + prop + " ") in line:
                what, scen = line.rstrip("\n").split(" replay=", 1)
                job, scen = scen.split(":", 1)
                res.append((what.split(" ", 2)[2], job, scen))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    jobs = JOBS[prop]
    bins = build(prop, sorted({j[1] for j in jobs}))
    if a.replay:
        job = open(a.replay).read().split("\n")[1][len("job: "):]
        j = [x for x in jobs if x[0] == job][0]
        rc, out = replay(bins[j[1]], ["--prop", prop] + j[2], a.replay)
        print(out)
        return 1 if rc != 0 else 0
    print("%s: built in %.1fs" % (prop, time.time() - t0), flush=True)
    bdir = os.path.join(ROOT, "build", prop)
    total = Counter()
    per_job = {}
    samples = []
    outcomes = set()
    violations = []
    capped = False
    known = known_findings(prop)
    for name, binary, extra, lq, lt in jobs:
        limit = lq if a.tier == "quick" else lt
        out = os.path.join(bdir, "out-" + name.replace(" ", "-"))
        cmd = [bins[binary], "--prop", prop, "--tier", a.tier, "--out", out, "--workers", str(a.workers), "--limit", str(limit)] + extra
        skip = os.path.join(bdir, "skip-" + name.replace(" ", "-"))
        with open(skip, "w") as f:
            f.write("".join(s + "\n" for _, j, s in known if j == name))
        cmd += ["--skip", skip]
        t1 = time.time()
        with open(out + ".log", "w") as log:
            try:
                subprocess.run(cmd, stdout=log, stderr=log, env=ENV, timeout=limit + 150, cwd=bdir)
            except subprocess.TimeoutExpired:
                print("job %s did not stop" % name)
                return 2
        cnt = Counter()
        files = sorted(glob.glob(out + ".w*"))
        if len(files) != a.workers:
            print("job %s: results of %d of %d workers" % (name, len(files), a.workers))
            print(open(out + ".log").read()[-2000:])
            return 2
        for f in files:
            d = json.load(open(f))
            cnt.update(d["n"])
            samples += ["%s: %s" % (name, s) for s in d["samples"][:1]]
            outcomes.update(d["outcomes"])
            if d["violation"]:
                violations.append((name, binary, extra, d["violation"]))
        if cnt.pop("capped", 0):
            capped = True
        cnt["wall_s"] = round(time.time() - t1, 1)
        per_job[name] = dict(cnt)
        total.update(cnt)
        print("%s %s: %s" % (prop, name, json.dumps(dict(cnt))), flush=True)
    # confirm violations
    confirmed = []
    for name, binary, extra, v in violations:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.txt" % (prop, len(confirmed)))
        with open(path, "w") as f:
            f.write(v["replay"] + "\njob: " + name + "\n" + v["kind"] + ": " + v["msg"] + "\n")
        rc, out = replay(bins[binary], ["--prop", prop] + extra, path)
        if rc == 0 and not (binary.endswith("tsan")):
            print("not reproduced: %s %s" % (v["kind"], v["msg"]))
            continue
        confirmed.append((path, v))
        if len(confirmed) >= 3:
            break
    if violations and not confirmed:
        print("violations were reported but none could be replayed")
        return 2
    for what, job, scen in known:
        j = [x for x in jobs if x[0] == job][0]
        path = os.path.join(bdir, "known.txt")
        with open(path, "w") as f:
            f.write(scen + "\n")
        rc, out = replay(bins[j[1]], ["--prop", prop] + j[2], path)
        if rc != 0:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    cov = dict(
        states=int(total["states"]), transitions=int(total["transitions"]),
        traces_validated_against_impl=int(total["traces"] or total["scenarios"]),
        distinct_outcomes=len(outcomes), samples=samples[:6], exhaustive=not capped,
        explanation="counts per job; every execution is one of the real library code compiled from /repo",
        jobs=per_job)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=LEVEL, coverage=cov,
                       assumptions=["bounds and reference semantics as described in DESIGN.md for " + prop],
                       wall_s=round(time.time() - t0, 1), violations=len(confirmed)), f, indent=1)
    for path, v in confirmed:
        print("%s: %s" % (v["kind"], v["msg"][:1500]))
    for path, v in confirmed[:1]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed:
        return 1
    print("%s %s: held on everything explored (%.1fs)%s" % (prop, a.tier, time.time() - t0, " [time limit reached]" if capped else ""))
    # keep only the binaries' results, not the objects
    shutil.rmtree(bdir, ignore_errors=True)
    return 0


sys.exit(main())
