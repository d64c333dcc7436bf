#!/usr/bin/env python3
"""Decide one property by seeded simulation of the current tree of /repo.

usage: check.py <property id> [quick|thorough]
       check.py --build [group...]       (only build the simulator)
       check.py --replay <file>
environment: VERIF_SEED (default 1), VERIF_TIER, VERIF_SECONDS (override the
search budget), VERIF_REPO (default /repo), VERIF_WORKERS
exit: 0 held on everything explored, 1 violation, 2 no answer (machinery)
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, VERIF)
from proptable import PROPS, GROUPS  # noqa: E402

CXX = "g++"
INSTR = ["-std=c++17", "-O1", "-g1", "-fno-pie", "-fsanitize=thread", "--param",
         "tsan-instrument-func-entry-exit=0", "-w"]
RT = ["-DRT_OBJCOPY", "-std=c++17", "-O2", "-g1", "-fno-pie", "-fno-builtin", "-w"]
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"


def die(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(2)


def digest(paths, extra=""):
    h = hashlib.sha1(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def headers():
    out = []
    for root in (os.path.join(REPO, "src"), SIM):
        for d, _, fs in os.walk(root):
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".ipp", ".inl"))]
    return out


def build(group):
    """Compile /repo's sources and the scenarios of a group; returns the binary."""
    g = GROUPS[group]
    defs = ["-DEFG_JSON_IO=1"] + g.get("defs", [])
    incs = [os.path.join(REPO, "src", "header")] + [i.replace("@SIM", SIM).replace("@REPO", REPO) for i in g.get("incs", [])]
    inc = [x for i in incs for x in ("-I", i)] + g.get("sysincs", [])
    repo_src = sorted(glob.glob(os.path.join(REPO, "src", "src", "**", "*.cpp"), recursive=True))
    if not repo_src:
        die("no sources below " + REPO)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    hd = digest(headers())
    jobs = []
    for s in repo_src:
        jobs.append((s, INSTR + defs + inc, hd))
    for s in ["driver.cpp", "world.cpp"] + g["sources"]:
        jobs.append((os.path.join(SIM, s), INSTR + defs + inc + ["-I", SIM], hd))
    jobs.append((os.path.join(SIM, "rt.cpp"), RT + ["-I", SIM], digest([os.path.join(SIM, "rt.h")])))

    def compile_one(job):
        src, flags, dep = job
        key = digest([src], " ".join(flags) + dep)
        obj = os.path.join(objdir, key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode:
                return src, None, r.stdout.decode(errors="replace")
            if os.path.basename(src) == "rt.cpp":
                # the runtime's own memory functions are not part of the simulation
                subprocess.check_call(["objcopy"] + [x for f in ("memcpy", "memmove", "memset", "memcmp")
                                                     for x in ("--redefine-sym", f + "=__real_" + f)] + [tmp])
            os.replace(tmp, obj)
        return src, obj, ""

    # the slowest translation units first
    jobs.sort(key=lambda j: (not j[0].startswith(SIM), j[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, jobs))
    for src, obj, err in res:
        if obj is None:
            die("compilation of %s failed\n%s" % (src, err[-4000:]))
    objs = [o for _, o, _ in res]
    exe = os.path.join(BUILD, "simrun-%s-%s" % (group, hashlib.sha1(" ".join(objs).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, "-no-pie", "-rdynamic", WRAP, "-o", tmp] + objs + ["-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            die("link failed\n" + r.stdout.decode(errors="replace")[-4000:])
        os.replace(tmp, exe)
    return exe


def locate(exe, pcs):
    out = []
    for pc in pcs:
        if not pc:
            continue
        r = subprocess.run(["addr2line", "-Cfipe", exe, hex(pc - 1)], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL)
        t = r.stdout.decode(errors="replace").strip().splitlines()
        t = [re.sub(r"\s*\(discriminator \d+\)", "", x) for x in t]
        pick = [x for x in t if REPO in x] or t
        if pick:
            out.append(pick[0][:300])
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def do_replay(path):
    prop = None
    for line in open(path):
        if line.startswith("property "):
            prop = line.split()[1]
            break
    if prop not in PROPS:
        die("no property in " + path)
    exe = build(PROPS[prop]["group"])
    scratch = tempfile.mkdtemp(prefix="efgsim-", dir="/tmp")
    try:
        r = subprocess.run([exe, "replay", "--file", path, "--scratch", scratch], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL)
        text = r.stdout.decode(errors="replace")
        sys.stdout.write(text)
        m = re.search(r"pcs=(\S+),(\S+)", text)
        if m:
            for loc in locate(exe, [int(m.group(1), 16), int(m.group(2), 16)]):
                print("  at", loc)
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier):
    t_begin = time.time()
    p = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    exe = build(p["group"])
    t_built = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    seconds = float(os.environ.get("VERIF_SECONDS", 0) or p[tier])
    workers = int(os.environ.get("VERIF_WORKERS", 0) or len(os.sched_getaffinity(0)))
    scratch = tempfile.mkdtemp(prefix="efgsim-", dir="/tmp")
    problems, violation, results = [], None, []
    try:
        procs = []
        for w in range(workers):
            out = os.path.join(scratch, "w%d.json" % w)
            cmd = [exe, "explore", "--prop", prop, "--seed", str(seed), "--tier", "1" if tier == "thorough" else "0",
                   "--worker", str(w), "--workers", str(workers), "--seconds", str(seconds), "--cpu", str(w),
                   "--scratch", scratch, "--replays", REPLAYS, "--out", out]
            if "VERIF_MAX_RUNS" in os.environ:
                cmd += ["--max-runs", os.environ["VERIF_MAX_RUNS"]]
            err = open(os.path.join(scratch, "w%d.err" % w), "wb")
            procs.append((w, subprocess.Popen(cmd, stderr=err, stdout=subprocess.DEVNULL), out))
            err.close()
        left = list(procs)
        deadline = time.time() + seconds + 450
        stop_at, late = None, False
        while left:
            for x in list(left):
                rc = x[1].poll()
                if rc is not None:
                    left.remove(x)
                    if rc == 1 and stop_at is None:
                        stop_at = time.time() + 1.0  # a violation has been found and minimised
            if stop_at and time.time() > stop_at or time.time() > deadline:
                for x in left:
                    x[1].kill()
                    x[1].wait()
                if not stop_at and len(left) * 2 > workers:
                    problems.append("%d workers did not end" % len(left))
                late = not stop_at
                left = []
            time.sleep(0.02)
        for w, pr, out in procs:
            etext = open(os.path.join(scratch, "w%d.err" % w), "rb").read().decode(errors="replace").strip()
            if os.path.exists(out):
                try:
                    results.append(json.load(open(out)))
                except ValueError:
                    problems.append("worker %d: unreadable output" % w)
            if pr.returncode not in (0, 1, -9) or (pr.returncode == -9 and not stop_at and not late):
                problems.append("worker %d: exit %s: %s" % (w, pr.returncode, etext[-1500:]))
        viols = [r["violation"] for r in results if r.get("violation")]
        known = known_findings()
        printed = set()
        for v in viols:
            text = "%s: %s" % (v["kind"], v["msg"])
            v["where"] = locate(exe, v["pcs"])
            r = subprocess.run([exe, "replay", "--file", v["replay"], "--scratch", scratch], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL)
            rt = r.stdout.decode(errors="replace")
            if r.returncode != 1 or "exact=1" not in rt:
                problems.append("replay of %s does not reproduce the violation exactly: %s" % (v["replay"], rt[:500]))
                continue
            hit = [k for k in known if k[0] == prop and re.search(k[1], text + " " + " ".join(v["where"]))]
            if hit:
                if hit[0] not in printed:
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
                    printed.add(hit[0])
                continue
            violation = violation or v
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.time() - t_begin
    tot = lambda k: sum(r.get(k, 0) for r in results)
    uni = lambda k: len(set().union(*[set(r.get(k, [])) for r in results])) if results else 0
    faults = {}
    for r in results:
        for k, n in r["faults"].items():
            if n:
                faults[k] = faults.get(k, 0) + n
    probes = [sum(r["probes"][i] for r in results) for i in range(64)] if results else []
    search = max([r["wall"] for r in results], default=0)
    runs = tot("runs")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot("evaluations"),
            "distinct_nontrivial": uni("nontrivial_hashes"),
            "rule": p["rule"],
            "samples": [s for r in results for s in r["samples"]][:6],
            "simulated_runs": runs,
            "runs_per_hour": int(runs / search * 3600) if search else 0,
            "seeds": "run i of this check uses the seed derived from (VERIF_SEED=%d, property, i), i below %d"
                     % (seed, runs),
            "simulated_time_s": round(tot("vtime_ns") * 1e-9, 3),
            "scheduler_steps": tot("steps"),
            "largest_run_steps": max([r.get("max_steps", 0) for r in results] or [0]),
            "runs_abandoned_as_too_slow": tot("abandoned"),
            "synchronisation_events": tot("sync_events"),
            "context_switches": tot("switches"),
            "threads_simulated": tot("threads"),
            "distinct_interleavings": uni("sched_hashes"),
            "distinct_interleavings_measure": "distinct hashes of the sequence (thread, kind of synchronisation "
                                              "event) of a run",
            "distinct_workloads": uni("content_hashes"),
            "nontrivial_runs": tot("nontrivial_runs"),
            "repeatability_checks": tot("repeat_checks"),
            "faults_injected": faults,
            "situations": {n: probes[i] for i, n in p.get("probes", {}).items() if probes},
            "real_code": p["real"],
            "stubbed": p["stub"],
        },
        "assumptions": p["assumptions"],
        "wall_s": round(wall, 2),
        "build_s": round(t_built - t_begin, 2),
        "violations": 1 if violation else 0,
    }
    if violation:
        ev["violation"] = violation
    if problems:
        ev["problems"] = problems
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs in %.1f s (build %.1f s), %d checks, %d interleavings, faults %s" % (
        prop, tier, runs, search, t_built - t_begin, tot("evaluations"), uni("sched_hashes"), faults))
    if violation:
        print("%s: %s" % (violation["kind"], violation["msg"]))
        for w in violation["where"]:
            print("  at", w)
        print("  seed %s, workload %s -> %s operations, schedule %s -> %s deviations" % (
            violation["seed"], violation["ops_before"], violation["ops_after"], violation["deviations_before"],
            violation["deviations_after"]))
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    if problems:
        for x in problems:
            print("PROBLEM " + x, file=sys.stderr)
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        die("usage: check.py <property> [quick|thorough]")
    if a[0] == "--build":
        for g in a[1:] or GROUPS:
            print(build(g))
        return 0
    if a[0] == "--replay":
        return do_replay(a[1])
    if a[0] not in PROPS:
        die("unknown property " + a[0])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    return check(a[0], tier)


sys.exit(main())
