#!/usr/bin/env python3
"""Validate planted bugs: plant.py [--nocheck] ID...
For each /verif/seeded/ID: demo on the clean tree, apply the patch to /repo, build and run the repository's
tests, run the demo, run the check of the property, undo."""
import json, os, re, subprocess, sys, time
S = "/verif/seeded"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def original(patch):
    """every removed line has to come from the original commit"""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.decode().split()[0]
    bad, n, f, ln = [], 0, None, 0
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git -C /repo blame -l -L %d,%d -- %s" % (ln, ln, f)).stdout.decode()
            ok = b.startswith("^") or b.startswith(base)
            n += ok
            if not ok:
                bad.append(l.strip())
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return n, bad

args = [a for a in sys.argv[1:] if not a.startswith("--")]
check = "--nocheck" not in sys.argv
for i in args or sorted(os.listdir(S)):
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    n, bad = original(d + "/patch.diff")
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    sh("bash /opt/vp/build.sh")
    t = time.time()
    r0 = sh("cd /repo && bash %s/demo.sh" % d)
    t0 = time.time() - t
    out = [i, meta["property"], "orig-lines", n, "own-lines", len(bad), "demo-clean", r0.returncode, "%.0fs" % t0]
    if r0.returncode:
        print(r0.stdout.decode()[-600:])
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print(i, "does not apply", a.stdout.decode())
            continue
        sh("bash /opt/vp/test.sh /tmp/pl/o.json")
        o = json.load(open("/tmp/pl/o.json"))
        out += ["tests", len(o["passed"]), "failed", o["failed"]]
        t = time.time()
        r1 = sh("cd /repo && bash %s/demo.sh" % d)
        out += ["demo-bug", r1.returncode, "%.0fs" % (time.time() - t), r1.stdout.decode().strip()[-160:]]
        if check:
            c = sh("cd /verif && python3 check.py %s quick" % meta["property"])
            lines = c.stdout.decode().strip().splitlines()
            out += ["CHECK", c.returncode, " | ".join(x[:200] for x in lines[1:3])]
    finally:
        sh("git -C /repo checkout -- .")
    print(*out, flush=True)
sh("bash /opt/vp/build.sh")
