#!/usr/bin/env python3
"""Tries planted bugs of /verif/seeded against the build, the stable tests, their demonstration and
the check of their property.   plant.py [ID...] [--no-check] [--seed N]
Applies each patch to /repo, and undoes it straight afterwards."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def clean(): return not sh("git -C /repo status --porcelain").stdout.strip()
args = sys.argv[1:]
seed = "1"
if "--seed" in args: i = args.index("--seed"); seed = args[i + 1]; del args[i:i + 2]
nocheck = "--no-check" in args
ids = [a for a in args if a[0] != "-"] or sorted(os.listdir(V + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
if not clean(): sys.exit("/repo is not clean")
sh("bash /opt/vp/build.sh")
pre = {i: sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo") for i in ids}
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    out = [i, "demo0=%d" % pre[i].returncode]
    if pre[i].returncode: out.append(pre[i].stdout[-300:] + pre[i].stderr[-300:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "does not apply", r.stderr); continue
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(i, "BUILD FAILS", (b.stdout + b.stderr)[-1500:]); continue
        t = sh("bash /opt/vp/test.sh /tmp/plant-t.json")
        missing = stable - set(json.load(open("/tmp/plant-t.json"))["passed"])
        out.append("tests=" + ("ok" if not missing else "FAIL %s" % sorted(missing)))
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        out.append("demo1=%d" % r.returncode)
        if not nocheck:
            t0 = time.time()
            r = sh("VERIF_SEED=%s VERIF_TIER=quick python3 %s/check.py %s" % (seed, V, prop), cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("violation") or l.startswith("VIOLATION")]
            out.append("check=%d %.0fs %s" % (r.returncode, time.time() - t0, (" | ".join(v) or (r.stdout + r.stderr)[-800:])[:600]))
    finally:
        sh("git -C /repo checkout -- .")
    print("  ".join(out), flush=True)
sh("bash /opt/vp/build.sh")
