#!/usr/bin/env python3
"""Confirm planted bugs: apply patch to /repo, build, test, demo, run checks, undo.

usage: seed.py [--no-test] [--checks C01,C03|none|own] ID...
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          errors="replace", **kw)
def undo():
    sh("git -C /repo checkout -- .")
args = sys.argv[1:]
test = True; checks = "own"; tier="quick"
ids = []
while args:
    a = args.pop(0)
    if a == "--no-test": test = False
    elif a == "--checks": checks = args.pop(0)
    else: ids.append(a)
assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "dirty /repo"
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    out = [i, meta["property"]]
    try:
        if test:
            r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
            r = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
            out.append("clean-demo=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
        r = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if r.returncode: print(i, "PATCH FAILS", r.stdout); continue
        if test:
            r = sh("bash /opt/vp/build.sh")
            out.append("build=%d" % r.returncode)
            if r.returncode: print(r.stdout[-2000:])
            r = sh(["bash", "/opt/vp/test.sh", "/tmp/seed-o.json"])
            o = json.load(open("/tmp/seed-o.json"))
            miss = BASE - set(o["passed"])
            out.append("tests-missing=%d %s" % (len(miss), list(miss)[:3]))
            r = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
            out.append("patched-demo=%d" % r.returncode)
        cl = [] if checks == "none" else [meta["property"]] if checks == "own" else checks.split(",")
        for c in cl:
            t = time.time()
            r = sh(["python3", f"checks/{c.lower()}.py"], cwd=V, timeout=1800,
                   env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s: rc=%d %.0fs %s" % (c, r.returncode, time.time()-t, v[:1]))
    finally:
        undo()
    print(" | ".join(map(str, out)), flush=True)
if test: sh("bash /opt/vp/build.sh")
