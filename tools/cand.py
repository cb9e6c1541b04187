#!/usr/bin/env python3
"""cand.py LIST: candidate bugs M = [(file, old, new, "ID ..."), ...]; which of them lose no stable test, and do the checks report them (scratch copy /tmp/wtc)"""
import json, os, subprocess, sys
WT = "/tmp/wtc"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
if not os.path.isdir(WT): os.makedirs(WT)
sh("cd /repo && git archive HEAD | tar x -C %s" % WT)
os.makedirs(WT + "vp", exist_ok=True)
for f in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + f).read().replace("/repo", WT).replace("/opt/vp/build.sh", WT + "vp/build.sh"); open(WT + "vp/" + f, "w").write(t)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ns = {}; exec(open(sys.argv[1]).read(), ns)
for i, (f, o, n, ids) in enumerate(ns["M"]):
    p = WT + "/" + f; t = open(p).read()
    if t.count(o) != 1: print(i, "pattern occurs", t.count(o)); continue
    open(p, "w").write(t.replace(o, n))
    b = sh("bash %svp/build.sh" % WT)
    if b.returncode: print(i, "BUILD", b.stdout[-500:]); open(p, "w").write(t); continue
    sh("bash %svp/test.sh %svp/out.json" % (WT, WT)); got = set(json.load(open(WT + "vp/out.json"))["passed"])
    lost = sorted(base - got); res = ""
    if not lost:
        for x in ids.split():
            c = sh("python3 /verif/check.py " + x, env=dict(os.environ, VERIF_REPO=WT, VERIF_OUT="/tmp/wtc-out")); res += " %s rc=%d" % (x, c.returncode)
    print(i, n[:90].replace("\n", " "), "| lost", lost[:3], res, flush=True)
    open(p, "w").write(t)
