#!/usr/bin/env python3
"""tryseed.py [--notest] [--nocheck] ID...  confirm planted bugs in a scratch copy: builds, stable tests pass, demo passes without and fails with the patch, which checks catch it"""
import json, os, shutil, subprocess, sys
WT = "/tmp/wt"
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
args = sys.argv[1:]; notest = "--notest" in args; nocheck = "--nocheck" in args; ids = [a for a in args if not a.startswith("--")]
if not os.path.isdir(WT):
    os.makedirs(WT); sh("cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm base" % (WT, WT))
else:   # follow /repo's HEAD
    sh("cd /repo && git archive HEAD | tar x -C %s; cd %s && git add -A && git -c user.name=x -c user.email=x commit -qm base" % (WT, WT))
os.makedirs("/tmp/wtvp", exist_ok=True)
for f in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + f).read().replace("/repo", WT).replace("/opt/vp/build.sh", "/tmp/wtvp/build.sh"); open("/tmp/wtvp/" + f, "w").write(t)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
r = sh("bash /tmp/wtvp/build.sh")
if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
def demo(i): return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=WT, timeout=300)
for i in ids:
    d = "%s/seeded/%s" % (V, i); meta = json.load(open(d + "/meta.json")); res = []
    a = demo(i); res.append("demo-clean=%d" % a.returncode)
    p = sh("git apply %s/patch.diff" % d, cwd=WT)
    if p.returncode: print(i, "PATCH DOES NOT APPLY", p.stdout); continue
    try:
        b = sh("bash /tmp/wtvp/build.sh")
        if b.returncode: res.append("BUILD FAILS " + b.stdout[-1500:])
        else:
            x = demo(i); res.append("demo-bug=%d" % x.returncode)
            if not notest:
                sh("bash /tmp/wtvp/test.sh /tmp/wtvp/out.json"); got = set(json.load(open("/tmp/wtvp/out.json"))["passed"])
                res.append("tests-lost=%s" % sorted(base - got))
            if a.returncode != 0: print(a.stdout[-1500:])
            if x.returncode == 0: print(x.stdout[-1500:])
        if not nocheck:
            c = sh("python3 %s/check.py %s" % (V, meta["property"]), env=dict(os.environ, VERIF_REPO=WT, VERIF_OUT="/tmp/wt-out"))
            res.append("check %s rc=%d %s" % (meta["property"], c.returncode, [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:1]))
            if c.returncode not in (0, 1): print(c.stdout[-2000:])
    finally:
        sh("git checkout -- . ", cwd=WT)
    print(i, " ".join(res), flush=True)
sh("bash /tmp/wtvp/build.sh")
