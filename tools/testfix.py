#!/usr/bin/env python3
"""runs the stable tests on a scratch copy of /repo's working tree"""
import json, os, subprocess
WT="/tmp/wt2"
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
os.makedirs(WT, exist_ok=True); os.makedirs("/tmp/wtvp2", exist_ok=True)
sh("cd /repo && git ls-files | tar c -T - | tar x -C %s" % WT)
for f in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + f).read().replace("/repo", WT).replace("/opt/vp/build.sh", "/tmp/wtvp2/build.sh"); open("/tmp/wtvp2/" + f, "w").write(t)
sh("bash /tmp/wtvp2/test.sh /tmp/wtvp2/out.json")
got=json.load(open("/tmp/wtvp2/out.json")); base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
print("lost:", sorted(base-set(got["passed"])), "passed", len(got["passed"]))
