#!/usr/bin/env python3
"""mut.py FILE 'old' 'new' ID...   run checks against a scratch copy of /repo with one textual change (development aid)"""
import os, shutil, subprocess, sys, tempfile
f, old, new, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
occ = 1
if "@" in old[-3:] and old[-2] == "@": occ = int(old[-1]); old = old[:-2]
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
try:
    for x in ("src", "include", "VERSION"):
        s = os.path.join("/repo", x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
    p = os.path.join(d, f); t = open(p).read()
    if t.count(old) < occ: print("PATTERN NOT FOUND", t.count(old)); sys.exit(3)
    i = -1
    for _ in range(occ): i = t.index(old, i + 1)
    t = t[:i] + new + t[i + len(old):]
    open(p, "w").write(t)
    for i in ids:
        r = subprocess.run(["python3", "/verif/check.py", i], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "-out"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = [x for x in r.stdout.splitlines() if x.strip()]
        print("%s: rc=%d  %s" % (i, r.returncode, " | ".join(x[:160] for x in ls[-3:])))
finally:
    shutil.rmtree(d); shutil.rmtree(d + "-out", ignore_errors=True)
