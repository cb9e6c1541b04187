#!/usr/bin/env python3
"""quiet.py LIST: LIST defines E = [(name, [(file, old, new), ...], "ID ID"), ...]: edits which keep the behaviour; the checks named
must stay quiet on each of them (rc=0, no VIOLATION).  Several at a time (env JOBS), each with its own build directory."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(e):
    name, edits, ids = e
    d = tempfile.mkdtemp(prefix="qt-", dir="/tmp")
    res = []
    try:
        for x in ("src", "include", "VERSION"):
            s = os.path.join("/repo", x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
        for f, o, n in edits:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(o) < 1: return "%s PATTERN NOT FOUND %r" % (name, o[:60])
            open(p, "w").write(t.replace(o, n) if e[0].endswith("*") else t.replace(o, n, 1))
        for i in ids.split():
            r = subprocess.run(["python3", os.path.join(ROOT, "check.py"), i], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "-out", VERIF_BUILD=d + "-build", VERIF_NODESIGN="1", VERIF_CPUS="3"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            bad = r.returncode != 0 or "VIOLATION" in r.stdout
            if bad:
                k = "/tmp/qt-bad/%s-%s" % (name, i); shutil.rmtree(k, ignore_errors=True); os.makedirs(os.path.dirname(k), exist_ok=True)
                if os.path.isdir(d + "-out"): shutil.copytree(d + "-out", k)
            res.append("%s:%s" % (i, "ALARM rc=%d %s" % (r.returncode, " | ".join(x[:200] for x in r.stdout.strip().splitlines()[-3:])) if bad else "ok"))
    finally:
        for x in (d, d + "-out", d + "-build"): shutil.rmtree(x, ignore_errors=True)
    return "%s %s" % (name, "  ".join(res))
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for x in ex.map(one, [e for e in ns["E"] if not only or e[0] in only]): print(x, flush=True)
