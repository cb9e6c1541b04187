#!/usr/bin/env python3
"""mutbatch.py LIST: LIST is a python file defining M = [(file, old, new, "ID ID"), ...]; runs tools/mut.py for each"""
import subprocess, sys, os
ns = {}; exec(open(sys.argv[1]).read(), ns)
T = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut.py")
for i, (f, o, n, ids) in enumerate(ns["M"]):
    r = subprocess.run(["python3", T, f, o, n] + ids.split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = r.stdout.strip()
    caught = "rc=1" in out
    print("%2d %s  %s -> %s\n     %s" % (i, "CAUGHT" if caught else "MISSED", o.strip()[:60].replace("\n", " "), n.strip()[:60].replace("\n", " "), out[:200].replace("\n", " ")), flush=True)
