#!/usr/bin/env python3
"""vtry.py HARNESS VARIANT SPEC 'scenario:mode:seed:count:bound:secs ...': run a harness under vsched and validate, printing rejected events with context (env SHOW, CTX)"""
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
h, v, spec, js = sys.argv[1:5]
exe = build_prog(h, v, [h + ".c", "vsched.c"], wraps=WRAPS + os.environ.get("XWRAPS", "").split())
wd = workdir("try-" + h)
jobs = [(a, b, int(c), int(d), int(e), int(f)) for a, b, c, d, e, f in (j.split(":") for j in js.split())]
files, st = vs_run(exe, jobs, wd)
for s in st: print(s)
lines = merge_traces(files, os.path.join(wd, "all.ndjson"))
t0 = time.time(); rej, s = validate(spec, "Trace.cfg", lines, wd)
print("%d distinct traces, TLC %.1fs, rejected %d" % (len(lines), time.time() - t0, len(rej)))
c = collections.Counter()
for i, pos in rej:
    t = json.loads(lines[i]); e = t["ev"][pos - 1]; c[(t["sc"], e[0])] += 1
for k, n in c.most_common(): print(n, k)
for i, pos in rej[:int(os.environ.get("SHOW", "3"))]:
    t = json.loads(lines[i]); print("---", t["sc"], t.get("seed"), t["p"], "event", pos)
    for e in t["ev"][max(0, pos - int(os.environ.get("CTX", "12"))):pos]: print("  ", json.dumps(e, separators=(",", ":"))[:300])
