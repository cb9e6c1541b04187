#!/usr/bin/env python3
"""stry.py HARNESS VARIANT SPEC SCENARIO[,..] SEED COUNT [wrap,wrap]: run a sequential harness and validate, printing rejected events with context"""
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
h, v, spec, scs, seed, count = sys.argv[1:7]
wraps = [x for x in (sys.argv[7] if len(sys.argv) > 7 else "").split(",") if x]
exe = build_prog(h, v, [h + ".c", "seq.c"], wraps=wraps)
wd = workdir("try-" + h)
files, st = seq_run(exe, [(s, int(seed), int(count), 300) for s in scs.split(",")], wd)
lines = merge_traces(files, os.path.join(wd, "all.ndjson"))
ne = sum(len(json.loads(x)["ev"]) for x in lines)
t0 = time.time(); rej, s = validate(spec, "Trace.cfg", lines, wd); dt = time.time() - t0
print("%d traces %d events %d bytes; harness %s; TLC %.1fs; rejected %d" % (len(lines), ne, sum(map(len, lines)), [x["secs"] for x in st], dt, len(rej)))
c = collections.Counter()
for i, pos in rej:
    t = json.loads(lines[i]); e = t["ev"][pos - 1] if pos <= len(t["ev"]) else ["?"]
    c[(t["sc"], e[0], e[1] if e[0] in ("crash", "hang") else "")] += 1
for k, n in c.most_common(): print(n, k)
for i, pos in rej[:int(os.environ.get("SHOW", "3"))]:
    t = json.loads(lines[i]); print("---", t["sc"], t["seed"], "event", pos)
    for e in t["ev"][max(0, pos - int(os.environ.get("CTX", "4"))):pos]: print("  ", json.dumps(e, separators=(",", ":"))[:1500])
