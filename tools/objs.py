#!/usr/bin/env python3
"""objs.py FILE 'SC' 'SEED RUN' POS id..: events before POS that mention the ids"""
import sys, json
f, sc, seed, pos = sys.argv[1:5]; ids = [int(x) for x in sys.argv[5:]]
def has(x):
    return x in ids if isinstance(x, int) else any(has(y) for y in x) if isinstance(x, list) else False
for l in open(f):
    t = json.loads(l)
    if t["sc"] == sc and t["seed"] == seed:
        for n, e in enumerate(t["ev"][:int(pos)], 1):
            if has(e): print(n, json.dumps(e, separators=(",", ":"))[:400])
