#!/usr/bin/env python3
"""show.py DIR: one rejected execution per distinct kind of rejection"""
import json,sys,glob,collections
seen=collections.Counter()
for f in sorted(glob.glob(sys.argv[1]+"/violation-*.json")):
    v=json.load(open(f))
    if "trace" not in v: print(f, v); continue
    k=(json.dumps(v["event"][:1]) if v["event"] else None)
    seen[k]+=1
    if seen[k]<=int(sys.argv[2]) if len(sys.argv)>2 else seen[k]<=1:
        t=v["trace"]; print(f,v["event"],t["p"],t.get("sc"),t.get("seed")); print("   "," ".join(json.dumps(e,separators=(",",":")) for e in t["ev"][:v["rejected_at_event"]+3]))
print(dict(seen))
