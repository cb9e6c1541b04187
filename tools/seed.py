#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE NEEDS BREAKS < two parts separated by a line '=====': old text, new text.  Writes seeded/ID/patch.diff and meta.json"""
import json, os, subprocess, sys, tempfile, shutil
i, prop, f, needs, breaks = sys.argv[1:6]
old, new = sys.stdin.read().split("\n=====\n"); new = new.rstrip("\n") if not new.endswith("\n\n") else new[:-1]
d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
t = open("/repo/" + f).read()
assert t.count(old) == 1, "pattern occurs %d times" % t.count(old)
w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
for s in "ab":
    os.makedirs(os.path.dirname("%s/%s/%s" % (w, s, f)))
open("%s/a/%s" % (w, f), "w").write(t); open("%s/b/%s" % (w, f), "w").write(t.replace(old, new))
p = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=w, stdout=subprocess.PIPE, text=True).stdout
lines = p.splitlines(True); lines[0] = "--- a/%s\n" % f; lines[1] = "+++ b/%s\n" % f
open(d + "/patch.diff", "a" if os.environ.get("APPEND") else "w").write("".join(lines))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
