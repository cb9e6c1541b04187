#!/usr/bin/env python3
"""cov.py PROPERTY...: which lines of the library the checks of these properties execute (gcov), listing those never executed.
Runs the jobs of the check with a share (SHARE, default 0.1) of their counts; builds under /tmp/cov."""
import sys, os, glob, json, re, shutil, subprocess
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", x) for x in ("lib", "checks", "")]
import vlib
D = "/tmp/cov"; os.makedirs(D, exist_ok=True)
vlib.BUILD = D + "/build"; vlib.OUT = D + "/out"
os.makedirs(vlib.BUILD, exist_ok=True)
cov = D + "/gcov_exit.c"
open(cov, "w").write("void __real__exit (int); void __gcov_dump (void); void __wrap__exit (int c) { __gcov_dump (); __real__exit (c); }\n")
share = float(os.environ.get("SHARE", "0.1"))
for k in vlib.VARIANTS: vlib.VARIANTS[k] = ["-O0", "--coverage", "-fprofile-update=atomic"] + [f for f in vlib.VARIANTS[k] if f == "-DNDEBUG"]
bp = vlib.build_prog
def build_prog(name, variant, sources, extra_flags=(), libs=(), wraps=None, exclude=()):
    w = list(wraps if wraps is not None else (vlib.WRAPS if variant.startswith("vs") else []))
    return bp(name, variant, list(sources) + [os.path.relpath(cov, vlib.HARN)], extra_flags, libs, w + ["_exit"], exclude)
vr, sr = vlib.vs_run, vlib.seq_run
def less(n): return max(2, int(n * share))
def vs_run(exe, jobs, wd, **k): return vr(exe, [(a, "random" if m.startswith("dfs") else m, s, less(n), b, t) for a, m, s, n, b, t in jobs], wd, **k)
def seq_run(exe, jobs, wd, **k): return sr(exe, [(j[0], j[1], less(j[2])) + tuple(j[3:]) for j in jobs], wd, **k)
vlib.build_prog, vlib.vs_run, vlib.seq_run = build_prog, vs_run, seq_run
vlib.Check.design = lambda *a, **k: None
vlib.Check.refute = lambda *a, **k: None
vlib.Check.traces = lambda *a, **k: []
vlib.Check.finish = lambda s: 0
vlib.validate = lambda *a, **k: ([], {})
import importlib
mods = {}
src = open(os.path.join(vlib.VERIF, "check.py")).read()
for f in glob.glob(os.path.join(vlib.VERIF, "checks", "*_checks.py")):
    m = importlib.import_module(os.path.basename(f)[:-3]); mods[os.path.basename(f)[:-3]] = m
pref = {"Q": "queue_checks", "T": "pool_checks", "S": "sched_checks", "C": "comp_checks", "L": "logger_checks", "D": "data_checks", "J": "text_checks", "E": "text_checks", "B": "text_checks", "F": "file_checks", "G": "misc_checks", "M": "misc_checks", "U": "misc_checks"}
for p in sys.argv[1:]:
    m = mods[pref[p[0]]]
    try: (getattr(m, "run_" + p, None) or m.run)(p)
    except Exception as e: print(p, "stopped:", str(e)[:300])
hit = {}
for g in glob.glob(vlib.BUILD + "/lib-*"):
    if not glob.glob(g + "/*.gcda"): continue
    out = subprocess.run("gcov --stdout *.gcda", shell=True, cwd=g, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
    f = None
    for ln in out.splitlines():
        m = re.match(r"\s*-:\s+0:Source:(.*)", ln)
        if m: f = m.group(1); continue
        m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", ln)
        if not m or f is None or not f.startswith(vlib.REPO): continue
        c, n = m.group(1).strip(), int(m.group(2))
        if c == "-" or n == 0: continue
        d = hit.setdefault(f, {}); d[n] = d.get(n, 0) + (0 if c.startswith("#") or c.startswith("=") else 1)
for f in sorted(hit):
    miss = [n for n, c in sorted(hit[f].items()) if not c]
    print("== %s: %d of %d lines never executed" % (os.path.relpath(f, vlib.REPO), len(miss), len(hit[f])))
    L = open(f, errors="replace").read().splitlines()
    if len(miss) < len(hit[f]) * 0.9:
        for n in miss: print("%5d %s" % (n, L[n - 1][:150]))
