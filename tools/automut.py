#!/usr/bin/env python3
"""automut.py FILE COUNT SEED [MAP] : random one-place mutants of a source file, each judged by the quick check(s) of the property its function belongs to (development aid).
MAP: 'regex=ID,ID;regex=ID' on the enclosing function's name, first match wins; env JOBS parallel mutants"""
import os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
f, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
MAP = [x.split("=") for x in (sys.argv[4] if len(sys.argv) > 4 else "").split(";") if x]
JOBS = int(os.environ.get("JOBS", "2")); LINES = os.environ.get("LINES")
L = open("/repo/" + f).read().split("\n")
skip = []; cand = []; func = ""
DEF = re.compile(r"__ZEPHYR__|_AZURESPHERE_|_WIN32|__APPLE__|_ALPINE_|__KERNEL__|IOT_ALPINE")
stack = []; comment = False
for n, l in enumerate(L):
    s = l.strip()
    if s.startswith("#if"):
        bad = bool(DEF.search(s)); neg = s.startswith("#ifndef") or "!" in s; stack.append((bad and not neg, bad and neg)); continue
    if s.startswith("#else") or s.startswith("#elif"):
        a, b = stack.pop(); stack.append((b, a)); continue
    if s.startswith("#endif"): stack and stack.pop(); continue
    if "/*" in s and "*/" not in s: comment = True
    if comment:
        if "*/" in s: comment = False
        continue
    m = re.match(r"^[a-z_].*?(\w+) \(.*\)\s*$", l)
    if m and not l.startswith(" "): func = m.group(1)
    if not l.startswith("  ") or any(a for a, b in stack) or not s or s.startswith(("//", "#", "/*", "*", "assert", "iot_log_", "case", "default", "static const")): continue
    code = l.split(" //")[0]
    ops = []
    def rep(a, b, pat=False):
        for x in re.finditer(a if pat else re.escape(a), code):
            ops.append(code[:x.start()] + (x.expand(b) if pat else b) + code[x.end():])
    for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), ("true", "false"), ("false", "true"), ("NULL", "NULL"), ("++", "--"), (" + ", " - "), (" - ", " + "), ("break;", ";"), ("continue;", ";"), (" | ", " & "), (" % ", " / "), (" << ", " >> ")):
        if a != b: rep(a, b)
    rep(r"\b(\d+)(u?)\b(?!\.)", lambda x: x, True) if False else None
    for x in re.finditer(r"(?<![\w.\"'])(\d+)(u|U|ul)?(?![\w.\"'])", code): ops.append(code[:x.start()] + str(int(x.group(1)) + 1) + (x.group(2) or "") + code[x.end():])
    if re.match(r"^\s+[^{}]*;\s*$", code) and not re.match(r"^\s+(return|break|continue|goto|(const |static |struct |unsigned |register )*[a-z_0-9]+(_t)? \*?\s?\*?[a-z_]+( =|;|\[)|(const |struct )?\w+ \*+ ?\w+( =|;))", code): ops.append(re.match(r"^\s+", code).group(0) + ";")
    m = re.match(r"^(\s+(?:else )?if \()(.*)(\)[^)]*)$", code)
    if m and m.group(2).count("(") == m.group(2).count(")"): ops.append(m.group(1) + "!(" + m.group(2) + ")" + m.group(3)); ops.append(m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3))
    for o in set(ops):
        if o != code: cand.append((n, func, code, o))
random.Random(seed).shuffle(cand)
def ids(fn):
    for r, i in MAP:
        if re.search(r, fn): return i.split(",")
    return []
cand = [c for c in cand if ids(c[1])]
print("%d candidates" % len(cand), flush=True)
def run(k):
    n, fn, a, b = cand[k]
    d = tempfile.mkdtemp(prefix="am-", dir="/tmp")
    try:
        for x in ("src/c", "include", "VERSION"):
            s = os.path.join("/repo", x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
        M = list(L); M[n] = b; open(os.path.join(d, f), "w").write("\n".join(M))
        inc = "-I%s/include" % d
        c = subprocess.run("gcc -fsyntax-only -w -D_GNU_SOURCE %s -DIOT_BUILD_COMPONENTS -DIOT_BUILD_DYNAMIC_LOAD %s/%s" % (inc, d, f), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if c.returncode: return None
        res = []
        for i in ids(fn):
            try: r = subprocess.run(["python3", "/verif/check.py", i], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "-out", VERIF_BUILD=d + "-build", VERIF_NODESIGN="1", VERIF_CPUS=str(8 // JOBS)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired: res.append("timeout"); continue
            res.append(r.returncode if r.returncode in (0, 1) else "err:" + r.stdout.strip()[-150:].replace("\n", " "))
            if r.returncode == 1: break
        return res
    finally: shutil.rmtree(d); [shutil.rmtree(d + x, ignore_errors=True) for x in ("-out", "-build")]
got = {"caught": 0, "missed": 0, "none": 0}
with cf.ThreadPoolExecutor(JOBS) as ex:
    for k, res in enumerate(ex.map(run, range(min(count, len(cand))))):
        n, fn, a, b = cand[k]
        if res is None: got["none"] += 1; continue
        if 1 in res: got["caught"] += 1; continue
        got["missed"] += 1
        print("MISSED %s %s:%d %s\n   - %s\n   + %s" % (res, f, n + 1, fn, a.strip()[:150], b.strip()[:150]), flush=True)
print(got)
