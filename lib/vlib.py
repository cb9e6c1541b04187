"""Common machinery: building the code under test from /repo's working tree, running recorded
executions through TLC, known findings, evidence and verdicts."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = int(os.environ.get("VERIF_CPUS", min(8, os.cpu_count() or 1)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

WRAPS = ("pthread_create pthread_join pthread_detach pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock "
  "pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait "
  "pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock "
  "pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_once pthread_setschedparam "
  "pthread_getschedparam sched_yield clock_gettime gettimeofday time nanosleep clock_nanosleep usleep sleep sem_init sem_destroy sem_post "
  "sem_wait sem_trywait malloc calloc realloc free strdup strndup memcpy memmove memset strlen strcmp").split()

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:200], p.stdout[-3000:]))
    return p.stdout

def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def repo_sources():
    d = os.path.join(REPO, "src/c")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".c") and f != "os.c"]

def repo_headers():
    r = []
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src/c")):
        for dp, _, fs in os.walk(base):
            if "utests" in dp or "cunit" in dp or "examples" in dp: continue
            r += [os.path.join(dp, f) for f in fs if f.endswith(".h") and f != "defs.h"]
    return r

COMMON = ["-std=gnu11", "-D_GNU_SOURCE", "-pthread", "-g", "-DIOT_BUILD_COMPONENTS", "-DIOT_BUILD_DYNAMIC_LOAD", "-w"]
VARIANTS = {
  # one thread at a time, every memory access a scheduling point
  "vs":    ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
  "vsnd":  ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DNDEBUG"],
  # sequential: address and undefined behaviour checks
  "asan":  ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
  "asannd": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DNDEBUG"],
  "plain": ["-O1"],
  "nd":    ["-O2", "-DNDEBUG"],
}

def build_lib(variant):
    """object files of the library, compiled from the working tree"""
    srcs = repo_sources()
    flags = COMMON + VARIANTS[variant]
    ver = open(os.path.join(REPO, "VERSION")).read().strip()
    key = _hash(srcs + repo_headers(), variant + " ".join(flags) + ver)
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    done = os.path.join(d, ".done")
    if not os.path.exists(done):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "iot"))
        with open(os.path.join(d, "iot", "defs.h"), "w") as f:
            f.write('#ifndef _IOT_DEFS_H_\n#define _IOT_DEFS_H_\n\n#define IOT_VERSION "%s"\n#define IOT_HAS_XML\n#define IOT_HAS_YAML\n#define IOT_HAS_CBOR\n#endif\n' % ".".join(ver.split(".")[:3]))
        def cc(s):
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            sh(["gcc"] + flags + ["-I", d, "-I", os.path.join(REPO, "include"), "-c", s, "-o", o])
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(cc, srcs))
        open(done, "w").close()
        _prune("lib-%s-" % variant, d)
    os.utime(d)
    return d, [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in srcs], flags

def _prune(prefix, keep):
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(prefix)]
    ds = sorted((x for x in ds if x != keep), key=lambda x: os.path.getmtime(x))
    for x in ds[:-3]: shutil.rmtree(x, ignore_errors=True)

def build_prog(name, variant, sources, extra_flags=(), libs=(), wraps=None, exclude=()):
    """link a harness with the library. Harness sources are compiled without instrumentation of their own."""
    d, objs, flags = build_lib(variant)
    srcs = [os.path.join(HARN, s) for s in sources]
    hdrs = [os.path.join(HARN, f) for f in os.listdir(HARN) if f.endswith(".h")]
    key = _hash(srcs + hdrs, d + " ".join(extra_flags) + " ".join(libs) + str(wraps) + str(exclude))
    pd = os.path.join(BUILD, "prog-%s-%s-%s" % (name, variant, key))
    exe = os.path.join(pd, name)
    if not os.path.exists(exe):
        shutil.rmtree(pd, ignore_errors=True); os.makedirs(pd)
        hflags = [f for f in flags if f != "-fsanitize=thread"]
        hobjs = []
        for s in srcs:
            o = os.path.join(pd, os.path.basename(s)[:-2] + ".o")
            sh(["gcc"] + hflags + list(extra_flags) + ["-I", d, "-I", os.path.join(REPO, "include"), "-I", HARN, "-c", s, "-o", o])
            hobjs.append(o)
        w = wraps if wraps is not None else (WRAPS if variant.startswith("vs") else [])
        link = ["gcc"] + [f for f in hflags if not f.startswith("-D")] + hobjs + [o for o in objs if os.path.basename(o) not in exclude]
        link += ["-Wl,--wrap=" + x for x in w] + ["-rdynamic", "-o", exe + ".tmp"] + list(libs) + ["-lyaml", "-ldl", "-lm"]
        sh(link)
        os.rename(exe + ".tmp", exe)
        _prune("prog-%s-%s-" % (name, variant), pd)
    os.utime(pd)
    return exe

def workdir(pid):
    d = os.path.join(OUT, "%s-%s" % (pid, TIER))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

# ---------------------------------------------------------------- executions under vsched
def vs_run(exe, jobs, wd, timeout=700):
    """jobs: list of (scenario, mode, seed, count, bound, maxsecs); returns (list of ndjson files, stats)"""
    def one(ij):
        i, (sc, mode, seed, count, bound, secs) = ij
        out = os.path.join(wd, "run-%03d.ndjson" % i)
        p = subprocess.run([exe, out, sc, mode, str(seed), str(count), str(bound), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        if p.returncode != 0: raise CheckError("harness failed: %s %s %s" % (exe, sc, p.stderr[-2000:]))
        st = json.loads(p.stdout.strip().splitlines()[-1]); st["scenario"] = sc; st["mode"] = mode
        return out, st
    with cf.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, enumerate(jobs)))
    return [r[0] for r in rs], [r[1] for r in rs]

def seq_run(exe, jobs, wd, timeout=800, env=None):
    """sequential harnesses; jobs: list of (scenario, seed, count, maxsecs)"""
    def one(ij):
        i, (sc, seed, count, secs) = ij
        out = os.path.join(wd, "run-%s-%03d.ndjson" % (os.path.basename(exe), i))
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"); e.update(env or {})
        p = subprocess.run([exe, out, sc, str(seed), str(count), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e)
        if p.returncode != 0: raise CheckError("harness failed: %s %s %s" % (exe, sc, p.stderr[-2000:]))
        st = json.loads(p.stdout.strip().splitlines()[-1]); st["scenario"] = sc
        return out, st
    with cf.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, enumerate(jobs)))
    return [r[0] for r in rs], [r[1] for r in rs]

def merge_traces(files, dest, limit=None):
    """distinct traces of several files into one; returns the list of raw lines"""
    seen = set(); lines = []
    for f in files:
        with open(f, errors="replace") as fh:
            for ln in fh:
                if not ln.strip(): continue
                t = ln.split('"ev":', 1)
                k = hashlib.md5((t[0].split('"sc"')[0] + t[1]).encode()).digest()
                if k in seen: continue
                seen.add(k)
                if len(ln) > 200000:   # a prefix of an execution is judged like the whole; keep its last event if that alone is wrong
                    j = json.loads(ln); last = j["ev"][-1]; j["ev"] = j["ev"][:1500] + ([last] if last[0] not in ("end",) else [])
                    ln = json.dumps(j, separators=(",", ":")) + "\n"
                lines.append(ln)
    if limit and len(lines) > limit: lines = lines[:limit]
    with open(dest, "w") as o: o.writelines(lines)
    return lines

# ---------------------------------------------------------------- TLC
def tlc(spec, cfg, env=None, workers=NCPU, heap="6g", timeout=800, extra=(), wd=None):
    """runs TLC in a private directory; returns (rc, output, stats)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=wd or OUT)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:ParallelGCThreads=4", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, spec)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, timeout=timeout, cwd=SPEC)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        rc, out = -9, (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = {"states": 0, "distinct": 0, "wall": round(time.time() - t0, 1)}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m: st["states"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
    return rc, out, st

def design_check(spec, cfg, **kw):
    """exhaustive check of the specification itself"""
    rc, out, st = tlc(spec, cfg, **kw)
    if rc != 0: raise CheckError("design check %s/%s failed (specification error, not the code):\n%s" % (spec, cfg, out[-5000:]))
    return st

def validate(spec, cfg, lines, wd, env=None, chunks=None, heap="5g", name="traces", timeout=None):
    """run recorded traces (raw ndjson lines) through a trace specification.
    returns (list of (index, position) rejected, stats). Every trace must come out ACCEPTed or REJECTed."""
    if not lines: return [], {"states": 0, "distinct": 0}
    timeout = timeout or (250 if TIER == "quick" else 5000)
    total = sum(len(x) for x in lines)
    n = chunks or max(1, min(4, total // 1500000 + 1))
    parts = [list(range(i, len(lines), n)) for i in range(n)]
    def one(k):
        idx = parts[k]
        f = os.path.join(wd, "%s-%d.ndjson" % (name, k))
        with open(f, "w") as o: o.writelines(lines[i] for i in idx)
        e = dict(env or {}); e["TRACES"] = f
        rc, out, st = tlc(spec, cfg, env=e, workers=max(1, NCPU // n), heap=heap, wd=wd, timeout=timeout)
        acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
        rej = {int(a): int(b) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)', out)}
        if (rc != 0 or len(acc | set(rej)) != len(idx)) and not rej:   # a rejection stands whatever became of the others
            raise CheckError("TLC did not decide every trace of %s (rc %d, %d accepted, %d rejected of %d):\n%s" % (f, rc, len(acc), len(rej), len(idx), out[max(0, out.find("Error:")):][:2500]))
        return [(idx[a - 1], b) for a, b in rej.items()], st
    with cf.ThreadPoolExecutor(n) as ex: rs = list(ex.map(one, range(n)))
    rej = sorted(r for x in rs for r in x[0])
    return rej, {"states": sum(x[1]["states"] for x in rs), "distinct": sum(x[1]["distinct"] for x in rs)}

# ---------------------------------------------------------------- findings and verdicts
def load_findings():
    """known-findings.txt: '<property> | <tag> | <text>' for recorded findings; 'fixed: ...' lines suppress nothing"""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"): continue
            a = [x.strip() for x in ln.split("|", 2)]
            if len(a) == 3: r.setdefault(a[0], []).append((a[1], a[2]))
    return r

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        os.makedirs(OUT, exist_ok=True); os.makedirs(BUILD, exist_ok=True)
        self.wd = workdir(pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
    def add_states(self, st):
        self.cov["states"] += st.get("distinct", 0); self.cov["transitions"] += st.get("states", 0)
    def design(self, spec, cfg, **kw):
        if os.environ.get("VERIF_NODESIGN"): return      # development aid (tools/automut.py), never set by a registered command
        st = design_check(spec, cfg, wd=self.wd, **kw)
        self.add_states(st)
        self.cov.setdefault("design", []).append({"spec": spec, "config": cfg, "distinct_states": st["distinct"], "transitions": st["states"]})
        print("design %s %s: %d distinct states in %.0fs" % (spec, cfg, st["distinct"], st["wall"]))
    def refute(self, spec, cfg, **kw):
        """a deliberately weakened protocol: TLC has to find the behaviour that breaks it (the properties are not vacuous)"""
        if os.environ.get("VERIF_NODESIGN"): return
        rc, out, st = tlc(spec, cfg, wd=self.wd, **kw)
        if rc not in (12, 13): raise CheckError("%s/%s should violate its properties, but TLC returned %d:\n%s" % (spec, cfg, rc, out[-2000:]))
        self.add_states(st); self.cov.setdefault("weakened_protocols_refuted", []).append(cfg)
    def traces(self, spec, cfg, lines, label="", classify=None, **kw):
        """validate; every rejected trace becomes a violation (or a known finding when classify names one)"""
        rej, st = validate(spec, cfg, lines, self.wd, name="traces-" + (label or "all"), **kw)
        if rej:   # a rejection counts only if it repeats
            sub = [lines[i] for i, _ in rej]
            rej2, _ = validate(spec, cfg, sub, self.wd, chunks=1, name="again-" + (label or "all"), **kw)
            if sorted(x for x, _ in rej2) != list(range(len(sub))): raise CheckError("rejections did not repeat")
        self.add_states(st)
        self.cov["traces_validated_against_impl"] += len(lines)
        self.cov.setdefault("trace_batches", []).append({"spec": spec, "label": label, "traces": len(lines), "trace_steps": st["distinct"]})
        for ln in lines[:1]:
            if len(self.cov["samples"]) < 4: self.cov["samples"].append(json.loads(ln) if len(ln) < 3000 else ln[:3000])
        for i, pos in rej: self.reject(spec, lines[i], pos, label, classify)
        print("%s %s: %d traces, %d rejected, %d states" % (spec, label, len(lines), len(rej), st["distinct"]))
        return rej
    def reject(self, spec, line, pos, label, classify=None):
        t = json.loads(line)
        tag = classify(t, pos) if classify else None
        if tag:
            for k, txt in load_findings().get(self.pid, []):
                if k == tag:
                    if (k, txt) not in self.known: self.known.append((k, txt))
                    return
        n = len(self.violations)
        rp = os.path.join(self.wd, "violation-%d.json" % n)
        if n < 20:
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "spec": spec, "label": label, "rejected_at_event": pos, "event": t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else None,
                           "how": "the recorded execution up to the event before it is a behaviour of the specification, with this event it is not", "trace": t}, f, indent=1)
        self.violations.append((rp, "%s %s: event %d %s" % (spec, t.get("sc", label), pos, json.dumps(t["ev"][pos - 1])[:300] if 0 < pos <= len(t["ev"]) else "?")))
    def violation(self, what, replay):
        n = len(self.violations)
        rp = os.path.join(self.wd, "violation-%d.json" % n)
        with open(rp, "w") as f: json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
        self.violations.append((rp, what))
    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k, txt in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        if self.violations:
            for rp, what in self.violations[:5]: print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][0]))
            return 1
        print("OK property=%s (%.0fs)" % (self.pid, time.time() - self.t0))
        # keep the working directory small on success
        for f in os.listdir(self.wd):
            if f.endswith(".ndjson"): os.unlink(os.path.join(self.wd, f))
        return 0
