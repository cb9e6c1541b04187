from vlib import *
def run(pid):
    return {"M": times, "G": config, "U": ids, "H": threads}[pid[0]](Check(pid))
def times(c):
    thorough = TIER == "thorough"
    c.design("MC_Clock.tla", "MC_ClockBig.cfg" if thorough else "MC_Clock.cfg")
    for bad in ("Bump", "Equal", "Store"): c.refute("MC_Clock.tla", "MC_ClockBad%s.cfg" % bad)
    k = 15 if thorough else 1
    secs = 200 if thorough else 20
    for variant in ("vs", "vsnd"):
        exe = build_prog("h_time", variant, ["h_time.c", "vsched.c"])
        jobs = [(s, m, SEED * 1000 + i, k * n, 3 if thorough else 2, secs) for s, m, n, r in (("two", "dfs", 300, 8), ("three", "dfs", 150, 8), ("two", "fine", 100, 1), ("three", "random", 400, 2), ("many", "random", 400, 2), ("units", "random", 300, 2), ("wait", "random", 400, 2)) for i in range(r)]
        files, st = vs_run(exe, jobs, c.wd)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["executions_" + variant] = sum(s["runs"] for s in st)
        c.traces("ClockTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ["one thread runs at a time (sequentially consistent memory)", "the clock is the harness's: it stands still, creeps, steps back and jumps", "a wait may be late by a millisecond of scheduling", "TLC and its Json module"]
    return c.finish()
def config(c):
    c.design("MC_Config.tla", "MC_Config.cfg")
    thorough = TIER == "thorough"
    k = 20 if thorough else 1
    for variant in ("asan", "asannd"):
        exe = build_prog("h_conf", variant, ["h_conf.c", "seq.c"], wraps=["malloc", "calloc", "realloc", "free", "strdup", "strndup"])
        jobs = [(s, SEED * 1000 + i, n, 900 if thorough else 60) for s, n, r in (("subst", k * 150, 3), ("substall", 98 if thorough else 20, 1), ("get", k * 150, 4)) for i in range(r)]
        files, st = seq_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.traces("ConfTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ["texts and environments sampled by seed, and every text of up to five (thorough: six) letters of an alphabet of five", "names of more than 63 bytes may be refused", "AddressSanitizer reports invalid accesses", "TLC and its Json module"]
    return c.finish()
def ids(c):
    thorough = TIER == "thorough"
    c.design("MC_Ids.tla", "MC_Ids.cfg"); c.refute("MC_Ids.tla", "MC_IdsBadLock.cfg")
    k = 15 if thorough else 1
    secs = 200 if thorough else 20
    for variant in ("vs", "vsnd"):
        exe = build_prog("h_uuid", variant, ["h_uuid.c", "vsched.c"], wraps=WRAPS + ["getrandom"])
        jobs = [(s, m, SEED * 1000 + i, k * n, 3 if thorough else 2, secs) for s, m, n, r in (("two", "dfs", 300, 4), ("three", "dfs", 150, 4), ("two", "fine", 150, 2), ("three", "fine", 100, 2), ("three", "random", 200, 2), ("many", "random", 200, 2)) for i in range(r)]
        files, st = vs_run(exe, jobs, c.wd)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["executions_" + variant] = sum(s["runs"] for s in st)
        c.traces("IdsTrace.tla", "Trace.cfg", lines, label=variant)
    for variant in ("asan", "asannd"):
        exe = build_prog("h_ids", variant, ["h_ids.c", "seq.c"], wraps=["getrandom", "nanosleep"])
        jobs = [(s, SEED * 1000 + i, n, 600) for s, n, r in (("procs", k * 15, 1), ("many", k * 6, 2), ("text", 36 * k, 2), ("hash", 40 * k, 2)) for i in range(r)]
        files, st = seq_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.traces("IdsTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ["one thread runs at a time (sequentially consistent memory)", "processes get different random numbers from the system", "a bit that may vary and is the same in 160 identifiers does not vary", "TLC and its Json module"]
    return c.finish()
THREAD_WRAPS = ["pthread_create", "pthread_detach", "pthread_setschedparam", "pthread_setschedprio", "pthread_getschedparam", "sched_get_priority_min", "sched_get_priority_max", "geteuid", "sysconf", "pthread_mutex_init"]
def threads(c):
    thorough = TIER == "thorough"
    c.design("MC_Thread.tla", "MC_Thread.cfg")
    for bad in ("Join", "Silent", "Cache"): c.refute("MC_Thread.tla", "MC_ThreadBad%s.cfg" % bad)
    k = 15 if thorough else 1
    for variant in ("vs", "vsnd"):
        exe = build_prog("h_prio", variant, ["h_prio.c", "vsched.c"], wraps=WRAPS + ["sched_get_priority_min", "sched_get_priority_max"])
        jobs = [(s, m, SEED * 1000 + i, k * n, 3, 100 if thorough else 15) for s, m, n, r in (("two", "dfsm", 300, 2), ("three", "fine", 300, 4), ("two", "fine", 300, 2)) for i in range(r)]
        files, st = vs_run(exe, jobs, c.wd)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["executions_" + variant] = sum(s["runs"] for s in st)
        c.traces("ThreadTrace.tla", "Trace.cfg", lines, label=variant)
    for variant in ("asan", "asannd"):
        exe = build_prog("h_thread", variant, ["h_thread.c", "seq.c"], wraps=THREAD_WRAPS)
        jobs = [(s, SEED * 1000 + i, k * n, 600) for s, n, r in (("create", 400, 6), ("mutex", 10, 1)) for i in range(r)]
        files, st = seq_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.traces("ThreadTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ["the operating system is the harness's: it grants or refuses each request", "one thread runs at a time (sequentially consistent memory)", "TLC and its Json module"]
    return c.finish()
