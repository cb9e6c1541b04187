from vlib import *
def run(pid):
    c = Check(pid)
    thorough = TIER == "thorough"
    for k in "ABC": c.design("MC_Sched.tla", ("MC_Sched%s.cfg" if thorough else "MC_SchedSmall%s.cfg") % k)
    exe = build_prog("h_sched", "vs", ["h_sched.c", "vsched.c"])
    n = 6000 if thorough else 300
    jobs = [("random", "random", SEED * 1000 + i, n, 2, 200 if thorough else 25) for i in range(8)]
    dn = 10000 if thorough else 250
    jobs += [("d%d" % k, "dfs", SEED, dn, 3 if thorough else 2, 200 if thorough else 20) for k in range(1, 12)]
    jobs += [("d%d" % k, "random", SEED, dn, 3 if thorough else 2, 200 if thorough else 20) for k in range(1, 12)]
    jobs.append(("even", "random", SEED, dn if thorough else 80, 2, 200 if thorough else 20))
    files, st = vs_run(exe, jobs, c.wd)
    lines = merge_traces(files, os.path.join(c.wd, "all.ndjson"))
    c.cov["executions"] = sum(s["runs"] for s in st); c.cov["exhausted_scenarios"] = [s["scenario"] for s in st if s["exhausted"]]
    c.traces("SchedTrace.tla", "Trace.cfg", lines)
    c.assumptions = ["one thread runs at a time (sequentially consistent memory)", "virtual clock: time passes only while every thread waits", "schedules sampled by seed and enumerated depth-first with bounded preemptions", "TLC and its Json module"]
    return c.finish()
