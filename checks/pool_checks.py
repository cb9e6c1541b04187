from vlib import *
def run(pid):
    c = Check(pid)
    thorough = TIER == "thorough"
    c.design("MC_Pool.tla", "MC_Pool.cfg" if thorough else "MC_PoolSmall.cfg")
    exe = build_prog("h_pool", "vs", ["h_pool.c", "vsched.c"])
    n = 6000 if thorough else 450
    jobs = [("random", "random", SEED * 1000 + i, n, 2, 200 if thorough else 25) for i in range(8)]
    jobs += [("long", "random", SEED, 600 if thorough else 60, 2, 60)]
    dn = 20000 if thorough else 700
    jobs += [("d%d" % k, "dfs", SEED, dn, 3 if thorough else 2, 200 if thorough else 20) for k in range(1, 11)]
    files, st = vs_run(exe, jobs, c.wd)
    lines = merge_traces(files, os.path.join(c.wd, "all.ndjson"))
    c.cov["executions"] = sum(s["runs"] for s in st); c.cov["exhausted_scenarios"] = [s["scenario"] for s in st if s["exhausted"]]
    c.traces("PoolTrace.tla", "Trace.cfg", lines)
    c.assumptions = ["one thread runs at a time (sequentially consistent memory)", "schedules sampled by seed and enumerated depth-first with bounded preemptions", "TLC and its Json module"]
    return c.finish()
