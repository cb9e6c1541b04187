from vlib import *
XW = "fputs fprintf fwrite fopen fclose socket setsockopt close sendto".split()
def run(pid):
    c = Check("L01")
    thorough = TIER == "thorough"
    k = 20 if thorough else 1
    c.design("MC_Logger.tla", "MC_Logger.cfg" if thorough else "MC_LoggerSmall.cfg", timeout=3000)
    for variant in ("vs", "vsnd"):
        exe = build_prog("h_log", variant, ["h_log.c", "vsched.c"], wraps=WRAPS + XW)
        d = 300 if thorough else 25
        jobs = [("seq", "random", SEED * 1000 + i, k * 600, 2, d) for i in range(2)] + [("conf", "random", SEED * 1000 + 10, k * 400, 2, d), ("file", "random", SEED * 1000 + 20, 20, 2, d)]
        jobs += [("many", "random", SEED * 1000 + 30 + i, k * 600, 2, d) for i in range(2)] + [("many", "fine", SEED * 1000 + 40 + i, k * 500, 2, d) for i in range(3)]
        jobs += [("d%d" % i, "dfs", SEED, k * 400, 3 if thorough else 2, d) for i in range(1, 7)] + [("d%d" % i, "fine", SEED, k * 300, 2, d) for i in range(1, 7)]
        files, st = vs_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["executions_" + variant] = sum(s["runs"] for s in st); c.cov["exhausted_" + variant] = [s["scenario"] for s in st if s["exhausted"]]
        c.traces("LoggerTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ["one thread runs at a time, switched at every access to shared memory in the fine modes", "what is written is observed at the boundary to the C library (fputs, fprintf, fwrite, sendto, fclose, close), not on the device",
                     "levels, start and stop of one logger are changed by one thread at a time; chains are not changed while a log call runs; chains have no cycles", "TLC and its Json module"]
    return c.finish()
