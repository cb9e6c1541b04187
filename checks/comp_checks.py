from vlib import *
ASS = ["one thread runs at a time (sequentially consistent memory), switched at every access to shared memory in the fine modes", "schedules sampled by seed and enumerated depth-first with bounded preemptions", "TLC and its Json module"]
def component():
    c = Check("C01")
    thorough = TIER == "thorough"
    k = 20 if thorough else 1
    c.design("MC_Component.tla", "MC_Component.cfg" if thorough else "MC_ComponentSmall.cfg", timeout=3000)
    for variant in ("vs", "vsnd"):
        exe = build_prog("h_comp", variant, ["h_comp.c", "vsched.c"])
        jobs = [("random", "random", SEED * 1000 + i, k * 400, 2, 300 if thorough else 25) for i in range(5)]
        jobs += [("random", "fine", SEED * 1000 + 100 + i, k * 250, 2, 300 if thorough else 25) for i in range(4)]
        jobs += [("d%d" % i, "dfsm" if i in (3, 4) else "dfs", SEED, k * 800, 3 if thorough else 2, 300 if thorough else 20) for i in range(1, 10)]
        jobs += [("d%d" % i, "fine", SEED, k * 100, 2, 20) for i in range(1, 10)]
        files, st = vs_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["executions_" + variant] = sum(s["runs"] for s in st); c.cov["exhausted_" + variant] = [s["scenario"] for s in st if s["exhausted"]]
        c.traces("ComponentTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ASS
    return c.finish()
def container():
    c = Check("C02")
    thorough = TIER == "thorough"
    k = 20 if thorough else 1
    c.design("MC_Container.tla", "MC_Container.cfg" if thorough else "MC_ContainerSmall.cfg", timeout=3000)
    for variant in ("vs", "vsnd"):
        exe = build_prog("h_cont", variant, ["h_cont.c", "vsched.c"], wraps=list(WRAPS) + ["dlopen", "dlclose"])
        d = 300 if thorough else 25
        jobs = [("graph", "random", SEED * 1000 + i, k * 900, 2, d) for i in range(4)]
        jobs += [("find", "random", SEED * 1000 + 100 + i, k * 500, 2, d) for i in range(2)] + [("find", "fine", SEED * 1000 + 110 + i, k * 400, 2, d) for i in range(2)]
        jobs += [("live", "random", SEED * 1000 + 200 + i, k * 500, 2, d) for i in range(2)] + [("live", "fine", SEED * 1000 + 210 + i, k * 400, 2, d) for i in range(2)]
        jobs += [("p%d" % i, "dfs", SEED, k * 500, 3 if thorough else 2, d) for i in range(1, 9)] + [("p%d" % i, "fine", SEED, k * 150, 2, d) for i in range(1, 9)]
        files, st = vs_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["executions_" + variant] = sum(s["runs"] for s in st); c.cov["exhausted_" + variant] = [s["scenario"] for s in st if s["exhausted"]]
        c.traces("ContainerTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ASS + ["loading of components does not overlap with start, stop or free (not promised)"]
    return c.finish()
def run(pid):
    return component() if pid == "C01" else container()
