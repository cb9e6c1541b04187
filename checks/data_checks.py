from vlib import *
WR = ["free", "malloc", "calloc", "realloc", "strdup"]
# which recorded histories lean towards a property: scenario -> share; the others run too, less often
LEAN = {"D01": {"own": 3, "copy": 1, "path": 1, "list": 1, "map": 1}, "D02": {"list": 4, "copy": 1, "long": 0.2}, "D03": {"vec": 3, "grid": 2, "long": 0.2}, "D04": {"map": 3, "big": 2},
        "D05": {"eq": 4, "map": 1, "grid": 1}, "D07": {"copy": 4, "path": 1}, "D08": {"path": 4, "eq": 1}, "D09": {"arr": 4, "vec": 1, "long": 0.2}, "D06": {"arr": 1}}
ALL = ["own", "list", "vec", "map", "eq", "copy", "path", "arr", "grid", "big"]
def run(pid):
    c = Check(pid)
    thorough = TIER == "thorough"
    k = 25 if thorough else 1
    c.design("MC_Data.tla", "MC_Data.cfg" if thorough else "MC_DataSmall.cfg", timeout=3000)
    lean = LEAN[pid]
    # histories of calls, with the allocator that frees at once and with the one that keeps blocks
    for variant, share in (("asan", 3), ("asannd", 2)):
        exe = build_prog("h_data", variant, ["h_data.c", "seq.c"], wraps=WR)
        jobs = [(s, SEED * 1000 + i, int(k * share * 40 * w), 600 if thorough else 60) for i, (s, w) in enumerate(lean.items())]
        jobs += [(s, SEED * 1000 + 500 + i, k * share * 8, 100 if thorough else 20) for i, s in enumerate(ALL) if s not in lean]
        files, st = seq_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["calls_" + variant] = sum(ln.count('],[') for ln in lines[:50]) * max(1, len(lines) // 50)
        c.traces("DataTrace.tla", "Trace.cfg", lines, label="calls-" + variant)
    if pid in ("D05", "D06"):
        exe = build_prog("h_num", "asan", ["h_num.c", "seq.c"])
        n = 150 if pid == "D06" else 60
        jobs = [("cast", SEED * 1000 + i, k * n, 300) for i in range(4)] + [("ncmp", SEED * 1000 + i, k * n, 300) for i in range(2)] + [("parse", SEED * 1000 + i, k * n // 2, 300) for i in range(3)]
        files, st = seq_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, "num.ndjson"))
        c.traces("NumTrace.tla", "Trace.cfg", lines, label="numbers")
    if pid == "D01":
        c.design("MC_Share.tla", "MC_Share.cfg")
        for variant in ("vs", "vsnd"):
            exe = build_prog("h_share", variant, ["h_share.c", "vsched.c"])
            jobs = [("two", "dfsm", SEED * 10 + i, k * 600, 2, 600 if thorough else 20) for i in range(6)]
            jobs += [("three", "fine", SEED * 10 + i, k * 150, 2, 600 if thorough else 20) for i in range(4)] + [("many", "fine", SEED, k * 150, 2, 600 if thorough else 20), ("many", "random", SEED, k * 150, 2, 600 if thorough else 20)]
            files, st = vs_run(exe, jobs, c.wd, timeout=3000)
            lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
            c.cov["executions_" + variant] = sum(s["runs"] for s in st)
            c.traces("ShareTrace.tla", "Trace.cfg", lines, label="threads-" + variant)
    c.assumptions = ["histories sampled by seed (random calls over every function of the data API), not enumerated", "values are read back through the public interface", "AddressSanitizer reports invalid accesses of the library", "TLC and its Json module"]
    if pid == "D01": c.assumptions.append("threads run one at a time (sequentially consistent memory), switched at every memory access")
    return c.finish()
