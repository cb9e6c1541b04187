from vlib import *
W = ["free", "malloc", "calloc", "realloc", "strdup", "yaml_parser_parse", "yaml_event_delete", "yaml_parser_initialize", "yaml_parser_delete"]
# scenario -> (traces per job, jobs) in the quick tier
PLAN = {"J01": {"jprint": (170, 5), "jdoc": (90, 2)},
        "J02": {"jdoc": (150, 4), "jmut": (250, 3), "jall4": (80, 1), "jprint": (40, 1)},
        "E01": {"cbor": (200, 3), "cborbig": (32, 1), "xml": (130, 3), "yaml": (130, 3)},
        "B01": {"b64": (120, 4), "b64all": (8, 1)}}
DEEP = {"J02": {"jall5": (760, 1), "jall7": (3000, 1)}}
def run(pid):
    c = Check(pid)
    thorough = TIER == "thorough"
    k = 20 if thorough else 1
    c.design("MC_Text.tla", "MC_Text.cfg" if thorough else "MC_TextSmall.cfg", timeout=3000)
    plan = dict(PLAN[pid])
    if thorough: plan.update(DEEP.get(pid, {}))
    for variant in ("asan", "asannd"):
        exe = build_prog("h_text", variant, ["h_text.c", "seq.c"], wraps=W)
        jobs = []
        for s, (n, m) in plan.items():
            fixed = s.startswith("jall") or s in ("b64all", "cborbig")
            jobs += [(s, SEED * 1000 + i, n if fixed else k * n * (1 if variant == "asan" else 2) // 2, 900 if thorough else 60) for i in range(m)]
        files, st = seq_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.cov["calls_" + variant] = sum(ln.count('],[') for ln in lines[:50]) * max(1, len(lines) // 50)
        c.traces("TextTrace.tla", "Trace.cfg", lines, label="texts-" + variant)
    if pid == "E01":
        # negative integers: what they are written as is a recorded finding; that they are written as something consistent is not
        exe = build_prog("h_text", "asan", ["h_text.c", "seq.c"], wraps=W)
        files, st = seq_run(exe, [("cborneg", SEED * 1000 + i, k * 60, 600) for i in range(2)], c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, "neg.ndjson"))
        c.traces("TextTrace.tla", "Trace.cfg", lines, label="negative", env={"DEVIATES": "1"})
        rej, _ = validate("TextTrace.tla", "Trace.cfg", lines, c.wd, name="strict")
        if rej:
            i, pos = rej[0]
            c.reject("TextTrace.tla", lines[i], pos, "negative-strict", lambda t, p: "cbor-negative" if t["ev"][p - 1][0] == "cborneg" else None)
    c.assumptions = ["documents and values sampled by seed (and every short text over a small alphabet), not enumerated", "floating point numbers other than not-a-number", "AddressSanitizer reports invalid accesses of the library", "libyaml (outside this repository) reads YAML correctly", "TLC and its Json module"]
    return c.finish()
