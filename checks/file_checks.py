from vlib import *
W = "malloc calloc realloc free strdup strndup fopen fopen64 open open64 mkstemp fdopen fwrite fputs fputc write fflush fsync fdatasync fclose close rename unlink remove ftruncate fseek ftell fread read".split()
# scenario -> (traces per job, jobs)
PLAN = {"F01": {"files": (250, 3), "faults": (60, 3)}, "F02": {"files": (250, 3), "store": (300, 3)}}
def run(pid):
    c = Check(pid)
    thorough = TIER == "thorough"
    k = 20 if thorough else 1
    if pid == "F01":
        c.design("MC_File.tla", "MC_File.cfg")
        for bad in ("Temp", "Close", "Rename"): c.refute("MC_File.tla", "MC_FileBad%s.cfg" % bad)
    for variant in ("asan", "asannd"):
        exe = build_prog("h_file", variant, ["h_file.c", "seq.c"], wraps=W)
        jobs = [(s, SEED * 1000 + i, k * n, 900 if thorough else 60) for s, (n, m) in PLAN[pid].items() for i in range(m)]
        files, st = seq_run(exe, jobs, c.wd, timeout=3000)
        lines = merge_traces(files, os.path.join(c.wd, variant + ".ndjson"))
        c.traces("FileTrace.tla", "Trace.cfg", lines, label=variant)
    c.assumptions = ["the program stops, not the machine: what was written to the file system is kept", "a reader looks before and after every call that the write makes into the C library (the calls listed in checks/file_checks.py)",
                     "faults: any of these calls fails, the disk is full after any number of bytes, a missing directory, a directory in the way, over-long paths", "one thread writes a given path at a time", "TLC and its Json module"]
    return c.finish()
