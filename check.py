#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED=n)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib
FAMILY = {"Q": "queue_checks", "T": "pool_checks", "S": "sched_checks", "C": "comp_checks", "L": "logger_checks", "D": "data_checks",
          "J": "text_checks", "E": "text_checks", "B": "text_checks", "F": "file_checks", "M": "misc_checks", "U": "misc_checks", "G": "misc_checks", "H": "misc_checks"}
def main():
    if len(sys.argv) != 2: print(__doc__); return 2
    if sys.argv[1] == "--setup":
        os.makedirs(vlib.BUILD, exist_ok=True); os.makedirs(vlib.OUT, exist_ok=True)
        vlib.build_lib("vs")
        rc, out, st = vlib.tlc("MC_Queue.tla", "MC_QueueSmall.cfg")
        print("setup ok" if rc == 0 else out)
        return rc
    pid = sys.argv[1]
    try:
        return importlib.import_module(FAMILY[pid[0]]).run(pid)
    except vlib.CheckError as e:
        print("CHECK ERROR: %s" % e); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
