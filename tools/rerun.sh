#!/bin/bash
# rerun.sh HARNESS VARIANT SCENARIO SEED RUN [wraps]: one run of a sequential harness, with its stderr
cd "$(dirname "$0")/.."
python3 - "$1" "$2" "$6" <<'P' > /tmp/rerun.exe
import sys; sys.path.insert(0,'/verif/lib')
from vlib import *
h,v,w=sys.argv[1:4]
print(build_prog(h, v, [h+".c","seq.c"], wraps=[x for x in w.split(",") if x]))
P
ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1 $(cat /tmp/rerun.exe) /tmp/rerun.out $3 $4 1 100 $5; cat /tmp/rerun.out.err | head -40; tail -c 600 /tmp/rerun.out
