#!/usr/bin/env python3
"""slow.py SPEC FILE SECS: which traces are not decided within SECS"""
import re,subprocess,sys,os
sys.path.insert(0,"/verif/lib"); from vlib import *
spec,f,secs=sys.argv[1],sys.argv[2],int(sys.argv[3])
L=open(f).read().splitlines(True)
todo=list(range(len(L)))
tmp="/tmp/slow.ndjson"
open(tmp,"w").writelines(L)
cmd=["timeout",str(secs),"java","-XX:+UseParallelGC","-Xmx6g","-Xss64m","-cp",JARS,"tlc2.TLC","-metadir","/tmp/slowmeta","-workers","8","-config",SPEC+"/Trace.cfg",SPEC+"/"+spec]
p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,TRACES=tmp),cwd=SPEC)
acc=set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>',p.stdout)); rej={int(a):int(b) for a,b in re.findall(r'<<"REJECT", (\d+), (\d+)',p.stdout)}
print(len(acc),"accepted",len(rej),"rejected",rej, "undecided",[i for i in range(1,len(L)+1) if i not in acc and i not in rej][:20])
