#!/usr/bin/env python3
"""vg.py SCALE PROPERTIES...: runs the harnesses built without sanitizers under valgrind (development tool: finds
values used uninitialised, in the harnesses and in the library)."""
import sys,os,subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,here)
import run
run.BUILD="/tmp/vg"
CXX=["g++","-std=gnu++14","-O1","-g1","-w"]
for p in sys.argv[2:]:
    objs,err=run.compile_units(run.units_of(p),CXX,run.tree_hash(),"vg")
    if err: print(p,err); continue
    exe="/tmp/vg/"+p; r=run.sh(CXX+objs+["-o",exe,"-lpthread"])
    if r.returncode: print(p,r.stdout); continue
    os.makedirs("/tmp/vg/r",exist_ok=True)
    try: r=run.sh(["valgrind","-q","--error-limit=no",exe,"--seed","7","--tier","quick","--jobs","1","--cap","200","--scale",sys.argv[1],"--replaydir","/tmp/vg/r"],timeout=600)
    except subprocess.TimeoutExpired: print(p,"timeout"); continue
    open("/tmp/vg/%s.log"%p,"w").write(r.stdout)
    n=sum(1 for l in r.stdout.split("\n") if "uninit" in l or "Invalid" in l)
    print(p,"rc",r.returncode,"errors",n,r.stdout.strip().split("\n")[-1][:120],flush=True)
