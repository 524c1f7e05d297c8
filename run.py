#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: build the property's harness from /repo's working tree, search, report.
Exit 0: held on everything explored (known findings are printed); exit 1: VIOLATION line printed."""
import sys, os, json, subprocess, hashlib, time, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor

HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("TEXTWOLF_REPO","/repo")
H=os.path.join(HERE,"harness")
BUILD=os.path.join(HERE,"build")
CXX=["clang++","-std=gnu++14","-D_GLIBCXX_ASSERTIONS","-ftrivial-auto-var-init=pattern","-O1","-g0","-fsanitize=address,undefined","-fno-sanitize=pointer-overflow,function","-fno-sanitize-recover=all","-fno-omit-frame-pointer","-Wno-everything"]
TSANCXX=["clang++","-std=gnu++14","-O1","-g1","-fsanitize=thread","-fno-omit-frame-pointer","-Wno-everything"]
FUZZCXX=["clang++","-std=gnu++14","-D_GLIBCXX_ASSERTIONS","-O1","-g1","-fsanitize=fuzzer,address,undefined","-fno-sanitize-recover=all","-Wno-everything"]
CAP={"quick":240,"thorough":5400}

# which extra units a property links
SCANLIB=["B01","M01","E03","S01","S02","S03","S04","S05","S06","S07","S08","S09","S10","S11","I01","I02","P02","W01","T01","F01"]
PRINTLIB=["M01","P02","W01","T01","F01"]
FAULT=["F01"]   # allocations of the library are intercepted
TSAN=["T01"]
FUZZ_THOROUGH={"S03":600,"S05":900,"S04":400,"X02":400,"H01":300,"S07":300,"E04":200,"X01":600,"P02":400,"S06":400}

def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",**k)

def tree_hash():
    h=hashlib.sha256()
    for base in (os.path.join(REPO,"include"),):
        for d,_,fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith((".hpp",".h",".inc")):
                    p=os.path.join(d,f); h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()

def unit_hash(th,src,flags):
    h=hashlib.sha256(th.encode())
    for p in [os.path.join(H,src)]+sorted(glob.glob(H+"/*.hpp"))+sorted(glob.glob(H+"/*.inc")):
        h.update(p.encode()); h.update(open(p,"rb").read())
    h.update(" ".join(flags).encode())
    return h.hexdigest()[:24]

def compile_units(units,cxx,th,tag):
    """units: list of (src, extra flags). Returns (objects, error)"""
    os.makedirs(BUILD,exist_ok=True)
    jobs=[]
    for src,extra in units:
        flags=cxx+extra
        obj=os.path.join(BUILD,"%s-%s-%s.o"%(tag,os.path.splitext(src)[0]+"".join(extra).replace("-D","-").replace("=","").replace("/","").replace("\"",""),unit_hash(th if src!="engine.cpp" else "",src,flags)))
        jobs.append((src,flags,obj))
    def one(j):
        src,flags,obj=j
        if os.path.exists(obj): return None
        for old in glob.glob(obj.rsplit("-",1)[0]+"-*.o"):
            try:
                if time.time()-os.path.getmtime(old)>1800: os.unlink(old) # left from another version of the sources
            except OSError: pass
        tmp=obj+".tmp%d"%os.getpid()
        r=sh(flags+["-I",os.path.join(REPO,"include"),"-I",H,"-c",os.path.join(H,src),"-o",tmp])
        if r.returncode!=0: return r.stdout[-6000:]
        os.rename(tmp,obj); return None
    with ThreadPoolExecutor(8) as ex: errs=[e for e in ex.map(one,jobs) if e]
    return [j[2] for j in jobs], "\n".join(errs)

# C01: builds of the library that have to agree (see harness/variant.cpp)
VARIANTS=[("a","a",["g++","-std=gnu++98","-O0"]),("b","a",["g++","-std=gnu++98","-O0","-DVARIANT_REVERSED"]),
    ("c","c",["g++","-std=c++11","-O2","-funsigned-char","-ftrivial-auto-var-init=pattern"]),("d","d",["g++","-std=gnu++17","-O3","-DNDEBUG","-ftrivial-auto-var-init=zero"]),
    ("e","e",["clang++","-std=gnu++98","-O1","-funsigned-char"]),("f","f",["clang++","-std=c++20","-O2","-ftrivial-auto-var-init=pattern"]),
    ("g","g",["g++","-std=gnu++23","-O1","-D_GLIBCXX_DEBUG"])]

def build_variants(th):
    """Returns (objects, error, alarm): alarm if the library cannot be compiled in some of the configurations although it can in others"""
    def one(v):
        name,ns,cmd=v
        objs,err=compile_units([("variant.cpp",["-DVARIANT="+name,"-Dtextwolf=tw_"+ns])],cmd+["-w"],th,"var"+name)
        return objs[0],err,v
    with ThreadPoolExecutor(8) as ex: res=list(ex.map(one,VARIANTS))
    bad=[(v,e) for o,e,v in res if e]
    if not bad: return [o for o,_,_ in res],"",False
    return [],"\n".join("== %s\n%s"%(" ".join(v[2]),e) for v,e in bad),len(bad)<len(res)

def units_of(prop):
    u=[("engine.cpp",[]),("prop_%s.cpp"%prop,['-DREPO_INCLUDE="%s/include"'%REPO] if prop=="C01" else [])]
    if prop in SCANLIB: u+=[("scanlib.cpp",["-DSCANLIB_IN=%d"%i,"-O0"]) for i in range(8)]
    if prop in PRINTLIB: u+=[("printlib.cpp",["-DPRINTLIB_IO=%d"%i,"-O0"]) for i in range(8)]
    if prop in FAULT: u=u[:2]+[(a,b+["-include","fault.hpp"]) for a,b in u[2:]]
    return u

def build(prop,fuzz=False):
    th=tree_hash()
    cxx=FUZZCXX+["-DPBT_FUZZ"] if fuzz else TSANCXX+["-pthread"] if prop in TSAN else CXX
    objs,err=compile_units(units_of(prop),cxx,th,"fuzz" if fuzz else "tsan" if prop in TSAN else "pbt")
    if err: return None,err
    if prop=="C01":
        more,err,alarm=build_variants(th)
        if err: return None,("ALARM " if alarm else "")+err
        objs=objs+more
    exe=os.path.join(BUILD,"%s_%s"%("fuzz" if fuzz else "check",prop))
    r=sh(cxx+objs+["-o",exe+".tmp"])
    if r.returncode!=0: return None,("ALARM " if prop=="C01" else "")+r.stdout[-6000:]   # C01: each unit compiles, but several of them cannot be in one program
    os.rename(exe+".tmp",exe)
    if prop=="C01" and not fuzz:
        r=sh([exe,"--list"])
        if r.returncode!=0: return None,"ALARM the program ends before main with %d: %s"%(r.returncode,r.stdout[-3000:])
    return exe,None

def known(prop):
    out=[]
    p=os.path.join(HERE,"KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"finding: property=(\S+) id=(\S+) (.*)",l)
            if m and m.group(1)==prop: out.append((m.group(2),m.group(3).strip()))
    return out

def main():
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    t0=time.time()
    replays=os.path.join(HERE,"replays"); os.makedirs(replays,exist_ok=True); os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True)
    exe,err=build(prop)
    if err:
        # the harness uses the public interface only: if it does not compile the interface the property speaks of is gone
        path=os.path.join(replays,prop+"-build.log"); open(path,"w").write(err)
        if err.startswith("ALARM "): print(err[6:3000]); print("VIOLATION property=%s replay=%s"%(prop,path)); return 1
        print(err[-3000:]); print("BUILD-FAILED of the harness of %s (see %s)"%(prop,path)); return 2
    tb=time.time()-t0
    stats=os.path.join(BUILD,"stats_%s_%d.json"%(prop,os.getpid()))
    env=dict(os.environ); env.pop("ASAN_OPTIONS",None); env.pop("UBSAN_OPTIONS",None); env.pop("TSAN_OPTIONS",None)
    cmd=[exe,"--seed",str(seed),"--tier",tier,"--jobs","8","--cap",str(CAP[tier]),"--replaydir",replays,"--stats",stats]
    if os.environ.get("PBT_SCALE"): cmd+=["--scale",os.environ["PBT_SCALE"]]
    elif tier=="quick": cmd+=["--scale","0.6"]
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",env=env)
    sys.stdout.write(r.stdout); sys.stdout.flush()
    rc=r.returncode
    st=json.load(open(stats)) if os.path.exists(stats) else {}
    if os.path.exists(stats): os.unlink(stats)
    # known findings: probed on every run
    probes={}
    p=subprocess.run([exe,"--probe"],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",env=env)
    for l in p.stdout.splitlines():
        m=re.match(r"PROBE (\S+) (present|absent) ?(.*)",l)
        if m: probes[m.group(1)]=(m.group(2),m.group(3))
    listed=known(prop)
    for kid,what in listed:
        if probes.get(kid,("present",""))[0]=="present": print("KNOWN-FINDING: property=%s %s: %s"%(prop,kid,what))
    for kid,(state,what) in probes.items():
        if state=="present" and kid not in [k for k,_ in listed] and rc==0:
            path=os.path.join(replays,"%s-probe-%s.replay"%(prop,kid)); open(path,"w").write("property %s\nprobe %s\n%s\n"%(prop,kid,what))
            print("VIOLATION property=%s replay=%s"%(prop,path)); rc=1
    fuzz={}
    if rc==0 and tier=="thorough" and prop in FUZZ_THOROUGH and not os.environ.get("PBT_NOFUZZ"):
        rc,fuzz=fuzz_campaign(prop,seed,exe,replays,env,int(os.environ.get("PBT_FUZZTIME",FUZZ_THOROUGH[prop])))
    if rc not in (0,1):
        # no verdict from the search itself (for example a failure that does not reproduce): say so, do not raise an alarm
        print("note: search ended with code %d; stderr: %s"%(rc,r.stderr[-1500:]))
        if rc==4: rc=0
    laws=st.get("laws",{})
    rule="Each case is generated from a seeded choice sequence by one of the laws; non-trivial per law: "+"; ".join("%s: %s"%(k,v["rule"]) for k,v in laws.items())
    ev=dict(property=prop,tier=tier,seed=seed,level="fault_enumeration" if prop=="I01" else "exploration",
        coverage=dict(evaluations=st.get("evaluations",0),distinct_nontrivial=st.get("distinct_nontrivial",0),rule=rule,
            samples=st.get("samples",[]),laws={k:dict(cases=v["cases"],nontrivial=v["nontrivial"]) for k,v in laws.items()},
            labels=st.get("labels",{}),discarded=st.get("discarded",0),time_cap_hit=st.get("time_cap_hit",False),
            enumerated_laws=[k for k,v in laws.items() if v["enumerated"]],**({"fuzz":fuzz} if fuzz else {})),
        assumptions=["gcc/clang address and undefined-behaviour sanitizers","the reference models in harness/ written from the standards and the documentation"],
        wall_s=round(time.time()-t0,2),violations=1 if rc==1 else 0)
    ev["coverage"]["build_wall_s"]=round(tb,2)
    ev["coverage"]["known_findings"]=[k for k,_ in listed]
    json.dump(ev,open(os.path.join(HERE,"evidence",prop+".json"),"w"),indent=1)
    return rc

def fuzz_campaign(prop,seed,exe,replays,env,secs):
    fexe,err=build(prop,True)
    if err: print("fuzz build failed: "+err[-2000:]); return 0,dict(error="build failed")
    work=os.path.join(BUILD,"fuzzwork_"+prop); shutil.rmtree(work,ignore_errors=True); os.makedirs(work+"/corpus"); os.makedirs(work+"/art")
    # seed corpus: pseudo random byte strings, a pure function of the seed
    x=hashlib.sha256(b"%d"%seed)
    for i in range(64):
        b=b""
        while len(b)<16*(i+1): x.update(b"."); b+=x.digest()
        open("%s/corpus/s%02d"%(work,i),"wb").write(b[:16*(i+1)])
    ps=[]
    for j in range(8):
        log=open("%s/log%d"%(work,j),"w")
        e=dict(env); 
        ps.append(subprocess.Popen([fexe,work+"/corpus","-seed=%d"%(seed*100+j+1),"-max_total_time=%d"%secs,"-max_len=4096","-len_control=20","-reload=1","-timeout=25","-rss_limit_mb=3000","-artifact_prefix=%s/art/"%work,"-print_final_stats=1"],stdout=log,stderr=subprocess.STDOUT,env=e))
    for p in ps: p.wait()
    execs=0; cov=0
    for j in range(8):
        t=open("%s/log%d"%(work,j),errors="replace").read()
        m=re.findall(r"stat::number_of_executed_units:\s*(\d+)",t); execs+=int(m[-1]) if m else 0
        m=re.findall(r"cov: (\d+)",t); cov=max(cov,int(m[-1]) if m else 0)
    arts=sorted(glob.glob(work+"/art/*"))
    rc=0
    for a in arts:
        r=subprocess.run([exe,"--bytes",a,"--replaydir",replays],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",env=env)
        sys.stdout.write(r.stdout)
        if r.returncode==1: rc=1; break
    corpus=len(os.listdir(work+"/corpus"))
    shutil.rmtree(work,ignore_errors=True)
    return rc,dict(executions=execs,coverage_edges=cov,corpus=corpus,artifacts=len(arts),seconds=secs)

if __name__=="__main__": sys.exit(main())
