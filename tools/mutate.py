#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): mutate.py LANE NLANES PERFILE SEED
Applies single token mutations to a scratch clone of the library and runs the checks that should notice.
Prints one line per mutant: KILLED by X / SURVIVED / NOCOMPILE."""
import sys,os,re,random,subprocess,shutil,hashlib
lane,nl,per,seed=map(int,sys.argv[1:5]); only=sys.argv[5].split(",") if len(sys.argv)>5 else None
W="/tmp/mutwork%d"%lane; R=W+"/repo"; V=W+"/verif"
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
subprocess.check_call(["git","clone","-q","/repo",R]); subprocess.check_call(["git","clone","-q","/verif",V]); subprocess.check_call(["git","clone","-q","/verif",V+"2"])
# first pass without sanitizers (fast build), the survivors with them
rp=open(V+"/run.py").read(); rp=rp.replace('"-O1","-g1","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-omit-frame-pointer"','"-O0","-g0"'); open(V+"/run.py","w").write(rp)
C={"char.hpp":"R01 E01 S01","charset_isolatin.hpp":"E02 E03 S02","charset_ucs.hpp":"E01 E03 S02 S05 S03","charset_utf16.hpp":"E01 E04 E03 S02 S05 S03","charset_utf8.hpp":"E01 E04 S03 S05 S02","codepages.hpp":"E02","cstringiterator.hpp":"S04 S05 S03","exception.hpp":"R01","istreamiterator.hpp":"I01 S04 S05 S10","ostreamoutput.hpp":"P02","sourceiterator.hpp":"R01 S03 S04 S10 S05","staticbuffer.hpp":"U01 P02","textscanner.hpp":"S01 S03 S04 S09 S10 E04 S02 S05","xmlhdrparser.hpp":"H01 R01","xmlpathautomaton.hpp":"X01 X02 X03 R01","xmlpathautomatonparse.hpp":"X02","xmlpathselect.hpp":"X01 X03","xmlprinter.hpp":"P01 P02","xmlscanner.hpp":"S01 S06 S07 R01 S08 S03 S09 S10 S04 S02 S05 X02 S11 B01","xmltagstack.hpp":"U02 P01"}
OPS=[(r"<=",["<"]),(r">=",[">"]),(r"==",["!="]),(r"!=",["=="]),(r"&&",["||"]),(r"\|\|",["&&"]),(r"(?<![<\-])<(?![<=a-zA-Z])",["<="]),(r"(?<![>\-])>(?![>=])",[">="]),(r"\+\+",["--"]),(r"--",["++"]),(r"(?<!\+)\+(?![\+=])",["-"]),(r"(?<!-)-(?![-=>1])",["+"]),(r"\+=",["-="]),(r"<<(?!=)",[">>"]),(r">>",["<<"]),(r"(?<![&])&(?![&=])",["|"]),(r"\|(?![|=])",["&"]),(r"\btrue\b",["false"]),(r"\bfalse\b",["true"]),(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])",["N+","N-"]),(r"!(?![=])",[""]),(r"\*(?=itr|m_)",[""])]
def mutants(f,text):
    out=[]; inc=False
    pos=0
    for n,l in enumerate(text.split("\n")):
        s=l.strip(); start=pos; pos+=len(l)+1
        if inc:
            if "*/" in s: inc=False
            continue
        if s.startswith("/*"): inc="*/" not in s; continue
        if not s or s.startswith(("//","#","*","template","typedef","class","struct","namespace","using")): continue
        code=re.sub(r'//.*$','',l)
        masked=re.sub(r'"(\\.|[^"\\])*"',lambda m:'"'+"_"*(len(m.group(0))-2)+'"',code)
        if "template" in masked: continue
        for pat,reps in OPS:
            for m in re.finditer(pat,masked):
                if pat.startswith(("(?<![<","(?<![>")) and re.search(r"<\w+[^;]*>",masked) and "if" not in masked and "for" not in masked and "while" not in masked: continue
                for r in reps:
                    if r in("N+","N-"):
                        v=int(m.group(0),0); v=v+1 if r=="N+" else v-1
                        if v<0: continue
                        rep=("0x%X"%v) if m.group(0).startswith("0x") else str(v)
                    else: rep=r
                    out.append((n,start+m.start(),start+m.end(),rep))
        if re.match(r"^[\w\.\->\*\+\[\]\(\)]+.*;$",s) and not s.startswith(("return","break","continue","case","const","static","unsigned","int","bool","char","friend","virtual","std","size_t","throw","goto","public","enum")) and re.search(r"=|\(|\+\+|--",s) :
            out.append((n,start,start+len(l),""))
        elif s in("break;","continue;"): out.append((n,start,start+len(l),""))
    return out
rnd=random.Random(seed); jobs=[]
for f in sorted(C):
    if only and f not in only: continue
    t=open(R+"/include/textwolf/"+f).read(); ms=mutants(f,t); rnd.shuffle(ms)
    for m in ms[:per]: jobs.append((f,m))
rnd.shuffle(jobs)
env=dict(os.environ,TEXTWOLF_REPO=R,PBT_SCALE=os.environ.get("MUT_SCALE","0.4"))
for i,(f,(n,a,b,rep)) in enumerate(jobs):
    if i%nl!=lane: continue
    p=R+"/include/textwolf/"+f; t=open(p).read()
    mt=t[:a]+rep+t[b:]; open(p,"w").write(mt)
    desc="%s:%d %s  =>  %s"%(f,n+1,t.split("\n")[n].strip()[:110],(mt.split("\n")[n].strip()[:110] or "<deleted>"))
    res="SURVIVED"
    for VV,c in [(V,c) for c in C[f].split()]+[(V+"2",c) for c in C[f].split()]:
        r=subprocess.run(["python3",VV+"/run.py",c,"quick"],cwd=VV,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
        if "BUILD-FAILED" in r.stdout: res="NOCOMPILE"; break
        if "VIOLATION" in r.stdout: res="KILLED by "+c+("+san" if VV!=V else ""); break
        if r.returncode: res="ODD rc=%d %s %s"%(r.returncode,c,r.stdout[-300:].replace("\n"," ")); break
    print(res,"|",desc,flush=True)
    open(p,"w").write(t)
shutil.rmtree(W,ignore_errors=True)
