#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): mutate.py LANE NLANES PERFILE SEED
Applies single token mutations to a scratch clone of the library and runs the checks that should notice.
Prints one line per mutant: KILLED by X / SURVIVED / NOCOMPILE."""
import sys,os,re,random,subprocess,shutil,hashlib
lane,nl,per,seed=map(int,sys.argv[1:5]); only=sys.argv[5].split(",") if len(sys.argv)>5 else None
W="/tmp/mutwrk2_%d"%lane; R=W+"/repo"; V=W+"/verif"
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
subprocess.check_call(["git","clone","-q","/repo",R]); subprocess.check_call(["git","clone","-q","/verif",V]); subprocess.check_call(["git","clone","-q","/verif",V+"2"])
# first pass without sanitizers (fast build), the survivors with them
rp=open(V+"/run.py").read(); rp=rp.replace('"-O1","-g1","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-omit-frame-pointer"','"-O0","-g0"'); open(V+"/run.py","w").write(rp)
C={"char.hpp":"R01 E01 S01","charset_isolatin.hpp":"E02 E03 S02","charset_ucs.hpp":"E01 E03 S02 S05 S03","charset_utf16.hpp":"E01 E04 E03 S02 S05 S03","charset_utf8.hpp":"E01 E04 S03 S05 S02","codepages.hpp":"E02","cstringiterator.hpp":"S04 S05 S03","exception.hpp":"R01","istreamiterator.hpp":"I01 S04 S05 S10","ostreamoutput.hpp":"P02","sourceiterator.hpp":"R01 S03 S04 S10 S05","staticbuffer.hpp":"U01 P02","textscanner.hpp":"S01 S03 S04 S09 S10 E04 S02 S05","xmlhdrparser.hpp":"H01 R01","xmlpathautomaton.hpp":"X01 X02 X03 R01","xmlpathautomatonparse.hpp":"X02","xmlpathselect.hpp":"X01 X03","xmlprinter.hpp":"P01 P02","xmlscanner.hpp":"S01 S06 S07 R01 S08 S03 S09 S10 S04 S02 S05 X02 S11 B01","xmltagstack.hpp":"U02 P01"}
OPS=[(r"<=",["<"]),(r">=",[">"]),(r"==",["!="]),(r"!=",["=="]),(r"&&",["||"]),(r"\|\|",["&&"]),(r"(?<![<\-])<(?![<=a-zA-Z])",["<="]),(r"(?<![>\-])>(?![>=])",[">="]),(r"\+\+",["--"]),(r"--",["++"]),(r"(?<!\+)\+(?![\+=])",["-"]),(r"(?<!-)-(?![-=>1])",["+"]),(r"\+=",["-="]),(r"<<(?!=)",[">>"]),(r">>",["<<"]),(r"(?<![&])&(?![&=])",["|"]),(r"\|(?![|=])",["&"]),(r"\btrue\b",["false"]),(r"\bfalse\b",["true"]),(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])",["N+","N-"]),(r"!(?![=])",[""]),(r"\*(?=itr|m_)",[""])]
T=r"(?:std::size_t|unsigned int|size_t|PositionIndex|UChar|EChar|int)"
def mutants(f,text):
    """narrowed types, forgotten members of copies, swapped statements, constant conditions, other characters"""
    out=[]; pos=0; lines=text.split("\n"); starts=[]
    for l in lines: starts.append(pos); pos+=len(l)+1
    inc=False
    for n,l in enumerate(lines):
        s=l.strip(); st=starts[n]
        if inc:
            if "*/" in s: inc=False
            continue
        if s.startswith("/*"): inc="*/" not in s; continue
        if not s or s.startswith(("//","#","*")): continue
        code=re.sub(r'//.*$',lambda m:" "*len(m.group(0)),l)
        for m in re.finditer(r"(?<![\w:<])("+T+r")(?=\s+\w+\s*(?:\[\w*\s*\d*\]\s*)?(?:=[^=]|;|,|\)))",code):
            t=m.group(1)
            for r in (["short","signed char"] if t=="int" else ["unsigned short","unsigned char"]): out.append((n,st+m.start(1),st+m.end(1),r))
        for m in re.finditer(r"[,:]\s*(\w+)\((?:o|orig|o_|other)\.(\w+)\)",code): out.append((n,st+m.start(),st+m.end(),code[m.start()]+m.group(1)+"()"))
        m=re.match(r"^(\s*(?:else )?(?:if|while) ?\()(.*)(\)\s*(?:\{.*|.*;|))$",code)
        if m and m.group(2).count("(")==m.group(2).count(")"):
            for r in ("true","false"):
                if not ("while" in m.group(1) and r=="true"): out.append((n,st+m.start(2),st+m.end(2),r))
        for m in re.finditer(r"'([^'\\])'",code): out.append((n,st+m.start(),st+m.end(),"'"+chr(ord(m.group(1))^1)+"'"))
        if n+1<len(lines):
            a,b=l.strip(),lines[n+1].strip(); ok=lambda x: x.endswith(";") and not x.startswith(("return","break","continue","case","typedef","using","throw","}","for","if","else","public","static const char*","virtual","default")) and "//" not in x
            if ok(a) and ok(b) and a!=b and len(l)-len(l.lstrip())==len(lines[n+1])-len(lines[n+1].lstrip()): out.append((n,st,st+len(l)+1+len(lines[n+1]),lines[n+1]+"\n"+l))
    return out
rnd=random.Random(seed); jobs=[]
for f in sorted(C):
    if only and f not in only: continue
    t=open(R+"/include/textwolf/"+f).read(); ms=mutants(f,t); rnd.shuffle(ms)
    for m in ms[:per]: jobs.append((f,m))
rnd.shuffle(jobs)
env=dict(os.environ,TEXTWOLF_REPO=R,PBT_SCALE=os.environ.get("MUT_SCALE","0.4"))
for i,(f,(n,a,b,rep)) in enumerate(jobs):
    if i%nl!=lane: continue
    p=R+"/include/textwolf/"+f; t=open(p).read()
    mt=t[:a]+rep+t[b:]; open(p,"w").write(mt)
    desc="%s:%d %s  =>  %s"%(f,n+1," / ".join(t.split("\n")[n:n+2])[:150].strip(),"/".join(mt.split("\n")[n:n+2])[:150].strip())
    res="SURVIVED"
    for VV,c in [(V,c) for c in C[f].split()]+[(V+"2",c) for c in C[f].split()]:
        r=subprocess.run(["python3",VV+"/run.py",c,"quick"],cwd=VV,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
        if "BUILD-FAILED" in r.stdout: res="NOCOMPILE"; break
        if "VIOLATION" in r.stdout: res="KILLED by "+c+("+san" if VV!=V else ""); break
        if r.returncode: res="ODD rc=%d %s %s"%(r.returncode,c,r.stdout[-300:].replace("\n"," ")); break
    print(res,"|",desc,flush=True)
    open(p,"w").write(t)
shutil.rmtree(W,ignore_errors=True)
