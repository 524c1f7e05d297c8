#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications in tools/seeds/*.txt (development tool; no check reads it).
Format of a specification: sections '== name' with: property, file, old, new, needs, breaks, demo, flags (optional).
More than one edit: file2/old2/new2 ..."""
import sys,os,re,json,subprocess,shutil,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE='''#include "textwolf.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <cstring>
using namespace textwolf;
template <class S> static std::string events( S& s, unsigned mask=0xFFFF)
{
	std::string r;
	for (int n=0;n<10000;++n)
	{
		XMLScannerBase::ElementType t=s.nextItem((unsigned short)mask);
		r+=XMLScannerBase::getElementTypeName(t); 
		if (t==XMLScannerBase::ErrorOccurred) { const char* e=0; s.getError(&e); return r+"("+(e?e:"")+")"; }
		if (t==XMLScannerBase::Exit) return r;
		if (mask&(1<<t)) r+="("+std::string(s.getItemPtr(),s.getItemSize())+")";
		r+=" ";
	}
	return r+" NOEND";
}
template <class In, class Out> static std::string scan( const std::string& doc)
{
	XMLScanner<SrcIterator,In,Out,std::string> s( SrcIterator( doc.data(), doc.size()));
	return events( s);
}
static int eq( const std::string& got, const std::string& want)
{
	if (got==want) return 0;
	std::cerr << "got:  " << got << "\\nwant: " << want << std::endl; return 1;
}
'''
def spec(path):
    d={}; k=None
    for l in open(path):
        m=re.match(r"^== (\w+) ?(.*)$",l)
        if m: k=m.group(1); d[k]=m.group(2)+("\n" if m.group(2) else "")
        else: d[k]+=l
    return {k:v.rstrip("\n") for k,v in d.items()}
def main():
    want=sys.argv[1:]
    W="/tmp/seedwork"; shutil.rmtree(W,ignore_errors=True); subprocess.check_call(["git","clone","-q","/repo",W])
    for p in sorted(glob.glob(here+"/tools/seeds/*.txt")):
        sid=os.path.basename(p)[:-4]
        if want and sid not in want: continue
        d=spec(p); subprocess.check_call(["git","-C",W,"checkout","-q","--","."])
        bad=False
        for n in ("","2","3"):
            if "old"+n not in d: continue
            f=W+"/include/textwolf/"+(d.get("file"+n) or d["file"]); t=open(f).read()
            if t.count(d["old"+n])!=1: print(sid,"old%s found %d times"%(n,t.count(d["old"+n]))); bad=True; continue
            open(f,"w").write(t.replace(d["old"+n],d["new"+n]))
        if bad: continue
        diff=subprocess.run(["git","-C",W,"diff"],stdout=subprocess.PIPE,text=True).stdout
        # removed lines must be of the original repository
        cur=None; ln=0; removed=0
        for l in subprocess.run(["git","-C",W,"diff","-U0"],stdout=subprocess.PIPE,text=True).stdout.split("\n"):
            m=re.match(r"^--- a/(.*)",l)
            if m: cur=m.group(1)
            m=re.match(r"^@@ -(\d+)",l)
            if m: ln=int(m.group(1))
            elif l.startswith("-") and not l.startswith("---"):
                removed+=1
                b=subprocess.run(["git","-C",W,"blame","-s","-L%d,%d"%(ln,ln),"HEAD","--",cur],stdout=subprocess.PIPE,text=True).stdout
                if not b.startswith("^ae2f4bd"): print(sid,"touches a line of a fix:",b.strip()[:120])
                ln+=1
        if not removed: print(sid,"removes no original line")
        o=here+"/seeded/"+sid; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
        open(o+"/patch.diff","w").write(diff)
        open(o+"/demo.cpp","w").write(PRE+d["demo"]+"\n")
        if "demo2" in d: open(o+"/demo2.cpp","w").write(d["demo2"]+"\n")
        open(o+"/demo.sh","w").write('''#!/bin/bash
# run with cwd at the repository root: exit 0 if the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s -std=gnu++11 -O1 -w %s -I include "$d"/*.cpp -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''%(d.get("cxx","g++"),d.get("flags","")))
        os.chmod(o+"/demo.sh",0o755)
        json.dump(dict(property=d["property"].strip(),needs=d["needs"].strip(),what_it_breaks=d["breaks"].strip()),open(o+"/meta.json","w"),indent=1)
    shutil.rmtree(W,ignore_errors=True)
main()
