// C01: the same results whatever compiler, language standard, optimization, signedness of char and link order the program is built with
#include "scancheck.hpp"
#include "pathlib.hpp"
#include "variant.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <cstdio>
#include <cstdlib>
using enc::U32;
namespace var=textwolf::var;
PROPERTY(C01)
#ifndef REPO_INCLUDE
#define REPO_INCLUDE "/repo/include"
#endif
#define VARIANTS(X) X(a) X(b) X(c) X(d) X(e) X(f) X(g)
#define DECL(V) extern "C" void run_##V( const RawRequest*, RawOut, void*); extern "C" void early_##V( RawOut, void*); extern "C" void atend_##V( RawOut, void*);
VARIANTS(DECL)
struct Variant { const char* name; VariantRun run; VariantEarly early; VariantAtEnd atend; };
// the flags are those of run.py
static const char* const FLAGS[]={"g++ gnu++98 -O0","g++ gnu++98 -O0, second translation unit","g++ c++11 -O2, char unsigned, memory preset","g++ gnu++17 -O3, memory zeroed","clang++ gnu++98 -O1, char unsigned","clang++ c++20 -O2, memory preset","g++ gnu++23 -O1 with checked containers"};
#define ENTRY(V) {#V,run_##V,early_##V,atend_##V},
static const Variant variants[]={VARIANTS(ENTRY)};
enum {N=sizeof(variants)/sizeof(variants[0])};
static void out( void* s, const char* p, size_t n){ ((std::string*)s)->append( p, n); }
static std::string run( unsigned v, const var::Request& q)
{
	std::vector<const char*> s; std::vector<size_t> n; for (auto& x: q.s) { s.push_back( x.data()); n.push_back( x.size()); }
	RawRequest r={q.kind,q.in,q.out,q.page,q.src,s.data(),n.data(),s.size(),q.n.data(),q.n.size()}; std::string log; variants[v].run( &r, out, &log); return log;
}
static std::string firstDiff( const std::string& a, const std::string& b)
{
	size_t i=0; while (i<a.size() && i<b.size() && a[i]==b[i]) ++i; size_t l=i; while (l && a[l-1]!='\n') --l; l=std::max( l, i>150?i-150:0);
	auto piece=[&]( const std::string& s){ size_t e=s.find('\n',i); return s.substr( l, std::min( (e==std::string::npos?s.size():e)-l, (size_t)300)); }; return "'"+piece(a)+"' against '"+piece(b)+"'";
}
static void compare( pbt::Ctx& c, const var::Request& q, size_t minimal)
{
	std::string k=pbt::str(q.kind)+":"+pbt::str(q.in)+":"+pbt::str(q.out)+":"+pbt::str(q.page)+":"+pbt::str(q.src); for (auto& x: q.s) { k+=" "+pbt::quote(x,3000); } for (unsigned x: q.n) k+=" "+pbt::str(x); c.note( k); c.key( k);
	std::string ref=run( 0, q); if (ref.size()>=minimal) c.nontrivial();
	for (unsigned v=1;v<N;++v) { std::string r=run( v, q); CHECK( r==ref, FLAGS[0] << " differs from " << FLAGS[v] << ": " << firstDiff( ref, r)); }
}

LAW(scanning, 60000, 3000000, "at least 60 bytes of events logged")
{
	var::Request q; q.kind=var::Scan; q.in=sc::genIn( c, &q.page); q.src=c.pick({3,1,1,1}); q.out=c.pick({3,1})?(int)c.draw(8):0; bool well; q.s.push_back( sc::genInput( c, q.in, q.page, well)); if (q.s[0].size()>4000) q.s[0].resize(4000); unsigned n=c.draw(4); while (n--) q.n.push_back( c.draw(9));
	compare( c, q, 60); c.label( enc::csName(q.in)); c.label( well?"document":"arbitrary bytes");
}
static std::string anyText( pbt::Ctx& c, unsigned max)
{
	std::string r; unsigned n=c.size(max);
	while (n--) switch (c.pick({6,3,2,1,1})) { case 0: r+=(char)('a'+c.draw(26)); break; case 1: { static const char s[]="<>&\"' \n\r\t/="; r+=s[c.draw(11)]; break; } case 2: enc::put( enc::UTF8, 1, cl::genChar( c, enc::UTF8, 1), r); break; case 3: r+=(char)(128+c.draw(128)); break; default: r+=(char)c.draw(32); }
	return r;
}
LAW(printing, 60000, 3000000, "at least 60 bytes of results logged")
{
	var::Request q; q.kind=var::Print; q.in=c.draw(8); q.page=q.in==7?1+c.draw(9):1; q.out=c.flip(); unsigned n=1+c.size(14); bool hdr=!q.out;
	for (unsigned i=0;i<n;++i) { q.s.push_back( anyText( c, 12)); static const unsigned w[]={2,3,4,4,5,2,6,7,0,1,8}; q.n.push_back( (i==0&&hdr?0:c.chance(2,3)?w[c.draw(5)]:w[c.draw(11)])+9*c.draw(20)); }
	compare( c, q, 60); c.label( enc::csName(q.in));
}
LAW(selecting, 30000, 1500000, "at least 60 bytes of results logged and an expression selects something")
{
	xp::Pool p=xp::genPool( c, true); xp::Doc d; xp::genDoc( c, d, p, 10); var::Request q; q.kind=var::Path; static const int t[]={0,7,2}; q.in=c.of(t); U32 text=xp::render(d); q.s.push_back( enc::encode( enc::UTF8, 1, text)); unsigned n=1+c.draw(4);
	while (n--)
	{
		U32 x; unsigned k=c.draw(4); if (c.chance(1,6)) { static const char* tok[]={"a","/","//","@","*","[","]","(",")","{","}",",","~","1","'","=","'1'"," ",":","-","\xff"}; k=c.size(10); std::string s; while (k--) s+=c.of(tok); q.s.push_back(s); continue; }
		for (unsigned i=0;i<=k;++i) { enc::cat( x, c.flip()?"//":"/"); if (c.chance(1,4)) enc::cat( x, "*"); else enc::cat( x, c.of(p.names)); if (c.chance(1,5)) { enc::cat( x, "[@"); enc::cat( x, c.of(p.anames)); enc::cat( x, "='"); enc::cat( x, c.of(p.values)); enc::cat( x, "']"); } else if (c.chance(1,6)) { enc::cat( x, "["); enc::cat( x, pbt::str(c.draw(4)).c_str()); if (c.flip()) enc::cat( x, ",3"); enc::cat( x, "]"); } }
		switch (c.draw(4)) { case 0: enc::cat( x, "()"); break; case 1: enc::cat( x, "@"); enc::cat( x, c.of(p.anames)); break; case 2: enc::cat( x, "~"); break; }
		q.s.push_back( enc::encode( enc::UTF8, 1, x));
	}
	std::string ref=run( 0, q); compare( c, q, ref.find("{ ")!=std::string::npos||ref.find(" }")!=std::string::npos?60:1000000);
}
LAW(headers, 30000, 1500000, "at least 40 bytes of results logged")
{
	var::Request q; q.kind=var::Header; std::string s; static const char* tok[]={"<?xml"," version='1.0'"," encoding=\"UTF-8\""," encoding='iso-8859-1'"," standalone='yes'","?>","<a>"," ","\n","'","=","x","?","<","\xff","\xc3\xa9"}; unsigned n=c.size(6); if (c.chance(4,5)) s=tok[0]; while (n--) s+=c.of(tok); if (c.chance(4,5)) s+="?>\n<a/>";
	int cs=c.draw(8); U32 u=enc::u32(s); q.s.push_back( enc::encode( cs, 1, u)); if (c.chance(1,6)) q.s[0].insert( c.draw( q.s[0].size()+1), std::string( c.draw(9), '\0')); n=c.draw(4); while (n--) q.n.push_back( c.draw(16)); compare( c, q, 40);
}
LAW(characters, 60000, 3000000, "at least 60 bytes of results logged")
{
	var::Request q; q.kind=var::Chars; q.in=c.draw(8); q.page=q.in==7?1+c.draw(9):1; q.out=c.flip(); unsigned n=1+c.size(12); for (unsigned i=0;i<n;++i) q.n.push_back( c.chance(1,10)?(unsigned)c.draw(0)&0x7fffffffu:(unsigned)cl::genChar( c, c.flip()?q.in:(int)enc::UTF8, q.page));
	std::string b; if (c.flip()) b=anyText( c, 24); else { unsigned k=c.size(24); while (k--) b+=(char)c.draw(256); } q.s.push_back(b); compare( c, q, 60); c.label( enc::csName(q.in));
}
LAW(containers, 30000, 1500000, "at least 60 bytes of results logged")
{
	var::Request q; q.kind=var::Containers; unsigned n=1+c.size(40); while (n--) q.n.push_back( c.draw(960)); compare( c, q, 60);
}
// static objects of a program may use the library before and after main, with the results it has in between
ENUM_LAW(static_objects, N+1, "always")
{
	c.nontrivial(); if (c.index()==N) { var::Request q; q.kind=var::Texts; compare( c, q, 100); return; }
	const Variant& v=variants[c.index()]; c.note( FLAGS[c.index()]); c.key( FLAGS[c.index()]); var::Request q; q.kind=var::NofKinds; std::string now=run( c.index(), q), early; v.early( out, &early); CHECK( now.size()>3000, "only " << now.size() << " bytes of results"); CHECK( now==early, FLAGS[c.index()] << ": before main " << firstDiff( early, now)); CHECK( now==run( 0, q), FLAGS[c.index()] << ": differs from " << FLAGS[0]);
	int fd[2]; if (pipe(fd)!=0) throw pbt::Discard(); pid_t pid=fork(); if (pid<0) { close(fd[0]); close(fd[1]); throw pbt::Discard(); }
	if (pid==0) { close( fd[0]); v.atend( []( void* ctx, const char* p, size_t n){ int f=(int)(size_t)ctx; while (n) { ssize_t k=write( f, p, n); if (k<=0) break; p+=k; n-=k; } close( f); _exit(0); }, (void*)(size_t)fd[1]); exit( 3); }
	close( fd[1]); std::string late; char b[4096]; ssize_t k; while ((k=read( fd[0], b, sizeof b))>0) late.append( b, k); close( fd[0]); int st=0; waitpid( pid, &st, 0); CHECK( WIFEXITED(st) && WEXITSTATUS(st)==0, FLAGS[c.index()] << ": using the library in the destructor of a static object ends the process with " << st); CHECK( late==now, FLAGS[c.index()] << ": after main " << firstDiff( late, now));
}
// the headers can be included alone and in any order by any compiler and standard
static const char* const headers_[]={"textwolf.hpp","textwolf/char.hpp","textwolf/charset.hpp","textwolf/charset_interface.hpp","textwolf/charset_isolatin.hpp","textwolf/charset_ucs.hpp","textwolf/charset_utf16.hpp","textwolf/charset_utf8.hpp","textwolf/codepages.hpp","textwolf/cstringiterator.hpp","textwolf/exception.hpp","textwolf/istreamiterator.hpp","textwolf/ostreamoutput.hpp","textwolf/position.hpp","textwolf/sourceiterator.hpp","textwolf/staticbuffer.hpp","textwolf/textscanner.hpp","textwolf/traits.hpp","textwolf/version.hpp","textwolf/xmlhdrparser.hpp","textwolf/xmlpathautomaton.hpp","textwolf/xmlpathautomatonparse.hpp","textwolf/xmlpathselect.hpp","textwolf/xmlprinter.hpp","textwolf/xmlscanner.hpp","textwolf/xmltagstack.hpp"};
enum {NH=sizeof(headers_)/sizeof(headers_[0])};
static void compiles( pbt::Ctx& c, const std::string& text, const std::string& comp)
{
	std::string cmd="printf '"; for (char ch: text) if (ch=='\n') cmd+="\\n"; else cmd+=ch; cmd+="' | "+comp+" -w -fsyntax-only -I" REPO_INCLUDE " -x c++ - 2>&1"; c.note( cmd); c.key( cmd); FILE* f=popen( cmd.c_str(), "r"); if (!f) throw pbt::Discard();
	std::string o; char b[4096]; size_t k; while ((k=fread( b, 1, sizeof b, f))>0) if (o.size()<2000) o.append( b, k); int rc=pclose( f); if (WIFEXITED(rc) && WEXITSTATUS(rc)==127) throw pbt::Discard(); if (o.find("Killed")!=std::string::npos || o.find("out of memory")!=std::string::npos) throw pbt::Discard(); CHECK( rc==0, "does not compile: " << cmd << "\n" << o);
}
static const char* const stds[]={"98","gnu++98","11","14","17","20","23"};
static std::string compiler( pbt::Ctx& c){ std::string s=c.of(stds); return std::string(c.flip()?"g++":"clang++")+" -std="+(s[0]=='g'?s:"c++"+s); }
ENUM_LAW(single_header, NH, "always")
{
	c.nontrivial(); compiles( c, std::string("#include \"")+headers_[c.index()]+"\"\nint main(){}\n", c.index()%2?"g++ -std=gnu++98":"clang++ -std=c++17");
}
LAW(header_order, 60, 2500, "at least two headers")
{
	std::string t; unsigned n=1+c.size(8); if (n>1) c.nontrivial(); static const char* const std_[]={"string","vector","map","iostream","cstring","algorithm","cmath","stdint.h"}; 
	for (unsigned i=0;i<n;++i) { if (c.chance(1,5)) t+=std::string("#include <")+std_[c.draw(8)]+">\n"; t+=std::string("#include \"")+c.of(headers_)+"\"\n"; } if (c.chance(1,8)) t+="using namespace std;\nusing namespace textwolf;\n"; t+="int main(){}\n"; std::string comp=compiler(c); if (c.chance(1,4)) comp+=" -funsigned-char"; if (c.chance(1,6)) comp+=" -fno-rtti"; compiles( c, t, comp);
}
