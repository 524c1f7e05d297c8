// H01: the header parser finds the declared encoding, however fed
#include "enc.hpp"
#include "textwolf.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include <memory>
#include <cstring>
using enc::U32;
namespace tw=textwolf;
PROPERTY(H01)
typedef tw::XmlHdrParser P;

static void blanks( pbt::Ctx& c, U32& o, bool need)
{
	static const uint32_t ws[]={' ','\n','\r','\t'}; unsigned k=(need?1:0)+c.pick({5,3,1,1}); if (c.chance(1,200)) k+=c.draw(300); while (k--) o.push_back( c.chance(3,4)?' ':c.of(ws));
}
static U32 value( pbt::Ctx& c, uint32_t quote, bool encoding)
{
	static const char* e[]={"UTF-8","utf-8","ISO-8859-1","isolatin-1","UTF-16BE","UCS-4LE","x","windows-1252"}; static const char* v[]={"1.0","1.1","yes","no",""," ","a b","?","?>","<","encoding='x'","=","&#65;"};
	U32 r; if (c.chance(1,60)) { static const unsigned L[]={15,16,31,32,33,63,64,65,127,128,255,256,257,1023,1024,4096}; unsigned n=c.of(L); for (unsigned i=0;i<n;++i) r.push_back( 'a'+i%23); return r; } if (encoding && c.chance(4,5)) return enc::u32(c.of(e));
	for (const char* p=c.of(v);*p;++p) if ((unsigned char)*p!=quote) r.push_back((unsigned char)*p);
	if (encoding && r.empty()) r.push_back('x'); return r;
}
static int genCs( pbt::Ctx& c){ static const int t[]={enc::UTF8,enc::UTF16LE,enc::UTF16BE,enc::UCS2BE,enc::UCS4LE,enc::UCS4BE,enc::LATIN}; return c.of(t); }
struct Hdr { U32 text; size_t end; U32 encoding; bool hasEnc, absent; Hdr():end(0),hasEnc(false),absent(false){} };   // end: number of characters after which the parser knows the end of the header
static Hdr genHdr( pbt::Ctx& c)
{
	Hdr h; if (c.chance(1,4)) blanks( c, h.text, false); h.text.push_back('<');
	if (c.chance(1,6)) { if (c.chance(1,6)) blanks(c,h.text,false); h.absent=true; static const uint32_t f[]={'a','z','A','Z','_','m'}; h.text.push_back( c.of(f)); h.end=h.text.size(); enc::cat(h.text,"oc encoding='nope'>text</doc>"); return h; }
	enc::cat(h.text,"?xml"); unsigned n=c.pick({1,4,4,3}); bool sep=false; static const char* nm[]={"version","encoding","standalone"}; unsigned first=c.draw(3);
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); unsigned a=c.chance(5,6)?(first+i)%3:c.draw(3); blanks( c, h.text, !sep || c.chance(9,10)); sep=true; enc::cat( h.text, nm[a]); blanks(c,h.text,false); h.text.push_back('='); blanks(c,h.text,false); uint32_t q=c.flip()?'"':'\''; U32 v=value( c, q, a==1);
		h.text.push_back(q); enc::cat(h.text,v); h.text.push_back(q); if (a==1) { h.hasEnc=true; h.encoding=v; }
	}
	if (n || c.flip()) blanks( c, h.text, false);
	h.text.push_back('?'); h.end=h.text.size(); h.text.push_back('>'); if (c.chance(3,4)) enc::cat( h.text, "\n<doc a='1'>x</doc>"); return h;
}
static std::string ascii( const U32& s){ std::string r; for (uint32_t ch: s) r+=(char)ch; return r; }
// the bytes, and for each character the offset of its one byte that is not null
static std::string bytesOf( const U32& t, int cs, std::vector<size_t>& off){ std::string r; for (uint32_t ch: t) { size_t b=r.size(); enc::put(cs,1,ch,r); while (b<r.size() && r[b]==0) ++b; off.push_back(b); } return r; }
static void feed( P& p, const std::string& b, size_t from, size_t n){ std::unique_ptr<char[]> m( new char[n?n:1]); memcpy( m.get(), b.data()+from, n); p.putInput( m.get(), n); }
static size_t cut( pbt::Ctx& c, size_t left){ switch (c.pick({3,3,2,2})) { case 0: return left; case 1: return 1; case 2: return std::min<size_t>( left, 1+c.draw(4)); default: return 1+c.draw(left); } }

LAW(declared_encoding, 1000000, 8000000, "the input is fed in at least two chunks or the encoding is not ASCII compatible")
{
	Hdr h=genHdr(c); int cs=genCs(c); std::vector<size_t> off; std::string b=bytesOf( h.text, cs, off); size_t done=off[h.end-1]+1;   // with this byte the end of the header is seen
	c.note( std::string(enc::csName(cs))+": "+enc::show(h.text)); c.key( enc::show(h.text)+enc::csName(cs));
	P base; if (c.chance(1,6)) { feed( base, "<?xml encoding='old'", 0, c.draw(21)); base.parse(); base.clear(); c.label("cleared before"); CHECK( base.encoding()==0 && base.lasterror()==0 && base.consumedData().empty() && base.charsConsumed()==0, "state left after clear()"); }
	std::unique_ptr<P> p( new P(base)); size_t pos=0; unsigned chunks=0; bool end=false; std::string how;
	while (!end)
	{
		size_t n=pos<b.size()?cut( c, b.size()-pos):0; CHECK( n>0, "all " << b.size() << " bytes fed without an answer"); feed( *p, b, pos, n); pos+=n; ++chunks; how+=" "+pbt::str(n); if (pos<b.size() && c.chance(1,8)) continue;   // several chunks before the next call of parse
		end=p->parse(); CHECK( p->lasterror()==0, "error '" << p->lasterror() << "' after " << pos << " bytes (chunks" << how << ")"); CHECK( end==(pos>=done), "parse() returns " << end << " after " << pos << " bytes (chunks" << how << "), the end of the header is seen with byte " << done);
		CHECK( p->consumedData()==b.substr(0,pos), "consumedData() does not return the " << pos << " bytes fed (chunks" << how << ")");
		if (c.chance(1,5)) { if (c.flip()) { std::unique_ptr<P> q( new P(*p)); p=std::move(q); } else { P q; feed( q, "<?xml version=", 0, c.draw(15)); q.parse(); q=*p; *p=q; } c.label("copied"); how+="c"; }
	}
	CHECK( p->lasterror()==0, "error '" << p->lasterror() << "' reported"); const char* e=p->encoding();
	CHECK( (e!=0)==h.hasEnc, "encoding() is " << (e?e:"NULL") << " instead of " << (h.hasEnc?ascii(h.encoding):"NULL") << " (chunks" << how << ")"); if (e) CHECK( ascii(h.encoding)==e, "encoding() is '" << e << "' instead of '" << ascii(h.encoding) << "' (chunks" << how << ")");
	CHECK( p->consumedData()==b.substr(0,pos), "consumedData() changed");
	if (chunks>1 || enc::unitSize(cs)>1) c.nontrivial(); c.label( enc::csName(cs)); if (h.absent) c.label("no header"); else c.label( h.hasEnc?"encoding declared":"no encoding declared");
}
LAW(malformed_refused, 300000, 4000000, "always (a malformed header)")
{
	// the defect follows a valid beginning; 'bad' is the number of characters up to and including the offending one
	struct M { const char* t; unsigned bad; }; static const M ms[]={{"x",1},{"text<a>",1},{"<!DOCTYPE a>",2},{"</a>",2},{"<1>",2},{"<>",2},{"<?yml ?>",6},{"<?xm ?>",5},{"<?xmlx ?>",7},{"<?xml>",6},{"<?xml1 ?>",6},{"<?xml=",6},{"<? ",3},{"<??>",3},{"<?x-",4},{"<?xml >",7},{"<?xml version='1.0'>",20},{"<?xml version='1.0' >",21},{"<?xml =",7},{"<?xml 1",7},{"<?xml ver='",10},{"<?xml versio =",13},{"<?xml encodings=",16},{"<?xml code ",11},{"<?xml Version=",14},{"<?xml version-",14},{"<?xml version?>",14},{"<?xml version>",14},{"<?xml version\"",14},{"<?xml version x",15},{"<?xml version ?",15},{"<?xml version \"1\"",15},{"<?xml version=1",15},{"<?xml version= x",16},{"<?xml version=?>",15},{"<?xml version=>",15},{"<?xml version==",15},{"<?xml version='1'=",18},{"<?xml version='1'\"",18},{"<?xml version='1' '",19},{"<?xml encoding='a' /",20},{"<?xml encoding='a' <",20},{"<&",2},{"<-",2},{"&",1},{">",1},{"?xml",1}};
	const M& m=c.of(ms); U32 t; unsigned lead=c.chance(1,4)?c.draw(3):0; for (unsigned i=0;i<lead;++i) t.push_back(' '); enc::cat(t,m.t); int cs=genCs(c); std::vector<size_t> off; std::string b=bytesOf( t, cs, off); size_t done=off[lead+m.bad-1]+1; c.note( std::string(enc::csName(cs))+": "+enc::show(t)); c.key( enc::show(t)+enc::csName(cs)); c.nontrivial();
	P p; size_t pos=0; std::string how;
	for (;;)
	{
		size_t n=pos<b.size()?cut( c, b.size()-pos):0; CHECK( n>0, "all " << b.size() << " bytes fed without an answer"); feed( p, b, pos, n); pos+=n; how+=" "+pbt::str(n); bool r=p.parse(); CHECK( !r, "malformed header accepted after " << pos << " bytes (chunks" << how << ")");
		const char* e=p.lasterror(); CHECK( (e!=0)==(pos>=done), (e?std::string("error '")+e+"'":std::string("no error")) << " after " << pos << " bytes (chunks" << how << "), the offending character ends with byte " << done);
		if (e) { CHECK( *e, "empty error text"); if (c.flip()) { P q(p); CHECK( q.lasterror() && std::string(q.lasterror())==e, "error lost in the copy"); } p.clear(); CHECK( p.lasterror()==0 && p.consumedData().empty(), "error not cleared"); break; }
	}
}
// a run of null bytes longer than any encoding produces
LAW(zero_runs, 200000, 2000000, "the run of null bytes is inside of a header and longer than 3")
{
	Hdr h; do { pbt::Ctx::SpanGuard g(c); h=genHdr(c); } while (0); std::string t=ascii(h.text); size_t at=c.draw( h.end); unsigned n=c.pick({1,1,1,1})==3?5+c.draw(12):1+c.draw(3); std::string b=t; b.insert( at, std::string(n,'\0')); c.note( pbt::quote(b)); c.key(b); if (n>3 && at) c.nontrivial();
	P p; size_t pos=0; bool thrown=false, end=false; std::string how;
	try { while (!end && pos<b.size()) { size_t k=cut( c, b.size()-pos); feed( p, b, pos, k); pos+=k; how+=" "+pbt::str(k); end=p.parse(); CHECK( p.lasterror()==0, "error '" << p.lasterror() << "'"); } }
	catch (const tw::exception& e) { thrown=true; CHECK( std::string(e.what())=="IllegalXmlHeader", "exception " << e.what() << " thrown"); }
	CHECK( thrown==(n>=5), n << " null bytes at " << at << (thrown?" refused":" accepted") << " (chunks" << how << ")"); if (!thrown) CHECK( end, "header not recognized with " << n << " null bytes inside");
	c.label( n>=5?"refused":"skipped");
}
// arbitrary bytes: the answer does not depend on the chunks, on copies or on what was parsed before a clear
LAW(chunk_invariance, 600000, 6000000, "the input is fed in at least two chunks and at least 4 bytes are consumed before the answer")
{
	static const char* tok[]={"<","?","xml"," ","=","'","\"","encoding","version","standalone",">","a","UTF-8","1.0","\n","<?xml ","<?xml encoding='x'","-","/","!","_","?>"}; std::string b; unsigned n=1+c.size(14); int cs=genCs(c); U32 t; if (c.chance(3,4)) { t=genHdr(c).text; unsigned e=c.draw(3); while (e--) { size_t at=c.draw(t.size()); if (c.flip()) t.erase( t.begin()+at, t.begin()+std::min<size_t>(t.size(),at+1+c.draw(3))); else { U32 x; enc::cat( x, c.of(tok)); t.insert( t.begin()+at, x.begin(), x.end()); } if (t.empty()) t.push_back('<'); } } else for (unsigned i=0;i<n;++i) enc::cat( t, c.of(tok)); std::vector<size_t> off; b=bytesOf( t, cs, off); unsigned mut=c.chance(1,4)?1+c.draw(3):0; while (mut--) b[c.draw(b.size())]=(char)c.draw(256);
	c.note( pbt::quote(b)); c.key(b);
	struct Ans { std::string what, encoding; size_t chars, at; } a, g;
	auto ask=[&]( P& p, std::string& what)->bool { try { bool r=p.parse(); if (r) what="end of header"; else if (p.lasterror()) what=std::string("error ")+p.lasterror(); else return false; } catch (const tw::exception& e) { what=std::string("exception ")+e.what(); } return true; };
	{ P p; a.at=b.size(); a.what="more"; for (size_t i=0;i<b.size();++i) { feed( p, b, i, 1); if (ask( p, a.what)) { a.at=i+1; break; } } a.encoding=p.encoding()?p.encoding():"(none)"; a.chars=p.charsConsumed(); }
	P p; if (c.chance(1,4)) { std::string junk; unsigned k=c.draw(4); while (k--) junk+=c.of(tok); feed( p, junk, 0, junk.size()); std::string w; ask( p, w); p.clear(); c.label("cleared before"); }
	g.what="more"; size_t pos=0; unsigned chunks=0; std::string how;
	while (pos<b.size()) { size_t k=cut( c, b.size()-pos); feed( p, b, pos, k); pos+=k; ++chunks; how+=" "+pbt::str(k); if (ask( p, g.what)) break; if (c.chance(1,6)) { P q(p); p=q; } }
	g.encoding=p.encoding()?p.encoding():"(none)"; g.chars=p.charsConsumed(); CHECK( p.consumedData()==b.substr(0,pos), "consumedData() differs from the bytes fed");
	CHECK( g.what==a.what, "chunks" << how << ": " << g.what << ", byte by byte: " << a.what); CHECK( g.encoding==a.encoding, "chunks" << how << ": encoding " << g.encoding << ", byte by byte: " << a.encoding); CHECK( g.chars==a.chars, "chunks" << how << ": " << g.chars << " characters consumed, byte by byte: " << a.chars);
	CHECK( pos>=a.at || a.what=="more", "answer after " << pos << " bytes, byte by byte after " << a.at);
	c.label( a.what.substr(0,a.what.find(' '))); if (chunks>1 && a.at>=4) c.nontrivial();
}
