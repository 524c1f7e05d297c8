#include "charlib.hpp"
#include "scancheck.hpp"
using namespace enc;
PROPERTY(E03)

// value of a numeric character reference written in the units of the encoding, 0 if it is none (surrounded by nothing else)
static uint32_t refValue( int cs, int page, const std::string& bytes)
{
	U32 s; if (!decode( cs, page, bytes, s)) return 0;
	if (s.size()<4 || s[0]!='&' || s[1]!='#' || s.back()!=';') return 0;
	size_t i=2; unsigned base=10; if (s[i]=='x') { base=16; ++i; }
	if (i+1>=s.size() || s.size()-1-i>15) return 0;
	uint64_t v=0;
	for (;i+1<s.size();++i)
	{
		uint32_t ch=s[i]; unsigned d= ch>='0'&&ch<='9'?ch-'0':ch>='a'&&ch<='f'?ch-'a'+10:ch>='A'&&ch<='F'?ch-'A'+10:99;
		if (d>=base) return 0;
		v=v*base+d; if (v>0xFFFFFFFFu) return 0;
	}
	return (uint32_t)v;
}
static void checkPrinted( pbt::Ctx& c, int cs, int page, uint32_t ch, const std::string& got)
{
	#define WHO csName(cs) << (cs==LATIN?" page ":" ") << page << " U+" << std::hex << ch << std::dec << " printed as " << pbt::quote(got)
	if (representable(cs,page,ch)) { std::string e; put(cs,page,ch,e); CHECK( got==e, WHO << " instead of " << pbt::hex(e)); }
	else CHECK( refValue(cs,page,got)==ch, WHO << ", not a reference to it");
}
static std::string printWith( const cl::Printer& p, uint32_t ch, int how)
{
	std::string s;
	if (how==1) { std::vector<char> v; p.print( ch, v); s.assign( v.begin(), v.end()); }
	else if (how==2) { char b[128]; textwolf::StaticBuffer sb( b, sizeof b); p.print( ch, sb); s.assign( sb.ptr(), sb.size()); }
	else p.print( ch, s);
	return s;
}

// all code points up to U+10FFFF in blocks of 4096 in the encodings that lack characters: UCS-2 (2), Latin (9 pages)
ENUM_LAW(all_characters, 272*11, "at least one character of the block is not representable")
{
	unsigned k=c.index()%11; int cs=k==0?UCS2LE:k==1?UCS2BE:LATIN, page=k<2?1:k-1; uint32_t from=c.index()/11*4096;
	std::unique_ptr<cl::Printer> p=cl::printer( cs, page); c.note( std::string(csName(cs))+" page "+pbt::str(page)+" characters "+pbt::str(from)+"...");
	for (uint32_t ch=from?from:1;ch<from+4096;++ch) if (!isSurrogate(ch)) { std::string o; p->print(ch,o); checkPrinted( c, cs, page, ch, o); if (!representable(cs,page,ch)) c.nontrivial(); }
}

LAW(characters, 300000, 10000000, "the encoding lacks the character")
{
	int cs=c.draw(8), page=cs==LATIN?c.range(1,9):1;
	uint32_t ch; switch (c.pick({2,2,2,1,1}))
	{
		case 0: ch=cl::genChar( c, UCS4LE, 1); break;
		case 1: ch=1+c.draw(0x10FFFF); break;
		case 2: ch=c.range(0x10000,0x7fffffff); break;
		case 3: { unsigned b=c.range(7,30); ch=(1u<<b)+c.draw(4)-2; break; }      // around powers of two
		default: { unsigned b=c.range(0,7); ch=c.range(1,15)<<(4*b); ch&=0x7fffffff; }   // trailing zero digits
	}
	if (!ch||isSurrogate(ch)) ch=1;
	std::unique_ptr<cl::Printer> p=cl::printer( cs, page); std::string got=printWith( *p, ch, c.draw(3));
	c.note( std::string(csName(cs))+" page "+pbt::str(page)+" U+"+pbt::str(ch)+" "+pbt::hex(got)); c.label(csName(cs)); c.key( pbt::str(cs*16+page)+"/"+pbt::str(ch));
	checkPrinted( c, cs, page, ch, got); if (!representable(cs,page,ch)) c.nontrivial();
}

// the reference written into a buffer of any size: complete and terminated or reported as too long, never beyond the buffer
LAW(buffer, 100000, 3000000, "the buffer is at most two bytes longer or shorter than needed")
{
	uint32_t ch; switch (c.draw(3)) { case 0: ch=cl::genChar( c, UCS4LE, 1); break; case 1: { unsigned b=c.range(1,31); ch=((uint32_t)1<<b)-(c.flip()?1:0); break; } default: ch=c.range(1,0x7fffffff); }
	if (!ch) ch=1; char w[32]; snprintf( w, sizeof w, "%x", ch); size_t need=strlen(w)+5; /* & # x ; and the null */ int d=c.chance(3,4)?c.range(0,4)-2:(int)c.draw(64)-(int)need; size_t n=(int)need+d<0?0:need+d;
	std::unique_ptr<char[]> mem( new char[n]); for (size_t i=0;i<n;++i) mem[i]=(char)0x5a; // of the exact size: the sanitizer sees any access behind
	bool ok=textwolf::charset::Encoder::encode( ch, mem.get(), n); c.note( "U+"+pbt::str(ch)+" into "+pbt::str(n)+" bytes"); c.key( pbt::str(ch)+"/"+pbt::str(n));
	if (d>=-2&&d<=2) c.nontrivial(); c.label( ok?"fits":"too long");
	if (ok) { CHECK( memchr( mem.get(), 0, n), "not terminated"); std::string s( mem.get()); CHECK( refValue( UTF8, 1, s)==ch, "U+" << std::hex << ch << " encoded as " << pbt::quote(s)); }
	else CHECK( n<need+8, "refused for a buffer of " << n << " bytes"); 
	if (n>=24) CHECK( ok, "refused for a buffer of " << n << " bytes"); if (n<9 && ch>0xFFFF) CHECK( !ok, "accepted for a buffer of " << n << " bytes");
}

// printed into a text and scanned: the same characters again
LAW(rescan, 60000, 2000000, "at least one character lacking in the encoding")
{
	int cs=c.draw(8), page=cs==LATIN?c.range(1,9):1; std::unique_ptr<cl::Printer> p=cl::printer( cs, page);
	U32 text; unsigned n=1+c.size(30); bool lack=false;
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c);
		uint32_t ch=cl::genChar( c, UCS4LE, 1); if (ch=='&'||ch=='<'||ch=='"'||ch=='\r'||ch==0) ch='a';
		text.push_back(ch); lack|=!representable(cs,page,ch);
	}
	bool attr=c.flip(); std::string doc=encode( cs, page, u32( attr?"<a b=\"":"<a>")); std::string body;
	std::vector<char> vec; std::string str; char raw[4096]; textwolf::StaticBuffer sb( raw, sizeof raw); int how=c.draw(3); std::string exp;
	for (uint32_t ch: text) { if (how==1) p->print(ch,vec); else if (how==2) p->print(ch,sb); else p->print(ch,str); }
	body= how==1?std::string(vec.begin(),vec.end()):how==2?std::string(sb.ptr(),sb.size()):str;
	doc+=body+encode( cs, page, u32( attr?"\"/>":"</a>"));
	sl::Cfg cfg; cfg.in=cs; cfg.page=page; cfg.out=UCS4BE; cfg.src=c.flip()?sl::CHUNKED:sl::CSTRING; cfg.stepLimit=doc.size()*8+1000;
	c.note( cfg.show()+": "+show(text)); c.note( pbt::quote(doc,2000)); c.key( cfg.show()+doc); if (lack) c.nontrivial();
	sl::Result r= cfg.src==sl::CHUNKED ? sl::scanChunked( cfg, doc, sc::genCuts(c,doc.size()), c.flip(), 0, 0, 100) : sl::scanAll( cfg, doc, 0, 0, 100);
	std::string want=encode( UCS4BE, 1, text); bool found=false;
	for (auto& e: r.ev) if (e.type==(attr?textwolf::XMLScannerBase::TagAttribValue:textwolf::XMLScannerBase::Content)) { CHECK( !found, "more than one value"); found=true; CHECK( e.value==want, "scanned as " << pbt::hex(e.value) << " instead of " << pbt::hex(want)); }
	CHECK( found, "no value scanned"); CHECK( r.ev.back().type==textwolf::XMLScannerBase::Exit, "the scan ends with " << r.ev.back().show());
}

// documents transcoded by the scanner into an encoding that lacks characters and scanned again
LAW(transcoded, 40000, 1200000, "a value with a character the output encoding lacks")
{
	sl::Cfg a; a.in=sc::genIn(c,&a.page); static const int O[]={LATIN,UCS2LE,UCS2BE,UTF16LE,UTF16BE,UTF8}; a.out=c.of(O); sc::genSource(c,a); a.ents=0;
	// <a> with attribute values and contents in alternation
	unsigned n=1+c.draw(5); std::vector<U32> vals; std::vector<bool> attr; U32 doc=u32("<a>"); bool lack=false;
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); U32 v; unsigned m=1+c.size(16);
		U32 src; for (unsigned k=0;k<m;++k)
		{
			uint32_t ch; bool ref=c.chance(1,3);
			ch=cl::genChar( c, ref?(int)UCS4LE:a.in, a.page);
			if (ch=='&'||ch=='<'||ch=='"'||ch=='\r'||ch=='>') ch='z';
			v.push_back(ch); lack|=!representable(a.out,1,ch);
			if (ref) cat( src, charRef(ch).c_str()); else src.push_back(ch);
		}
		bool at=c.flip(); vals.push_back(v); attr.push_back(at);
		if (at) { cat(doc,"<b c=\""); cat(doc,src); cat(doc,"\"/>"); } else { cat(doc,"<b>"); cat(doc,src); cat(doc,"</b>"); }
	}
	cat(doc,"</a>"); std::string bytes=encode( a.in, a.page, doc); a.stepLimit=bytes.size()*8+1000;
	c.note( a.show()+": "+show(doc,1500)); c.key( a.show()+bytes); if (lack) c.nontrivial(); c.label( csName(a.out));
	sl::Result r=sl::scanAll( a, bytes, 0, 0, 200); size_t k=0; std::string again=encode( a.out, 1, u32("<r>"));
	std::vector<std::string> got;
	for (auto& e: r.ev) if (e.type==textwolf::XMLScannerBase::TagAttribValue||e.type==textwolf::XMLScannerBase::Content)
	{
		CHECK( k<vals.size(), "too many values"); CHECK( (e.type==textwolf::XMLScannerBase::TagAttribValue)==attr[k], "event " << e.show() << " not expected");
		again+=encode( a.out, 1, u32("<v>"))+e.value+encode( a.out, 1, u32("</v>")); ++k;
	}
	CHECK( k==vals.size(), k << " values instead of " << vals.size());
	again+=encode( a.out, 1, u32("</r>"));
	sl::Cfg b; b.in=a.out; b.out=UCS4LE; b.src=sl::CSTRING; b.stepLimit=again.size()*8+1000; sl::Result q=sl::scanAll( b, again, 0, 0, 400); k=0;
	for (auto& e: q.ev) if (e.type==textwolf::XMLScannerBase::Content) { CHECK( k<vals.size(), "too many values in the re-scan"); CHECK( e.value==encode(UCS4LE,1,vals[k]), "value " << show(vals[k]) << " is " << pbt::hex(e.value) << " after transcoding to " << csName(a.out) << " and scanning again"); ++k; }
	CHECK( k==vals.size(), "re-scan has " << k << " values instead of " << vals.size());
}
