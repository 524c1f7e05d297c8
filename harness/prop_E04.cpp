#include "charlib.hpp"
using namespace enc;
PROPERTY(E04)

// One expected character: v==ANY means unspecified
static const uint32_t NOASCII=0xFFFFFFF0u;   // anything but an ordinary ASCII character
struct Exp { uint32_t v; size_t at; unsigned len; bool alt; uint32_t altv; };

static std::vector<Exp> decodeRule( int cs, const std::string& b)
{
	std::vector<Exp> r; size_t i=0,n=b.size();
	#define B(k) ((k)<n?(uint32_t)(unsigned char)b[k]:0u)
	while (i<n)
	{
		Exp e; e.at=i; e.alt=false; e.altv=0;
		if (cs==UTF8)
		{
			uint32_t c=B(i);
			if (c<0x80){ e.v=c; e.len=1; }
			else if (c<0xC0){ e.v=0x7FFFFFFF; e.len=1; }
			else
			{
				unsigned k=c<0xE0?2:c<0xF0?3:c<0xF8?4:c<0xFC?5:c<0xFE?6:c==0xFE?7:8; bool ok=true;
				uint32_t v=c&(0x7F>>k);
				for (unsigned j=1;j<k;++j){ uint32_t d=B(i+j); if (d<0x80||d>0xBF) ok=false; v=v*64+(d&0x3F); }
				if (ok && k>6) throw pbt::Discard(); // 0xFE and 0xFF with all continuation bytes: no character at all, nothing specified
				e.len=k; e.v=ok?v:0x7FFFFFFF;
				if (ok){ std::string chk; put(UTF8,0,v,chk); if (chk.size()!=k||isSurrogate(v)){ e.alt=true; e.altv=0x7FFFFFFF; } }
			}
		}
		else
		{
			bool le=cs==UTF16LE;
			uint32_t c=le?B(i)+256*B(i+1):B(i+1)+256*B(i);
			if (c>=0xD800&&c<0xDC00)
			{
				uint32_t d=le?B(i+2)+256*B(i+3):B(i+3)+256*B(i+2);
				e.len=4; e.v=(d>=0xDC00&&d<0xE000)?0x10000+(c-0xD800)*1024+(d-0xDC00):0xFFFF;
			}
			else if (isSurrogate(c)){ e.len=2; e.v=NOASCII; }
			else { e.len=2; e.v=c; }
		}
		r.push_back(e); i+=e.len;
	}
	#undef B
	return r;
}

static std::string genBytes( pbt::Ctx& c, int cs, unsigned& damaged, bool pad)
{
	std::string b; unsigned n=1+c.size(14); damaged=0;
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c);
		switch (c.pick({4,4,2}))
		{
			case 0: { uint32_t ch=cl::genChar(c,cs,1); if (pad && (ch<32||ch=='<'||ch=='&')) ch='y'; put(cs,1,ch,b); break; }
			case 1: // truncated / interrupted character
				++damaged;
				if (cs==UTF8)
				{
					static const uint32_t rng[][2]={{0x80,0x7ff},{0x800,0xffff},{0x10000,0x1fffff},{0x200000,0x3ffffff},{0x4000000,0x7fffffff}};
					unsigned k=c.draw(5); uint32_t ch=c.range(rng[k][0],rng[k][1]); std::string s; put(cs,1,ch,s);
					unsigned cut=1+c.draw(s.size()-1);
					if (c.flip()) b.append(s,0,cut);                // truncated: the following character interrupts
					else { s[cut]=(char)(c.flip()?c.range('a','z'):c.flip()?c.range(32,0x7f)&(pad?0x7f:0x7f):c.range(0xC2,0xFD)); if (pad&&(s[cut]=='<'||s[cut]=='&')) s[cut]='z'; b+=s; } // one continuation byte replaced
				}
				else
				{
					putUnit(cs,0xD800+c.draw(0x400),b);
					switch (c.draw(3))
					{
						case 0: break; // followed by whatever comes next (or the end)
						case 1: { uint32_t u; do { u=c.draw(0xD800); } while (u==0); putUnit(cs,u,b); break; }
						default: { static const uint32_t e[]={0x41,0xDBFF,0xD800,0xE000,0xFFFF,0xDBFE,0x0041,0x20DC,0xDB00,0xE0DC,0xDADC,0x00DC,0xDC}; putUnit(cs,c.of(e),b); }
					}
				}
				break;
			default: // stray
				++damaged;
				if (cs==UTF8)
				{
					if (c.chance(1,5)) { b+=(char)(0xFE + c.draw(2)); unsigned k=c.draw(6); for (unsigned j=0;j<k;++j) b+=(char)c.range(0x80,0xBF); } // announces 7 or 8 bytes
					else b+=(char)c.range(0x80,0xBF);
				}
				else putUnit(cs,0xDC00+c.draw(0x400),b);
		}
		if (pad) for (int k=0;k<8;++k) put(cs,1,'x',b);
	}
	return b;
}

LAW(damaged_text, 1600000, 12000000, "at least one damaged character")
{
	static const int css[]={UTF8,UTF16LE,UTF16BE};
	int cs=c.of(css); unsigned dmg; std::string b=genBytes(c,cs,dmg,false); int src=c.draw(2);
	std::vector<Exp> e=decodeRule(cs,b);
	c.note( std::string(csName(cs))+" bytes "+pbt::hex(b)); c.label( csName(cs));
	if (dmg) c.nontrivial();
	std::unique_ptr<cl::Reader> r=cl::reader( cs, 1, b, src);
	for (size_t i=0;i<e.size();++i)
	{
		CHECK( r->pos()==e[i].at, "character #" << i << " at byte " << r->pos() << " instead of " << e[i].at);
		// an accepted overlong form may denote NUL, where the reader is at its end: stop there
		if (e[i].alt && e[i].v==0) return;
		unsigned order=c.draw(4);
		uint32_t v; 
		if (order==1){ unsigned a=r->ascii(); CHECK( a==((e[i].v<128&&!e[i].alt)?e[i].v:0) || (e[i].alt&&a==e[i].v), "byte " << e[i].at << " classified as ASCII " << a); }
		if (order==2){ int k=r->control(); uint32_t x=e[i].v==NOASCII||e[i].alt?0xFFFF:e[i].v; int ek=cl::controlClass(x); CHECK( ek<0||k==ek||(e[i].alt&&k==cl::controlClass(e[i].v)), "byte " << e[i].at << " control class " << k); }
		v=r->chr();
		if (e[i].v==NOASCII) CHECK( v>127, "stray surrogate at byte " << e[i].at << " read as U+" << std::hex << v);
		else CHECK( v==e[i].v||(e[i].alt&&v==e[i].altv), "character at byte " << e[i].at << " of length " << e[i].len << " read as U+" << std::hex << v << " instead of U+" << e[i].v);
		unsigned a=r->ascii(); CHECK( ((v<128)?a==v:a==0)||(e[i].alt&&a==0), "U+" << std::hex << v << " classified as ASCII " << a);
		if (order==3) { r.reset( r->copy()); }
		r->inc();
	}
	CHECK( r->chr()==0, "text continues after its end");
}

// the same inside a document scanned into UCS-4: the content delivers the flag value
LAW(damaged_content, 400000, 4000000, "at least one damaged character in the content")
{
	static const int css[]={UTF8,UTF16LE,UTF16BE};
	int cs=c.of(css); unsigned dmg; std::string b=genBytes(c,cs,dmg,true);
	std::vector<Exp> e=decodeRule(cs,b);
	for (auto& x: e) if (x.alt||x.v==NOASCII||x.v<0x20||x.v=='<'||x.v=='&') throw pbt::Discard();
	std::string doc=encode(cs,1,u32("<a>"))+b+encode(cs,1,u32("</a>"));
	c.note( std::string(csName(cs))+" content bytes "+pbt::hex(b)); if (dmg) c.nontrivial();
	std::string got; int t1=0,t2=0,t3=0,t4=0;
	#define SCAN(T) { textwolf::XMLScanner<textwolf::SrcIterator,T,textwolf::charset::UCS4BE,std::string> s( textwolf::SrcIterator(doc.data(),doc.size())); t1=s.nextItem(); t2=s.nextItem(); got=s.getItem(); t3=s.nextItem(); t4=s.nextItem(); }
	if (cs==UTF8) SCAN(textwolf::charset::UTF8) else if (cs==UTF16LE) SCAN(textwolf::charset::UTF16LE) else SCAN(textwolf::charset::UTF16BE)
	CHECK( t1==textwolf::XMLScannerBase::OpenTag && t2==textwolf::XMLScannerBase::Content && t3==textwolf::XMLScannerBase::CloseTag && t4==textwolf::XMLScannerBase::Exit, "events " << t1 << ' ' << t2 << ' ' << t3 << ' ' << t4);
	U32 exp; for (auto& x: e) exp.push_back(x.v);
	U32 g; CHECK( decode(UCS4BE,1,got,g), "undecodable output");
	CHECK( g==exp, "content delivered as " << show(g) << " instead of " << show(exp));
}
