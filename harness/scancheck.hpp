// Comparison of scanner events with the model
#ifndef SCANCHECK_HPP
#define SCANCHECK_HPP
#include "doc.hpp"
#include "scanlib.hpp"
#include <set>
#include <algorithm>

namespace sc {
using enc::U32;
typedef textwolf::XMLScannerBase SB;

struct Expect
{
	const doc::Doc& d; int in,page,out; std::vector<size_t> off; std::vector<std::string> val,alt;
	Expect( const doc::Doc& d_, int in_, int page_, int out_):d(d_),in(in_),page(page_),out(out_),off(doc::offsets(d_.text,in_,page_))
	{
		for (auto& e: d.ev) { val.push_back( enc::encodeOrRef(out,1,e.val)); alt.push_back( e.hasAlt?enc::encodeOrRef(out,1,e.alt):std::string()); }
	}
	enum {No,Val,Alt};
	// does event a match the expected event i
	int matches( size_t i, const sl::Event& a) const
	{
		const doc::Ev& e=d.ev[i];
		if (a.type!=e.type || a.err!=0) return No;
		if (a.value==val[i]) return Val;
		if (e.hasAlt && a.value==alt[i]) return Alt;
		return No;
	}
	std::string showExp( size_t i) const
	{
		const doc::Ev& e=d.ev[i];
		return std::string(SB::getElementTypeName((SB::ElementType)e.type))+" "+pbt::quote(val[i],120)+(e.optional?" (optional)":"");
	}
	// Match all of the actual events. tail: after the expected events [0,n) this is accepted: 'x' nothing. Returns "" or what is wrong.
	// n: number of expected events; mayEnd: the events from this index on may be missing
	std::string match( const std::vector<sl::Event>& a, size_t na, size_t n, size_t mayEnd, bool positions, std::vector<int>* assign=0) const
	{
		// reach[i][j]: expected [0,i) consumed with actual [0,j)
		std::vector<std::vector<signed char> > how( n+1, std::vector<signed char>());
		std::vector<std::set<size_t> > r( n+1); r[0].insert(0); size_t far=0, farj=0;
		for (size_t i=0;i<n;++i)
			for (size_t j: r[i])
			{
				if (i>=far) { far=i; farj=j; }
				if (d.ev[i].optional) r[i+1].insert(j);
				if (j<na && matches(i,a[j])) r[i+1].insert(j+1);
			}
		bool ok=false;
		for (size_t i=mayEnd;i<=n;++i) if (r[i].count(na)) ok=true;
		if (!ok)
		{
			std::ostringstream o; size_t i=far;
			if (!r[n].empty() && r[n].begin()!=r[n].end()) { i=n; farj=*r[n].rbegin(); }
			o << "event #" << farj << " ";
			if (farj<na) o << "is " << a[farj].show(); else o << "is missing";
			o << ", expected " << (i<n?showExp(i):std::string("no further event"));
			return o.str();
		}
		// walk back for the assignment
		std::vector<int> as( na, -1);
		{
			size_t j=na, i=n; while (!r[i].count(j)) --i;
			while (i>0)
			{
				if (j>0 && r[i-1].count(j-1) && matches(i-1,a[j-1])) { as[j-1]=i-1; --i; --j; }
				else --i;
			}
		}
		if (assign) *assign=as;
		if (!positions) return "";
		size_t last=0;
		for (size_t j=0;j<na;++j)
		{
			std::ostringstream o;
			if (a[j].pos<last) { o << "source position goes back from " << last << " to " << a[j].pos << " at event #" << j; return o.str(); }
			last=a[j].pos;
			if (as[j]<0) continue;
			const doc::Ev& e=d.ev[as[j]]; int m=matches(as[j],a[j]);
			if (e.from==doc::NPOS) continue;
			uint32_t f=(m==Alt&&e.altfrom!=doc::NPOS)?e.altfrom:e.from;
			if (a[j].tokpos!=off[f]) { o << "token position of event #" << j << " (" << a[j].show() << ") is not " << off[f]; return o.str(); }
			size_t lo=off[e.to], hi= e.to+1<off.size()?off[e.to+1]:off.back()+enc::unitSize(in)*2;
			if (a[j].pos<lo||a[j].pos>hi) { o << "source position after event #" << j << " (" << a[j].show() << ") is not in [" << lo << "," << hi << "]"; return o.str(); }
		}
		return "";
	}
	std::string matchAll( const std::vector<sl::Event>& a, bool positions) const { return match( a, a.size(), d.ev.size(), d.ev.size(), positions); }
};

inline int genIn( pbt::Ctx& c, int* page)
{
	static const int css[]={enc::UTF8,enc::UTF8,enc::UTF16LE,enc::UTF16BE,enc::UCS2LE,enc::UCS2BE,enc::UCS4LE,enc::UCS4BE,enc::LATIN};
	int in=c.of(css); *page=in==enc::LATIN?c.range(1,9):1; return in;
}
inline int genOut( pbt::Ctx& c, int in)
{
	if (c.chance(1,3)) return in;
	return c.draw(8);
}
inline std::vector<unsigned> genReads( pbt::Ctx& c)
{
	std::vector<unsigned> r; unsigned n=c.draw(4);
	static const unsigned S[]={1,2,3,1,4,5,7,16,100,1000}; for (unsigned i=0;i<n;++i) r.push_back( c.of(S));
	return r;
}
inline size_t genBufsize( pbt::Ctx& c)
{
	static const size_t S[]={8192,1,2,3,4,5,7,8,16,17,64,100,1000,8191}; return c.of(S);
}
// any source able to scan a well-formed text
inline void genSource( pbt::Ctx& c, sl::Cfg& cfg, bool chunked=false)
{
	static const int S[]={sl::CSTRING,sl::SRCWHOLE,sl::USERIT,sl::CHARPTR,sl::ISTREAM,sl::STDSTREAM};
	cfg.src=c.of(S);
	cfg.out=sl::outFor( cfg.src, cfg.in, cfg.out);
	if (cfg.src==sl::ISTREAM||cfg.src==sl::STDSTREAM) { cfg.bufsize=genBufsize(c); if (cfg.src==sl::ISTREAM) cfg.reads=genReads(c); }
	cfg.iter=c.chance(1,4); cfg.vec=c.chance(1,6); cfg.ctor=c.pick({4,1,1,cfg.page==1?1u:0u});
}
inline std::vector<size_t> genCuts( pbt::Ctx& c, size_t n)
{
	std::vector<size_t> r;
	switch (c.pick({3,3,2}))
	{
		case 0: { unsigned k=1+c.draw(4); for (unsigned i=0;i<k;++i) r.push_back( c.draw(n+1)); std::sort(r.begin(),r.end()); break; }
		case 1: { unsigned step=1+c.draw(9); for (size_t i=step;i<n;i+=step) r.push_back(i); break; }
		default: { size_t i=0; while (i<n && r.size()<20000) { static const unsigned S[]={1,2,1,3,0,1,5,8,17}; i+=c.of(S); if (i<n) r.push_back(i); } }
	}
	return r;
}
inline std::vector<unsigned short> genMasks( pbt::Ctx& c)
{
	std::vector<unsigned short> m; unsigned n=1+c.draw(5);
	for (unsigned i=0;i<n;++i) switch (c.pick({2,2,2,1})) { case 0: m.push_back(0xFFFF); break; case 1: m.push_back(0); break; case 2: m.push_back( (unsigned short)(1u<<c.range(2,13))); break; default: m.push_back( (unsigned short)c.draw(0x10000)); }
	return m;
}
inline unsigned short maskOf( const std::vector<unsigned short>& m, size_t i){ return m.empty()?0xFFFF:m[i%m.size()]; }

// any input: well-formed, damaged or arbitrary. wellenc: the bytes are well-formed in the encoding
inline std::string genInput( pbt::Ctx& c, int in, int page, bool& wellenc, U32* textout=0)
{
	wellenc=true; U32 t; std::string b;
	unsigned kind=c.pick({3,5,5,2,2});
	if (kind==0||kind==1||kind==3)
	{
		doc::Opt o; o.css.push_back(in); o.page=page; o.big=c.chance(1,20); o.maxElems=1+c.draw(6); o.verbatim=c.flip();
		t=doc::generate(c,o).text;
	}
	if (kind==1) // characters deleted, inserted, replaced, repeated, or the text cut off
	{
		unsigned n=1+c.draw(3);
		for (unsigned i=0;i<n&&!t.empty();++i)
		{
			size_t at=c.draw(t.size()); static const char S[]="<>&'\"/?!-[]=; \n\r#xa\001\005;"; uint32_t ch=(unsigned char)S[c.draw(sizeof(S)-1)];
			switch (c.draw(5)) { case 0: t.erase(t.begin()+at); break; case 1: t.insert(t.begin()+at,ch); break; case 2: t[at]=ch; break; case 3: t.resize(at); break; default: { size_t k=c.draw(8); U32 sub(t.begin()+at,t.begin()+std::min(t.size(),at+k)); t.insert(t.begin()+c.draw(t.size()),sub.begin(),sub.end()); } }
		}
	}
	if (kind==2) // soup of lexemes
	{
		static const char* L[]={"<a>","</a>","<a","<",">","/>","&","&#","&#x","&#x41;","&lt;",";","=","'","\"","<!","<!--","-->","--","-","<![CDATA[","]]>","]","[","<?","?>","?","<?xml","<?xml ","version","='1.0'","<!DOCTYPE"," ","\n","\r","a","b","&undefined;","&amp;","&#99999999999999999999;","&abcdefghijklmnopqrstuvwxyz;","a='b'","\001","\005","&#0;","&;","&#;","&#x;","&#1234567890123456;","&#123456789012345;"};
		unsigned n=1+c.size(24);
		for (unsigned i=0;i<n;++i) { pbt::Ctx::SpanGuard g(c); if (c.chance(1,8)) t.push_back( cl::genChar(c,in,page)); else enc::cat( t, c.of(L)); }
		for (uint32_t& ch: t) if (!enc::representable(in,page,ch)) ch='r';
	}
	if (kind<=2) { b=enc::encode(in,page,t); if (textout) *textout=t; return b; }
	if (kind==3) // bytes damaged
	{
		b=enc::encode(in,page,t); unsigned n=1+c.draw(3); wellenc=false;
		for (unsigned i=0;i<n&&!b.empty();++i)
		{
			size_t at=c.draw(b.size()); static const unsigned char S[]={0,0x80,0xc0,0xff,0xfe,0xf8,0xfc,0xd8,0xdc,0xe0,0xf0,'<','>','&',0xdf,1}; char ch=(char)c.of(S);
			switch (c.draw(4)) { case 0: b.erase(at,1); break; case 1: b.insert(at,1,ch); break; case 2: b[at]=ch; break; default: b.resize(at); }
		}
		return b;
	}
	wellenc=false; unsigned n=c.size(60);
	for (unsigned i=0;i<n;++i) { static const unsigned char S[]={'<','a','>','&','#',';','!','-','?','[',']','/','=','\'','"',' ','\n',0,0x80,0xff,0xfe,0xfc,0xf0,0xe2,0xd8,0xdc,0xc3,'x'}; b+=c.flip()?(char)c.of(S):(char)c.draw(256); }
	return b;
}
// events with a value taken from the text
inline bool hasToken( int t){ return t==SB::HeaderAttribName||t==SB::HeaderAttribValue||t==SB::DocAttribValue||t==SB::TagAttribName||t==SB::TagAttribValue||t==SB::OpenTag||t==SB::CloseTag||t==SB::Content; }
// difference of two runs; with masks the values of masked out events are unspecified.
// tokposLimit: token positions from here on are not compared (a last character that is incomplete has no defined position)
inline std::string diff( const sl::Result& a, const sl::Result& b, const std::vector<unsigned short>* masks, bool pos, size_t tokposLimit=(size_t)-1)
{
	std::ostringstream o;
	if (a.endless||b.endless) { if (a.endless!=b.endless) o << "one scan does not end"; return o.str(); }
	for (size_t i=0;i<a.ev.size()&&i<b.ev.size();++i)
	{
		const sl::Event &x=a.ev[i],&y=b.ev[i];
		bool en=!masks||(maskOf(*masks,i)&(1u<<x.type));
		if (x.type!=y.type || x.err!=y.err || x.errtext!=y.errtext || (en && x.value!=y.value) || (en && hasToken(x.type) && y.tokpos<tokposLimit && x.tokpos!=y.tokpos) || (pos && x.pos!=y.pos)) { o << "event #" << i << ": " << x.show() << " instead of " << y.show(); return o.str(); }
	}
	if (a.ev.size()!=b.ev.size()) o << a.ev.size() << " events instead of " << b.ev.size();
	else if (a.cause!=b.cause) o << "exception cause " << a.cause << " instead of " << b.cause;
	return o.str();
}
}//namespace
#endif
