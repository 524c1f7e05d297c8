// Generator of well-formed documents together with the exact events they denote (model written from the XML
// recommendation and the documentation of the scanner; shares no code with the library).
#ifndef DOC_HPP
#define DOC_HPP
#include "enc.hpp"
#include "charlib.hpp"

namespace doc {
using enc::U32;
typedef textwolf::XMLScannerBase SB;
enum {NPOS=0xFFFFFFFF};

struct Ev
{
	int type; U32 val;
	bool optional=false;             // may be missing (known finding or unspecified whitespace outside the root)
	bool hasAlt=false; U32 alt;      // alternatively accepted value
	uint32_t from=NPOS, to=NPOS;     // character offsets of the token in the text
	uint32_t altfrom=NPOS;           // token start of the alternative
	uint32_t need=0;                 // number of characters that must be there for the event to be due
	explicit Ev( int t=0):type(t){}
};
// places where a document can be damaged
struct Site
{
	enum Kind {TagAttrEq, TagAttrClosing, TagAttrOpening, InTagName, AfterTagAttr, BeforeTagAttr, CloseName, ImClose, HdrEq, HdrAfterValue, HdrOpen, HdrOpening, HdrEnd, CommentOpen, CDataOpen, Value, ElemStart, NofKinds};
	int kind; uint32_t from,to; char quote;
};
struct Doc
{
	U32 text; std::vector<Ev> ev; std::vector<Site> sites;
	std::vector<std::pair<uint32_t,uint32_t> > markup;  // [from,to) regions of markup: cutting strictly inside leaves it incomplete
	std::vector<std::pair<std::string,uint32_t> > ents; // entities used by name
	unsigned elems=0, attrs=0, texts=0, refs=0, comments=0, pis=0, cdatas=0, doctypes=0, eols=0, maxdepth=0;
	bool header=false;
	std::string describe() const { return enc::show(text,3000); }
};
struct Opt
{
	std::vector<int> css;            // every raw character must be representable in all of these
	int page=1;
	unsigned maxElems=12; bool refs=true, entities=false, extras=true, big=true, tricky=true, verbatim=false;
	bool comments=true;
	std::vector<std::pair<int,int> > names; // further encodings and code pages that must have the characters of names
};

class Gen
{
public:
	Gen( pbt::Ctx& c_, const Opt& o_):c(c_),o(o_){ if (o.css.empty()) o.css.push_back(enc::UTF8); }

	Doc run()
	{
		budget=o.maxElems; bigbudget=o.big?1:0;
		if (c.chance(2,3)) header(); else if (o.extras && c.chance(1,6)) ws(3);
		if (o.extras) prolog();
		element( 0);
		if (o.extras) epilog();
		Ev e(SB::Exit); e.need=d.text.size(); d.ev.push_back(e);
		return d;
	}
	bool rawOk( uint32_t ch) const { for (int cs: o.css) if (!enc::representable(cs,o.page,ch)) return false; return true; }

private:
	pbt::Ctx& c; Opt o; Doc d; unsigned budget; unsigned bigbudget; 
	bool afterComment=false;   // whitespace directly after a comment is dropped (known finding)
	U32& t(){ return d.text; }
	void raw( const char* s){ enc::cat( d.text, s); }
	void ws( unsigned max, bool atleast=false)
	{
		unsigned n=(atleast?1:0)+c.draw(max);
		for (unsigned i=0;i<n;++i) d.text.push_back( c.of( wsv()));
	}
	static const std::vector<uint32_t>& wsv(){ static const std::vector<uint32_t> v={' ','\n','\t','\r',' '}; return v; }
	uint32_t nameChar( bool start)
	{
		for (int i=0;;++i)
		{
			uint32_t ch;
			switch (i>10?0:c.pick({8,3,start?0u:3u,2,1}))
			{
				case 0: ch='a'+c.draw(8); break;
				case 1: { static const char s[]="_:ABZxyzq"; ch=(unsigned char)s[c.draw(9)]; break; }
				case 2: { static const char s[]="-.0159:_"; ch=(unsigned char)s[c.draw(8)]; break; }
				case 3: { static const uint32_t n[]={0xe4,0xf6,0xd8,0x104,0x17f,0x3b1,0x434,0x10a,0x12f,0x1e00,0x2170,0x3042,0x4e2d,0xac00,0xf900}; ch=c.of(n); break; }
				default: // any of the name start characters of the recommendation
				{
					static const uint32_t rng[][2]={{0x10000,0xEFFFF},{0xC0,0xD6},{0xD8,0xF6},{0xF8,0x2FF},{0x370,0x37D},{0x37F,0x1FFF},{0x200C,0x200D},{0x2070,0x218F},{0x2C00,0x2FEF},{0x3001,0xD7FF},{0xF900,0xFDCF},{0xFDF0,0xFFFD}};
					unsigned k=c.draw(12); ch=c.range( rng[k][0], rng[k][1]); break;
				}
			}
			bool ok=rawOk(ch); for (auto& x: o.names) if (!enc::representable(x.first,x.second,ch)) ok=false;
			if (ok) return ch;
		}
	}
	U32 name()
	{
		pbt::Ctx::SpanGuard g(c);
		U32 n; unsigned len;
		switch (c.pick({10,4,1})) { case 0: len=1+c.draw(4); break; case 1: len=1+c.draw(14); break; default: { static const unsigned L[]={15,16,17,31,64,200,255,256,300,511,512,1023,1024,1030}; len=c.of(L); if (bigbudget==0&&len>64) len=64; } }
		for (unsigned i=0;i<len;++i) n.push_back( nameChar(i==0));
		return n;
	}
	U32 plainName( const char* s){ return enc::u32(s); }
	void token( int type, const U32& v)
	{
		Ev e(type); e.val=v; e.from=t().size(); enc::cat(d.text,v); e.to=t().size(); e.need=e.to+1; d.ev.push_back(e);
	}
	void mark( uint32_t from){ d.markup.push_back( std::make_pair(from,(uint32_t)t().size())); }
	void site( int k, uint32_t from, uint32_t to, char q=0){ Site s={k,from,to,q}; d.sites.push_back(s); }

	// text of a value: appends source to the text and the value to v. quote: 0 for content
	struct VState { bool cr; int brk; VState():cr(false),brk(0){} };
	void valueChar( U32& v, U32& alt, uint32_t quote, VState& st)
	{
		unsigned k=c.pick({10, 4, 3, 3, o.refs?4u:0u, o.refs?3u:0u, o.entities?2u:0u, o.verbatim?3u:0u});
		uint32_t ch; bool cr=false;
		switch (k)
		{
			case 0: ch='a'+c.draw(26); break;
			case 1: ch=c.range(33,127); break;
			case 2:
				if (c.flip()) { ch=' '; break; }
				switch (c.draw(4))
				{
					case 0: t().push_back('\t'); v.push_back('\t'); alt.push_back(' '); break;
					case 1: if (st.cr) { raw("x"); v.push_back('x'); alt.push_back('x'); } t().push_back('\n'); v.push_back('\n'); alt.push_back(' '); ++d.eols; break;
					case 2: t().push_back('\r'); t().push_back('\n'); v.push_back('\n'); alt.push_back(' '); ++d.eols; break;
					default: t().push_back('\r'); v.push_back('\n'); alt.push_back(' '); cr=true; ++d.eols; break;
				}
				st.cr=cr; st.brk=0; return;
			case 3: ch=anyChar(); break;
			case 4: { reference( anyRefChar(), v, alt); st.cr=false; st.brk=0; return; }
			case 5: { static const struct {const char* n; char c;} P[]={{"lt",'<'},{"gt",'>'},{"amp",'&'},{"quot",'"'},{"apos",'\''}}; unsigned i=c.draw(5); raw("&"); raw(P[i].n); raw(";"); v.push_back(P[i].c); alt.push_back(P[i].c); ++d.refs; st.cr=false; st.brk=0; return; }
			case 6: entity( v, alt); st.cr=false; st.brk=0; return;
			default: verbatim( v, alt, quote); st.cr=false; st.brk=0; return;
		}
		if (ch=='<'||ch=='&'||ch==quote) ch='z';
		if (ch>127 && !rawOk(ch)) { if (o.refs) reference( ch, v, alt); else { raw("y"); v.push_back('y'); alt.push_back('y'); } st.cr=false; st.brk=0; return; }
		if (quote==0) { if (ch==']') ++st.brk; else if (ch=='>'&&st.brk>=2) { ch='G'; st.brk=0; } else st.brk=0; }
		t().push_back(ch); v.push_back(ch); alt.push_back(ch); st.cr=false;
	}
	uint32_t anyChar()
	{
		int cs=c.of(o.css); uint32_t ch=cl::genChar( c, cs, o.page, true);
		if (ch=='\r'||ch=='\n'||ch=='\t') ch='w';
		return ch;
	}
	uint32_t anyRefChar()
	{
		switch (c.pick({3,3,2,2,2}))
		{
			case 0: return c.range(33,126);
			case 1: { static const uint32_t e[]={9,10,13,32,'<','&','>','"','\'',127,128,0x9f,0xa0,0xff,0x100,0x104,0x20ac,0xd7ff,0xe000,0xfffd,0x10000,0x10ffff,0x1f600}; return c.of(e); }
			case 2: return c.range(128,0x7ff);
			case 3: { uint32_t ch=c.range(0x800,0xfffd); return enc::isSurrogate(ch)?0xe000:ch; }
			default: return c.range(0x10000,0x10ffff);
		}
	}
	void reference( uint32_t ch, U32& v, U32& alt)
	{
		char b[40]; unsigned z=c.chance(1,4)?c.draw(9):0; std::string zeros(z,'0');
		if (c.flip()) { snprintf(b,sizeof b,"%x",ch); std::string h(b); if (c.flip()) for (auto& x: h) x=toupper(x); if (h.size()+z>15) zeros.clear(); raw(("&#x"+zeros+h+";").c_str()); }
		else { snprintf(b,sizeof b,"%u",ch); raw(("&#"+zeros+b+";").c_str()); }
		v.push_back(ch); alt.push_back(ch); ++d.refs;
	}
	void entity( U32& v, U32& alt)
	{
		static const char* names[]={"e","foo","uuml","ent15charslong0","a.b_c:d","am","ampx","l","ltt","quo","nbs","X","E9","Q.","apo"};
		if (d.ents.empty())
		{
			for (unsigned i=0;i<15;++i) d.ents.push_back( std::make_pair( std::string(names[i]), 0u));
			for (auto& e: d.ents) e.second=anyRefChar();
		}
		if (c.chance(1,20)) { raw("&nbsp;"); v.push_back(' '); alt.push_back(' '); ++d.refs; return; }
		auto& e=c.of(d.ents); raw(("&"+e.first+";").c_str()); v.push_back(e.second); alt.push_back(e.second); ++d.refs;
	}
	// ampersand sequences that are no references
	void verbatim( U32& v, U32& alt, uint32_t quote)
	{
		static const char* S[]={"& ","&a ","&amp ","&lt,","&& ","&#12x ","&#x ","&#xg;","&#x1g;","&# ","&#a;","&#12","&#x12","&am p;","&-;","&#-1;","&#x-1;","&#99999999999;","&#x1ffffffff;","&quot","&","&#","&#x","&a-b;","&#1 2;","&foo=1","&a/b;"};
		std::string s=c.of(S); std::string tail=(s.back()==';'||s.back()==' ')?"":" ";
		s+=tail; (void)quote;
		// '&,'-like: ',' is an ordinary character of a name, so make sure that the sequence ends before a semicolon can follow
		U32 u=enc::u32(s); enc::cat(d.text,u); enc::cat(v,u); enc::cat(alt,u); ++d.refs;
	}
	unsigned valueLen()
	{
		switch (c.pick({6,6,2,bigbudget?1u:0u}))
		{
			case 0: return 1+c.draw(4);
			case 1: return 1+c.draw(24);
			case 2: return 30+c.draw(100);
			default: { --bigbudget; if (c.chance(1,40)) return c.range(65000,66000); static const unsigned L[]={255,256,257,511,1023,1024,1025,4095,4096,8180,8191,8192,8193,9000}; return c.of(L); }
		}
	}
	void valueText( U32& v, U32& alt, uint32_t quote)
	{
		unsigned n=valueLen(); VState st;
		if (n>200) // long: few choices
		{
			unsigned period=1+c.draw(7); U32 pv,pa; for (unsigned i=0;i<period;++i) valueChar(v,alt,quote,st);
			while (v.size()<n) { uint32_t ch='a'+v.size()%26; t().push_back(ch); v.push_back(ch); alt.push_back(ch); }
			return;
		}
		for (unsigned i=0;i<n;++i) { pbt::Ctx::SpanGuard g(c); valueChar(v,alt,quote,st); }
	}
	void eq( bool hdr)
	{
		uint32_t f=t().size(); if (c.chance(1,5)) ws(2,true); raw("="); if (c.chance(1,5)) ws(2,true);
		site( hdr?Site::HdrEq:Site::TagAttrEq, f, t().size());
	}
	void quoted( int type, bool hdr, const U32* fixed=0)
	{
		char q=c.flip()?'\'':'"'; uint32_t f=t().size();
		t().push_back(q);
		Ev e(type); e.from=t().size();
		if (fixed) { e.val=*fixed; enc::cat(d.text,*fixed); }
		else if (c.chance(9,10)) { U32 v,alt; valueText(v,alt,q); e.val=v; if (alt!=v){ e.hasAlt=true; e.alt=alt; e.altfrom=e.from; } }
		e.to=t().size(); e.need=e.to+1; d.ev.push_back(e);
		t().push_back(q);
		site( hdr?Site::HdrOpening:Site::TagAttrOpening, f, f+1, q); if (!hdr) site( Site::TagAttrClosing, e.to, e.to+1, q);
		if (!hdr && !fixed) site( Site::Value, e.from, e.from, q);
	}
	void header()
	{
		d.header=true; uint32_t f=t().size();
		Ev e(SB::HeaderStart); e.val=enc::u32("?xml"); raw("<?xml"); site( Site::HdrOpen, f+2, f+5); e.need=t().size()+1; d.ev.push_back(e);
		ws(2,true); token( SB::HeaderAttribName, enc::u32("version")); eq(true); U32 v=enc::u32(c.flip()?"1.1":"1.0"); quoted( SB::HeaderAttribValue, true, &v); site( Site::HdrAfterValue, t().size(), t().size());
		if (c.chance(3,5))
		{
			ws(2,true); token( SB::HeaderAttribName, enc::u32("encoding")); eq(true);
			static const char* E[]={"UTF-8","isolatin-1","ISO-8859-1","UCS-2BE","utf-16","UTF-8"}; U32 ve=enc::u32(c.of(E)); quoted( SB::HeaderAttribValue, true, &ve); site( Site::HdrAfterValue, t().size(), t().size());
		}
		if (c.chance(1,4)) { ws(2,true); token( SB::HeaderAttribName, enc::u32("standalone")); eq(true); U32 ve=enc::u32(c.flip()?"no":"yes"); quoted( SB::HeaderAttribValue, true, &ve); site( Site::HdrAfterValue, t().size(), t().size()); }
		if (c.chance(1,4)) ws(2,true);
		uint32_t q=t().size(); raw("?>"); site( Site::HdrEnd, q+1, q+1);
		Ev he(SB::HeaderEnd); he.need=t().size(); d.ev.push_back(he);
		mark(f);
	}
	U32 skippedChars( const char* avoidAscii, unsigned max)
	{
		U32 s; unsigned n=c.size(max);
		if (max>12 && bigbudget && c.chance(1,40)) { --bigbudget; static const unsigned L[]={127,128,129,255,256,257,300,511,512,1023,1025,4097,8193}; unsigned k=c.of(L); for (unsigned i=0;i<k;++i) s.push_back( i%13==12?' ':'a'+i%26); }
		for (unsigned i=0;i<n;++i)
		{
			uint32_t ch;
			switch (c.pick({5,4,2,2})) { case 0: ch='a'+c.draw(26); break; case 1: { static const char x[]="<>&'\"?!-[]/= \n\r\t=;"; ch=(unsigned char)x[c.draw(sizeof(x)-1)]; break; } case 2: ch=anyChar(); break; default: ch=c.range(32,127); }
			if (ch<128 && strchr(avoidAscii,(int)ch)) ch='k';
			if (!rawOk(ch)) ch='o';
			s.push_back(ch);
		}
		return s;
	}
	void comment()
	{
		pbt::Ctx::SpanGuard g(c);
		uint32_t f=t().size(); raw("<!--"); site( Site::CommentOpen, f+3, f+4);
		U32 s=skippedChars("",20), r;
		for (size_t i=0;i<s.size();++i) { if (s[i]=='-'&&!r.empty()&&r.back()=='-') continue; r.push_back(s[i]); }
		while (!r.empty()&&r.back()=='-') r.pop_back();
		enc::cat( d.text, r); raw("-->"); mark(f); ++d.comments;
	}
	void pi()
	{
		pbt::Ctx::SpanGuard g(c);
		uint32_t f=t().size(); raw("<?"); U32 n=name(); n[0]='p'; enc::cat(d.text,n);
		if (c.flip())
		{
			ws(1,true); U32 s=skippedChars("",20), r;
			for (size_t i=0;i<s.size();++i) { if (s[i]=='>'&&!r.empty()&&r.back()=='?') continue; r.push_back(s[i]); }
			enc::cat(d.text,r);
		}
		raw("?>"); mark(f); ++d.pis;
	}
	void cdata()
	{
		pbt::Ctx::SpanGuard g(c);
		uint32_t f=t().size(); raw("<![CDATA["); site( Site::CDataOpen, f+3, f+8);
		Ev e(SB::Content); e.optional=true; e.from=t().size();
		U32 s=skippedChars("\r",20), r;
		for (size_t i=0;i<s.size();++i) { if (s[i]=='>'&&r.size()>=2&&r.back()==']'&&r[r.size()-2]==']') continue; r.push_back(s[i]); }
		if (c.chance(1,3)) { unsigned k=1+c.draw(3); for (unsigned i=0;i<k;++i) r.push_back(']'); }
		enc::cat(d.text,r); e.val=r; e.to=t().size(); raw("]]>"); e.need=t().size(); e.from=NPOS; 
		d.ev.push_back(e); mark(f); ++d.cdatas;
	}
	void doctype()
	{
		pbt::Ctx::SpanGuard g(c);
		uint32_t f=t().size(); raw("<!"); token( SB::DocAttribValue, enc::u32("DOCTYPE")); ws(2,true); token( SB::DocAttribValue, name());
		bool sp=false;
		unsigned ext=c.draw(3);
		if (ext)
		{
			ws(2,true); token( SB::DocAttribValue, enc::u32(ext==1?"SYSTEM":"PUBLIC"));
			for (unsigned i=0;i<ext;++i) { ws(2,true); docLiteral(); }
		}
		if (c.chance(1,3))
		{
			if (c.flip()) { ws(2,true); sp=true; }
			raw("["); enc::cat( d.text, skippedChars("]",30)); raw("]");
		}
		(void)sp;
		if (c.chance(1,3)) ws(2,true);
		raw(">"); Ev e(SB::DocAttribEnd); e.need=t().size(); d.ev.push_back(e); mark(f); ++d.doctypes;
	}
	void docLiteral()
	{
		char q=c.flip()?'\'':'"'; t().push_back(q);
		Ev e(SB::DocAttribValue); e.from=t().size(); unsigned n=c.draw(12);
		if (bigbudget && c.chance(1,40)) { --bigbudget; static const unsigned L[]={127,128,255,256,257,1025}; n=c.of(L); for (;n>8;--n) { uint32_t ch='a'+n%26; t().push_back(ch); e.val.push_back(ch); } }
		for (unsigned i=0;i<n;++i) { uint32_t ch=c.flip()?c.range('a','z'):c.range(32,126); if (ch=='&'||ch==(uint32_t)(unsigned char)q||ch=='<') ch='/'; t().push_back(ch); e.val.push_back(ch); }
		e.to=t().size(); e.need=e.to+1; d.ev.push_back(e); t().push_back(q);
	}
	void prologWs( bool afterPi)
	{
		uint32_t f=t().size(); ws(3); if (t().size()==f) return;
		if (afterPi) { Ev e(SB::Content); e.optional=true; e.val=eolNorm(f); e.from=f; e.to=t().size(); e.need=e.to; d.ev.push_back(e); }
	}
	U32 eolNorm( uint32_t f) const
	{
		U32 r; for (size_t i=f;i<d.text.size();++i) { uint32_t ch=d.text[i]; if (ch=='\r') r.push_back('\n'); else if (ch=='\n'&&i>f&&d.text[i-1]=='\r') continue; else r.push_back(ch); }
		return r;
	}
	void prolog()
	{
		bool pis=d.header; // a processing instruction at the very start is taken for the header (known finding)
		bool afterPi=false, dt=false; unsigned n=c.draw(4);
		prologWs(false);
		for (unsigned i=0;i<n;++i)
		{
			unsigned k=c.pick({3,pis?2u:0u,dt?0u:3u});
			if (k==0) { if (!o.comments) continue; comment(); afterPi=false; pis=true; }
			else if (k==1) { pi(); afterPi=true; }
			else { doctype(); afterPi=false; dt=true; pis=true; }
			prologWs(afterPi);
		}
	}
	void epilog()
	{
		bool deliver=true; unsigned n=c.draw(3);
		prologWs(true);
		for (unsigned i=0;i<n;++i)
		{
			if (o.comments && c.flip()) { comment(); deliver=false; } else { pi(); deliver=true; }
			prologWs(deliver);
		}
	}
	void element( unsigned depth)
	{
		pbt::Ctx::SpanGuard g(c);
		if (depth+1>d.maxdepth) d.maxdepth=depth+1;
		if (budget) --budget; ++d.elems;
		uint32_t f=t().size(); site( Site::ElemStart, f, f); raw("<"); U32 n=name(); token( SB::OpenTag, n); site( Site::InTagName, t().size(), t().size());
		unsigned na=c.pick({5,4,2,1}); if (bigbudget && c.chance(1,60)) { static const unsigned L[]={8,16,17,33,65,130}; na=c.of(L); } std::vector<U32> used;
		for (unsigned i=0;i<na;++i)
		{
			U32 an=name(); bool dup=false; for (auto& u: used) if (u==an) dup=true; if (dup) continue; used.push_back(an);
			ws(2,true); site( Site::BeforeTagAttr, t().size(), t().size()); token( SB::TagAttribName, an); eq(false); quoted( SB::TagAttribValue, false); site( Site::AfterTagAttr, t().size(), t().size()); ++d.attrs;
		}
		if (c.chance(1,5)) ws(2,true);
		bool empty=c.chance(1,4);
		if (empty) { raw("/"); site( Site::ImClose, t().size(), t().size()); raw(">"); Ev e(SB::CloseTagIm); e.need=t().size(); d.ev.push_back(e); mark(f); afterComment=false; return; }
		raw(">"); mark(f); afterComment=false;
		unsigned kids=c.pick({3,4,3,2}); if (c.chance(1,20)) kids+=c.draw(6); 
		if (bigbudget && depth==0 && c.chance(1,60)) // deep nesting
		{
			--bigbudget; static const unsigned L[]={17,33,65,129,257,300}; unsigned k=c.of(L); std::vector<U32> open;
			for (unsigned i=0;i<k;++i) { open.push_back( enc::u32( std::string(1+i%3,'a'+i%7))); f=t().size(); raw("<"); token( SB::OpenTag, open.back()); raw(">"); mark(f); }
			while (!open.empty()) { f=t().size(); raw("</"); token( SB::CloseTag, open.back()); raw(">"); mark(f); open.pop_back(); ++d.elems; }
			if (d.maxdepth<k+1) d.maxdepth=k+1;
		}
		for (unsigned i=0;i<kids;++i)
		{
			unsigned k=c.pick({5,(budget&&depth<40)?5u:0u,(o.comments&&o.extras)?1u:0u,o.extras?1u:0u,o.extras?1u:0u});
			switch (k)
			{
				case 0: text(); break;
				case 1: element( depth+1); break;
				case 2: comment(); afterComment=true; break;
				case 3: pi(); afterComment=false; break;
				default: cdata(); afterComment=false; break;
			}
			if (k==0) // no two adjacent texts: something else must follow
			{
				if (i+1<kids && budget && depth<40 && c.flip()) { element( depth+1); }
				else if (o.extras && c.flip()) { pi(); afterComment=false; }
				else break;
			}
		}
		f=t().size(); raw("</"); token( SB::CloseTag, n); site( Site::CloseName, t().size(), t().size());
		if (c.chance(1,6)) ws(2,true);
		raw(">"); mark(f); afterComment=false;
	}
	static bool isWs( uint32_t ch){ return ch==' '||ch=='\n'||ch=='\t'||ch=='\r'; }
	void text()
	{
		pbt::Ctx::SpanGuard g(c);
		Ev e(SB::Content); e.from=t().size(); U32 alt; valueText( e.val, alt, 0); e.to=t().size(); e.need=e.to+1; ++d.texts;
		site( Site::Value, e.from, e.from, 0);
		// control characters of the source other than white space do not occur, so white space is all that may be dropped
		if (afterComment && isWs( d.text[e.from]))
		{
			size_t i=e.from; while (i<e.to && isWs(d.text[i])) ++i;
			size_t vi=0; for (size_t k=e.from;k<i;++k) if (!(d.text[k]=='\n'&&k>e.from&&d.text[k-1]=='\r')) ++vi;
			e.hasAlt=true; e.alt=U32( e.val.begin()+vi, e.val.end()); e.altfrom=i; if (i==e.to) e.optional=true;
		}
		d.ev.push_back(e); afterComment=false;
	}
};
inline Doc generate( pbt::Ctx& c, const Opt& o){ return Gen(c,o).run(); }

// byte offsets of the characters in an encoding
inline std::vector<size_t> offsets( const U32& text, int cs, int page)
{
	std::vector<size_t> r; size_t p=0; for (uint32_t ch: text) { r.push_back(p); p+=enc::length(cs,page,ch); } r.push_back(p); return r;
}
}//namespace
#endif
