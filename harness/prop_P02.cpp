#include "scancheck.hpp"
#include "printlib.hpp"
using namespace enc;
PROPERTY(P02)
typedef doc::SB SBT;

// what the document is: markup events with names and values
struct Item { enum Kind {Open,Attr,Text,Close} k; U32 a, b; Item( Kind k_, const U32& a_, const U32& b_=U32()):k(k_),a(a_),b(b_){} bool operator==( const Item& o) const { return k==o.k&&a==o.a&&b==o.b; } std::string str() const { static const char* n[]={"element ","attribute ","text ","end of "}; return std::string(n[k])+show(a,120)+(k==Attr?"="+show(b,120):""); } };
typedef std::vector<Item> Items;
struct Prolog { bool hdr, dt, haspub, hassys; std::string encoding, standalone, root, pub, sys; Prolog():hdr(false),dt(false),haspub(false),hassys(false){} };
static std::string showProlog( const Prolog& p){ std::ostringstream o; if (p.hdr) o << "header encoding=" << p.encoding << " standalone=" << p.standalone << " "; if (p.dt) o << "doctype " << p.root << (p.haspub?" PUBLIC "+p.pub:std::string()) << (p.hassys?" SYSTEM "+p.sys:std::string()); return o.str(); }

// strict reader of a document entity; characters XML 1.0 excludes are taken for ordinary ones. Throws a message.
struct Strict
{
	const U32& t; size_t i; Items ev; Prolog pro;
	Strict( const U32& t_):t(t_),i(0){}
	struct Err { std::string m; };
	[[noreturn]] void err( const std::string& m){ Err e; e.m=m+" at character "+pbt::str(i)+" of "+show(t,2000); throw e; }
	static bool S( uint32_t c){ return c==' '||c=='\t'||c=='\n'||c=='\r'; }
	bool at( const char* s) const { size_t j=i; for (;*s;++s,++j) if (j>=t.size()||t[j]!=(unsigned char)*s) return false; return true; }
	void need( const char* s){ if (!at(s)) err( std::string("expected ")+s); i+=strlen(s); }
	bool ws(){ size_t b=i; while (i<t.size()&&S(t[i])) ++i; return i>b; }
	static bool nameStart( uint32_t c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'||c==':'||c>=0xA0; }
	static bool nameChar( uint32_t c){ return nameStart(c)||(c>='0'&&c<='9')||c=='-'||c=='.'; }
	U32 name(){ U32 r; if (i>=t.size()||!nameStart(t[i])) err("expected a name"); while (i<t.size()&&nameChar(t[i])) r.push_back(t[i++]); return r; }
	void ref( U32& o)
	{
		++i; U32 n; while (i<t.size() && t[i]!=';' && n.size()<20) n.push_back(t[i++]); need(";"); std::string s; for (uint32_t c: n) { if (c>127) err("illegal reference"); s+=(char)c; }
		if (s=="lt") o.push_back('<'); else if (s=="gt") o.push_back('>'); else if (s=="amp") o.push_back('&'); else if (s=="quot") o.push_back('"'); else if (s=="apos") o.push_back('\'');
		else if (s.size()>1 && s[0]=='#')
		{
			bool hx=s[1]=='x'; uint64_t v=0; size_t b=hx?2:1; if (b==s.size()) err("empty reference");
			for (size_t k=b;k<s.size();++k) { int d=(s[k]>='0'&&s[k]<='9')?s[k]-'0':hx&&s[k]>='a'&&s[k]<='f'?s[k]-'a'+10:hx&&s[k]>='A'&&s[k]<='F'?s[k]-'A'+10:99; if (d>=(hx?16:10)) err("illegal reference &"+s+";"); v=v*(hx?16:10)+d; if (v>0x7fffffff) err("reference too big"); }
			o.push_back((uint32_t)v);
		}
		else err("undefined reference &"+s+";");
	}
	std::string literal(){ if (i>=t.size()||(t[i]!='"'&&t[i]!='\'')) err("expected a literal"); uint32_t q=t[i++]; std::string r; while (i<t.size()&&t[i]!=q) r+=(char)t[i++]; if (i>=t.size()) err("literal not closed"); ++i; return r; }
	std::string pseudo( const char* n){ need(n); ws(); need("="); ws(); return literal(); }
	void parse()
	{
		if (at("<?xml"))
		{
			pro.hdr=true; i+=5; if (!ws()) err("expected space"); if (pseudo("version")!="1.0") err("version"); bool s=ws();
			if (at("encoding")) { if (!s) err("expected space"); pro.encoding=pseudo("encoding"); s=ws(); }
			if (at("standalone")) { if (!s) err("expected space"); pro.standalone=pseudo("standalone"); ws(); }
			need("?>");
		}
		ws();
		if (at("<!DOCTYPE"))
		{
			pro.dt=true; i+=9; if (!ws()) err("expected space"); U32 r=name(); for (uint32_t c: r) pro.root+=(char)c; bool s=ws();
			if (at("PUBLIC")) { if (!s) err("expected space"); i+=6; if (!ws()) err("expected space"); pro.haspub=pro.hassys=true; pro.pub=literal(); if (!ws()) err("expected space"); pro.sys=literal(); ws(); }
			else if (at("SYSTEM")) { if (!s) err("expected space"); i+=6; if (!ws()) err("expected space"); pro.hassys=true; pro.sys=literal(); ws(); }
			need(">");
		}
		ws(); std::vector<U32> stk; U32 text; bool done=false;
		while (!done)
		{
			if (i>=t.size()) err("document ends inside the root element");
			uint32_t c=t[i];
			if (c=='<')
			{
				if (!text.empty()) { ev.push_back( Item(Item::Text,text)); text.clear(); }
				++i;
				if (i<t.size()&&t[i]=='/')
				{
					++i; U32 n=name(); ws(); need(">"); if (stk.empty()||stk.back()!=n) err("end tag "+show(n)+" does not match"); stk.pop_back(); ev.push_back( Item(Item::Close,n)); done=stk.empty(); continue;
				}
				U32 n=name(); ev.push_back( Item(Item::Open,n));
				for (;;)
				{
					bool s=ws(); if (at("/>")) { i+=2; ev.push_back( Item(Item::Close,n)); done=stk.empty(); break; }
					if (at(">")) { ++i; stk.push_back(n); break; }
					if (!s) err("expected space before an attribute"); U32 a=name(); ws(); need("="); ws(); if (i>=t.size()||(t[i]!='"'&&t[i]!='\'')) err("expected a quoted value"); uint32_t q=t[i++]; U32 v;
					for (;;) { if (i>=t.size()) err("value not closed"); uint32_t x=t[i]; if (x==q) { ++i; break; } if (x=='<') err("< in a value"); if (x=='&') { ref(v); continue; } if (x=='\r') { ++i; if (i<t.size()&&t[i]=='\n') ++i; v.push_back(' '); continue; } v.push_back( x=='\t'||x=='\n'?' ':x); ++i; }
					ev.push_back( Item(Item::Attr,a,v));
				}
				continue;
			}
			if (stk.empty()) err("text outside of the root element");
			if (c=='&') { ref(text); continue; }
			if (at("]]>")) err("]]> in text");
			if (c=='\r') { ++i; if (i<t.size()&&t[i]=='\n') ++i; text.push_back('\n'); continue; }
			text.push_back(c); ++i;
		}
		ws(); if (i!=t.size()) err("something follows the root element");
	}
};

struct Op { int k; U32 v; };   // 0 open 1 attribute 2 value 3 close 4 exit context
struct Case { Prolog pro; bool sub; std::vector<Op> ops; Items want; bool lack, special; Case():sub(false),lack(false),special(false){} };

static U32 genName( pbt::Ctx& c, int io, int page, int app)
{
	pbt::Ctx::SpanGuard g(c); U32 r; unsigned n= c.chance(1,25)?1+c.draw(600):1+c.draw(6); if (c.chance(1,500)) { static const unsigned B[]={1023,1024,4095,4096,4097,20000}; n=c.of(B); }
	for (unsigned i=0;i<n;++i)
	{
		uint32_t ch='a'+c.draw(26); unsigned k=c.pick({8,2,2,1});
		if (k==1) { static const char s[]="_:AZaz09-.x"; ch=(unsigned char)s[c.draw(i?11:6)]; }
		else if (k>=2) { uint32_t x= k==2?c.range(0xC0,0x17F):c.range(0x370,0x10ffff); if (Strict::nameChar(x) && representable(io,page,x) && representable(app,1,x) && x!=0xfffe && x!=0xffff && x!=0xd7 && x!=0xf7) ch=x; }
		r.push_back(ch);
	}
	return r;
}
static U32 genValue( pbt::Ctx& c, int app, int io, int page, Case& cs)
{
	pbt::Ctx::SpanGuard g(c); U32 r; unsigned n= c.chance(1,30)?c.draw(3000):c.size(24); if (c.chance(1,1500)) { static const unsigned B[]={8191,8192,16384,32768,65535,65536,66000}; n=c.of(B); } static const char S[]="<>&'\"\n\r\t =/]-;#x&<\001\010\005\033\177\rl";
	for (unsigned i=0;i<n;++i)
	{
		uint32_t ch= c.chance(1,3)?(uint32_t)(unsigned char)S[c.draw(sizeof(S)-1)]:c.chance(1,6)?(uint32_t)c.range(1,255):cl::genChar(c,app,1);
		if (!representable(app,1,ch)) ch='v';
		r.push_back(ch); if (!representable(io,page,ch)) cs.lack=true; if (ch<128 && strchr("<>&'\"\n\r\t\b",(int)ch)) cs.special=true;
	}
	return r;
}
static Case genCase( pbt::Ctx& c, int io, int page, int app)
{
	Case r; r.sub=c.chance(1,5);
	if (!r.sub) { r.pro.hdr=true; static const char* E[]={"","UTF-8","UTF-16","ISO-8859-15","ISO-10646-UCS-4"}; r.pro.encoding=c.of(E); static const char* A[]={"","yes","no"}; r.pro.standalone=c.of(A); }
	if (unitSize(app)==1 && c.chance(1,3)) { r.pro.dt=true; unsigned n=1+c.draw(5); for (unsigned i=0;i<n;++i) r.pro.root+=(char)('a'+c.draw(26)); r.pro.hassys=c.flip(); if (r.pro.hassys) { r.pro.sys="http://a.b/c.dtd"; r.pro.haspub=c.flip(); if (r.pro.haspub) r.pro.pub=c.flip()?"-//W3C//DTD X 1.0//EN":""; } }
	std::vector<U32> stk; unsigned budget=1+c.size(40); unsigned deep=c.chance(1,60)?40+c.draw(260):0, wide=c.chance(1,60)?40+c.draw(260):0; bool intag=false; U32 text;
	#define FLUSH if (!text.empty()) { r.want.push_back( Item(Item::Text,text)); text.clear(); }
	for (bool first=true; first||!stk.empty(); first=false)
	{
		pbt::Ctx::SpanGuard g(c); Op o; unsigned k=first?0:deep?(--deep,c.chance(1,20)?2:0):wide?(--wide,intag&&c.flip()?1:stk.size()>1?3:c.chance(1,5)?2:0):budget==0?3:c.pick({4,intag?5u:0u,5,4,1}); if (budget) --budget;
		switch (k)
		{
			case 0: FLUSH o.k=0; o.v=genName(c,io,page,app); stk.push_back(o.v); intag=true; r.want.push_back( Item(Item::Open,o.v)); r.ops.push_back(o); break;
			case 1: { o.k=1; o.v=genName(c,io,page,app); Op v; v.k=2; v.v=genValue(c,app,io,page,r); r.want.push_back( Item(Item::Attr,o.v,v.v)); r.ops.push_back(o); r.ops.push_back(v); break; }
			case 2: o.k=2; o.v=genValue(c,app,io,page,r); cat( text, o.v); intag=false; r.ops.push_back(o); break;
			case 3: FLUSH o.k=3; r.want.push_back( Item(Item::Close,stk.back())); stk.pop_back(); intag=false; r.ops.push_back(o); break;
			default: o.k=4; intag=false; r.ops.push_back(o);
		}
	}
	return r;
}
static void print( pbt::Ctx& c, pl::Printer& p, const Case& k, int app, bool copies)
{
	std::unique_ptr<pl::Printer> keep; pl::Printer* q=&p;
	if (k.pro.hdr) CHECK( q->header( k.pro.encoding.empty()?0:k.pro.encoding.c_str(), k.pro.standalone.empty()?0:k.pro.standalone.c_str()), "printHeader refused");
	if (k.pro.dt) CHECK( q->doctype( k.pro.root.c_str(), k.pro.haspub?k.pro.pub.c_str():0, k.pro.hassys?k.pro.sys.c_str():0), "printDoctype refused");
	for (size_t i=0;i<k.ops.size();++i)
	{
		const Op& o=k.ops[i]; std::string b=encode(app,1,o.v); bool ok=false;
		switch (o.k) { case 0: ok=q->open(b); break; case 1: ok=q->attr(b); break; case 2: ok=q->value(b); break; case 3: ok=q->close(); break; default: ok=q->exitTag(); }
		CHECK( ok, "operation " << i << " refused: " << (q->lasterror()?q->lasterror():""));
		if (copies && i%5==3) { std::unique_ptr<pl::Printer> n( p.clone()); p.assign( *n); }
	}
}
static const char* bufName( int b){ static const char* n[]={"std::string","std::vector","OstreamOutput","StaticBuffer"}; return n[b]; }

LAW(roundtrip, 200000, 6000000, "a value with a special character or one the output encoding lacks")
{
	int io=c.draw(NofCs), page=io==LATIN?c.range(1,9):1, app=c.draw(NofCs); Case k=genCase( c, io, page, app); int buf=c.draw(3);
	std::unique_ptr<pl::Printer> p( pl::make( io, page, app, buf, k.sub, 0)); c.note( std::string("output ")+csName(io)+(io==LATIN?" page "+pbt::str(page):std::string())+", application "+csName(app)+", "+bufName(buf)+(k.sub?", sub document":"")); c.note( showProlog(k.pro)); for (auto& w: k.want) c.note( w.str());
	print( c, *p, k, app, c.chance(1,4)); std::string out=p->out(); c.key( pbt::str(io*100+page*10+app)+out); if (k.lack||k.special) c.nontrivial(); if (k.lack) c.label("unrepresentable character"); c.label( std::string("output ")+csName(io)); c.label( std::string("application ")+csName(app));
	c.note( "printed: "+pbt::quote(out,3000));
	U32 text; CHECK( decode( io, page, out, text), "the output is not well-formed " << csName(io) << ": " << pbt::quote(out,1500));
	Strict s(text); try { s.parse(); } catch (const Strict::Err& e) { c.fail( "the document printed is not well-formed: "+e.m); }
	if (k.pro.hdr && k.pro.encoding.empty()) k.pro.encoding="UTF-8";
	CHECK( showProlog(s.pro)==showProlog(k.pro), "prolog is '" << showProlog(s.pro) << "' instead of '" << showProlog(k.pro) << "'");
	for (size_t i=0;i<s.ev.size()&&i<k.want.size();++i) CHECK( s.ev[i]==k.want[i], "node " << i << " reads back as " << s.ev[i].str() << " instead of " << k.want[i].str());
	CHECK( s.ev.size()==k.want.size(), s.ev.size() << " nodes instead of " << k.want.size());
	// the library's own scanner
	sl::Cfg cfg; cfg.in=io; cfg.page=page; cfg.src=c.flip()?sl::CSTRING:sl::SRCWHOLE; cfg.out=c.flip()?UCS4BE:UCS4LE; cfg.stepLimit=out.size()*8+2000; sl::Result r=sl::scanAll( cfg, out, 0, 0, out.size()*4+100);
	Items got; U32 tx; std::vector<U32> stk; U32 an; CHECK( !r.endless && r.cause==0, "re-scan does not end");
	for (auto& e: r.ev)
	{
		U32 v; CHECK( decode( cfg.out, 1, e.value, v) || e.type==SBT::ErrorOccurred, "re-scanned value");
		switch (e.type)
		{
			case SBT::OpenTag: if (!tx.empty()) { got.push_back( Item(Item::Text,tx)); tx.clear(); } got.push_back( Item(Item::Open,v)); stk.push_back(v); break;
			case SBT::TagAttribName: an=v; break; case SBT::TagAttribValue: got.push_back( Item(Item::Attr,an,v)); break;
			case SBT::Content: if (!stk.empty()) cat(tx,v); else for (uint32_t ch: v) CHECK( Strict::S(ch), "content outside of the root element: " << e.show()); break;
			case SBT::CloseTag: case SBT::CloseTagIm: if (!tx.empty()) { got.push_back( Item(Item::Text,tx)); tx.clear(); } CHECK( !stk.empty(), "too many ends"); got.push_back( Item(Item::Close,e.type==SBT::CloseTag?v:stk.back())); stk.pop_back(); break;
			case SBT::ErrorOccurred: c.fail( "re-scan: "+e.show()); break;
			default: break;
		}
	}
	CHECK( r.ev.back().type==SBT::Exit, "re-scan ends with " << r.ev.back().show());
	for (size_t i=0;i<got.size()&&i<k.want.size();++i) CHECK( got[i]==k.want[i], "node " << i << " is scanned as " << got[i].str() << " instead of " << k.want[i].str());
	CHECK( got.size()==k.want.size(), "re-scan has " << got.size() << " nodes instead of " << k.want.size());
}
LAW(buffers, 60000, 2000000, "the fixed size buffer is too small or another buffer gets everything")
{
	int io=c.draw(NofCs), page=io==LATIN?c.range(1,9):1, app=c.draw(NofCs); Case k=genCase( c, io, page, app);
	std::unique_ptr<pl::Printer> p( pl::make( io, page, app, 0, k.sub, 0)); print( c, *p, k, app, false); std::string out=p->out(); c.key( pbt::str(io*100+page*10+app)+out); if (!out.empty()) c.nontrivial();
	size_t n=c.pick({1,1,1}); n= n==0?out.size():n==1?c.draw(out.size()+1):out.size()+c.draw(20); c.note( std::string(csName(io))+" from "+csName(app)+", "+pbt::str(out.size())+" bytes, fixed buffer "+pbt::str(n)); c.note( pbt::quote(out,2000));
	for (int b=1;b<4;++b)
	{
		std::unique_ptr<pl::Printer> q( pl::make( io, page, app, b, k.sub, n)); print( c, *q, k, app, false);
		std::string want= b==3?out.substr(0,n):out; CHECK( q->out()==want, bufName(b) << " gets " << pbt::quote(q->out()) << " instead of " << pbt::quote(want));
		CHECK( q->overflow()==(b==3 && n<out.size()), "overflow is " << q->overflow() << " with " << out.size() << " bytes into " << n);
	}
}
// the output stream as a buffer: everything appended in any way arrives at the stream in order
LAW(stream_buffer, 20000, 400000, "characters appended one by one and in blocks")
{
	std::ostringstream o; textwolf::OstreamOutput b( &o); std::string want; unsigned n=c.size(12), ones=0, blocks=0; std::unique_ptr<textwolf::OstreamOutput> cp;
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); textwolf::OstreamOutput& u=cp?*cp:b;
		switch (c.pick({4,4,1}))
		{
			case 0: { char ch=(char)c.range(0,255); u.push_back( ch); want+=ch; ++ones; c.note( "push_back "+pbt::quote(std::string(1,ch))); break; }
			case 1: { std::string s; unsigned k=c.size(40); while (k--) s+=(char)c.range(0,255); if (c.chance(1,400)) s.append( 65530+c.draw(20), 'x'); std::unique_ptr<char[]> m( new char[s.size()]); memcpy( m.get(), s.data(), s.size()); u.append( m.get(), s.size()); want+=s; blocks+=s.size()>1; c.note( "append "+pbt::quote(s)); break; }
			default: cp.reset( new textwolf::OstreamOutput( u)); c.note( "copy"); break;
		}
		CHECK( o.str()==want, "the stream got " << pbt::quote(o.str(),500) << " instead of " << pbt::quote(want,500));
	}
	c.key( want+"/"+pbt::str(ones)+"/"+pbt::str(blocks)); if (ones&&blocks) c.nontrivial();
}
