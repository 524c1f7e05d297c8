// W01: a document copied from the scanner to the printer, from any encoding through any encoding to any encoding
#include "scancheck.hpp"
#include "printlib.hpp"
using namespace enc;
PROPERTY(W01)
typedef doc::SB SBT;

// what a reader of the document sees, as bytes in the encoding of the application: adjacent texts joined, the form
// of the end of an element and the white space around the root element left out
struct Node { char k; std::string a, b; bool operator==( const Node& o) const { return k==o.k&&a==o.a&&b==o.b; } std::string str() const { return std::string(k=='E'?"element ":k=='A'?"attribute ":k=='T'?"text ":k=='/'?"end of ":"header ")+pbt::quote(a,150)+(k=='A'||k=='H'?"="+pbt::quote(b,150):""); } };
typedef std::vector<Node> Nodes;
struct Tree { Nodes n; bool error; std::string err; std::vector<std::string> stk; };
static Tree treeOf( const std::vector<sl::Event>& ev, size_t end, int app)
{
	Tree r; r.error=false; std::string tx, an; auto flush=[&](){ if (!tx.empty()) { Node x={'T',tx,""}; r.n.push_back(x); tx.clear(); } };
	for (size_t i=0;i<end;++i)
	{
		const sl::Event& e=ev[i];
		switch (e.type)
		{
			case SBT::HeaderAttribName: an=e.value; break;
			case SBT::HeaderAttribValue: { U32 n; decode( app, 1, an, n); if (n!=u32("version")) { Node x={'H',an,e.value}; r.n.push_back(x); } break; }
			case SBT::OpenTag: { flush(); Node x={'E',e.value,""}; r.n.push_back(x); r.stk.push_back( e.value); break; }
			case SBT::TagAttribName: an=e.value; break;
			case SBT::TagAttribValue: { Node x={'A',an,e.value}; r.n.push_back(x); break; }
			case SBT::Content: if (!r.stk.empty()) tx+=e.value; break;
			case SBT::CloseTag: case SBT::CloseTagIm:
			{
				flush(); if (r.stk.empty()) { r.error=true; r.err="more ends than starts"; return r; }
				if (e.type==SBT::CloseTag && e.value!=r.stk.back()) { r.error=true; r.err="end tag of another name"; return r; }
				Node x={'/',r.stk.back(),""}; r.n.push_back(x); r.stk.pop_back(); break;
			}
			case SBT::ErrorOccurred: flush(); r.error=true; r.err=e.show(); return r;
			default: break;
		}
	}
	flush(); return r;
}
static std::string ascii( int cs, const std::string& s){ U32 u; std::string r; if (decode( cs, 1, s, u)) for (uint32_t c: u) r+=c<128?(char)c:'?'; return r; }
// the copy program a user would write. Returns an error message or nothing
static std::string copyEvents( const std::vector<sl::Event>& ev, size_t end, pl::Printer& p, int app)
{
	std::string an, encoding, standalone; bool hdr=false, opened=false; unsigned depth=0;
	#define MUST(X) if (!(X)) return std::string("refused: " #X " ")+(p.lasterror()?p.lasterror():"")+" at event "+pbt::str(i)+" "+ev[i].show();
	for (size_t i=0;i<end;++i)
	{
		const sl::Event& e=ev[i];
		switch (e.type)
		{
			case SBT::HeaderAttribName: an=ascii(app,e.value); break;
			case SBT::HeaderAttribValue: if (an=="encoding") encoding=ascii(app,e.value); else if (an=="standalone") standalone=ascii(app,e.value); break;
			case SBT::OpenTag: if (!hdr) { hdr=true; MUST( p.header( encoding.empty()?0:encoding.c_str(), standalone.empty()?0:standalone.c_str())); } MUST( p.open( e.value)); ++depth; opened=true; break;
			case SBT::TagAttribName: MUST( p.attr( e.value)); break;
			case SBT::TagAttribValue: MUST( p.value( e.value)); break;
			case SBT::Content: if (depth && !e.value.empty()) MUST( p.value( e.value)); break;
			case SBT::CloseTag: case SBT::CloseTagIm: MUST( p.close()); --depth; break;
			default: break;
		}
	}
	#undef MUST
	(void)opened; return "";
}
static std::string diff( const Nodes& got, const Nodes& want, bool prefix)
{
	std::ostringstream o;
	for (size_t i=0;i<got.size()&&i<want.size();++i) if (!(got[i]==want[i])) { o << "node " << i << " is " << got[i].str() << " instead of " << want[i].str(); return o.str(); }
	if (got.size()<want.size() || (!prefix && got.size()>want.size())) o << got.size() << " nodes instead of " << want.size() << (got.size()<want.size()?", missing "+want[got.size()].str():", there is also "+got[want.size()].str());
	return o.str();
}
static sl::Result read( pbt::Ctx& c, int in, int page, int app, const std::string& b, std::string* how)
{
	sl::Cfg cfg; cfg.in=in; cfg.page=page; cfg.out=app; cfg.stepLimit=b.size()*8+2000; bool chunked=c.chance(1,4); static const int S[]={sl::CSTRING,sl::SRCWHOLE,sl::CSTRING,sl::SRCWHOLE,sl::ISTREAM,sl::USERIT,sl::CHARPTR,sl::STDSTREAM}; cfg.src=chunked?sl::CHUNKED:c.of(S);
	if (sl::outFor( cfg.src, in, app)!=app) cfg.src=sl::CSTRING; cfg.vec=c.chance(1,6); cfg.iter=!chunked && c.chance(1,6);
	if (cfg.src==sl::CHARPTR && b.find('\0')!=std::string::npos) cfg.src=sl::CSTRING;
	if (cfg.src==sl::ISTREAM||cfg.src==sl::STDSTREAM) { cfg.bufsize=sc::genBufsize(c); if (cfg.src==sl::ISTREAM) cfg.reads=sc::genReads(c); }
	if (how) *how=cfg.show();
	if (chunked) { cfg.iter=cfg.vec=false; std::vector<size_t> cuts=sc::genCuts( c, b.size()); return sl::scanChunked( cfg, b, cuts, c.flip(), 0, 0, b.size()*4+100); }
	return sl::scanAll( cfg, b, 0, 0, b.size()*4+100);
}
struct Setup { int in, inpage, app, io, iopage; std::string show() const { return std::string(csName(in))+(in==LATIN?" page "+pbt::str(inpage):std::string())+" -> "+csName(app)+" -> "+csName(io)+(io==LATIN?" page "+pbt::str(iopage):std::string()); } };
static Setup genSetup( pbt::Ctx& c)
{
	Setup s; s.in=sc::genIn( c, &s.inpage); s.app=c.chance(1,4)?s.in:(int)c.draw(NofCs); s.io=c.chance(1,4)?s.in:(int)c.draw(NofCs); s.iopage=s.io==LATIN?c.range(1,9):1; return s;
}
// a document whose names exist in all three encodings; values may hold anything
static doc::Doc genDoc( pbt::Ctx& c, const Setup& s)
{
	doc::Opt o; o.page=s.inpage; o.css.push_back( s.in); o.maxElems=1+c.draw(10); o.big=c.chance(1,10); o.verbatim=c.flip(); o.names.push_back( std::make_pair( s.app, 1)); o.names.push_back( std::make_pair( s.io, s.iopage));
	return doc::generate( c, o);
}

LAW(copy, 120000, 5000000, "a value needs a reference in the copy, or the encodings differ and the document has attributes and text")
{
	Setup s=genSetup(c); doc::Doc d=genDoc( c, s); std::string b=encode( s.in, s.inpage, d.text); c.note( s.show()); c.note( d.describe()); std::string how;
	sl::Result r=read( c, s.in, s.inpage, s.app, b, &how); c.note( "read: "+how); CHECK( !r.endless && r.cause==0 && r.ev.size() && r.ev.back().type==SBT::Exit, "the document is not read to its end"); Tree t=treeOf( r.ev, r.ev.size(), s.app); CHECK( !t.error, "events: "+t.err);
	int buf=c.draw(3); std::unique_ptr<pl::Printer> p( pl::make( s.io, s.iopage, s.app, buf, false, 0)); std::string m=copyEvents( r.ev, r.ev.size(), *p, s.app); CHECK( m.empty(), m); std::string out=p->out(); c.note( "copy: "+pbt::quote(out,3000));
	sl::Result r2=read( c, s.io, s.iopage, s.app, out, &how); c.note( "read again: "+how); CHECK( !r2.endless && r2.cause==0 && r2.ev.size() && r2.ev.back().type==SBT::Exit, "the copy is not read to its end: " << (r2.ev.empty()?std::string():r2.ev.back().show())); Tree t2=treeOf( r2.ev, r2.ev.size(), s.app);
	CHECK( !t2.error, "events of the copy: "+t2.err); Nodes w; bool hasenc=false; for (auto& n: t.n) if (n.k=='H' && ascii(s.app,n.a)=="encoding") hasenc=true; if (!hasenc) { Node x={'H',encode(s.app,1,u32("encoding")),encode(s.app,1,u32("UTF-8"))}; w.push_back(x); } for (auto& n: t.n) w.push_back(n);
	std::string df=diff( t2.n, w, false); CHECK( df.empty(), "the copy read again: "+df);
	// a copy of a copy is the copy, byte for byte
	std::unique_ptr<pl::Printer> p2( pl::make( s.io, s.iopage, s.app, c.draw(3), false, 0)); m=copyEvents( r2.ev, r2.ev.size(), *p2, s.app); CHECK( m.empty(), "second copy "+m); CHECK( p2->out()==out, "a copy of the copy differs: " << pbt::quote( p2->out(), 1500) << " instead of " << pbt::quote(out,1500));
	// and through another application encoding that has all characters, or none of the characters beyond ASCII
	if (c.flip())
	{
		static const int A[]={UTF8,UCS4LE,UCS4BE}; int app=c.of(A); sl::Result r3=read( c, s.io, s.iopage, app, out, &how); std::unique_ptr<pl::Printer> p3( pl::make( s.io, s.iopage, app, c.draw(3), false, 0)); m=copyEvents( r3.ev, r3.ev.size(), *p3, app); CHECK( m.empty(), "copy of the copy "+m); CHECK( p3->out()==out, "a copy of the copy by " << csName(app) << " differs: " << pbt::quote( p3->out(), 1500) << " instead of " << pbt::quote(out,1500));
	}
	bool ref=out.find("&")!=std::string::npos; c.key( s.show()+b); if (ref || (s.in!=s.io && d.attrs && d.texts)) c.nontrivial(); if (ref) c.label("references in the copy"); c.label( std::string("from ")+csName(s.in)); c.label( std::string("to ")+csName(s.io));
}
// a copy stopped at any event holds what has been copied
LAW(partial, 60000, 2500000, "the copy is stopped inside the root element")
{
	Setup s=genSetup(c); doc::Doc d=genDoc( c, s); U32 tx=d.text; bool cut=c.flip(); if (cut) tx.resize( c.draw( tx.size()+1)); std::string b=encode( s.in, s.inpage, tx); c.note( s.show()); c.note( show(tx,3000));
	sl::Result r=read( c, s.in, s.inpage, s.app, b, 0); CHECK( !r.endless && r.cause==0 && r.ev.size(), "the document is not read to its end"); size_t end=r.ev.size(); while (end && r.ev[end-1].type==SBT::ErrorOccurred) --end; if (!cut || c.flip()) end=c.draw(end+1);
	while (end && r.ev[end-1].type==SBT::TagAttribName) --end;
	// a content cut off at the end is not complete either, but delivered
	Tree t=treeOf( r.ev, end, s.app); CHECK( !t.error, "events: "+t.err); std::unique_ptr<pl::Printer> p( pl::make( s.io, s.iopage, s.app, c.draw(3), false, 0)); std::string m=copyEvents( r.ev, end, *p, s.app); CHECK( m.empty(), m); bool inside=!t.stk.empty(); if (inside) CHECK( p->exitTag(), "exitTagContext refused: " << p->lasterror());
	std::string out=p->out(); c.note( "copy: "+pbt::quote(out,3000)); c.key( s.show()+b+pbt::str(end)); if (inside) c.nontrivial();
	Nodes w, g; for (auto& n: t.n) if (n.k!='H') w.push_back(n);
	sl::Result r2=read( c, s.io, s.iopage, s.app, out, 0); CHECK( !r2.endless && r2.cause==0, "the copy is not read to its end"); size_t n2=r2.ev.size(); while (n2 && r2.ev[n2-1].type==SBT::ErrorOccurred) --n2; if (!inside) CHECK( n2==r2.ev.size() || w.empty(), "the complete copy has an error: " << r2.ev.back().show()); Tree t2=treeOf( r2.ev, n2, s.app); CHECK( !t2.error, "events of the copy: "+t2.err); for (auto& n: t2.n) if (n.k!='H') g.push_back(n);
	std::string df=diff( g, w, false); CHECK( df.empty(), "the copy read again: "+df); CHECK( t2.stk==t.stk, "elements open at the end differ");
}
