// F01: allocations that fail are reported, lose nothing and corrupt nothing
#include "fault.hpp"
#include "scancheck.hpp"
#include "printlib.hpp"
#include "pathlib.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#undef malloc
#undef calloc
#undef realloc
using namespace xp; using namespace enc;
using pbt::allocatedBlocks;
PROPERTY(F01)

namespace fault { bool armed=false, persistent=false, hit=false; unsigned long count=0, at=0; }
static void* get( size_t n){ if (fault::now()) return 0; return malloc( n?n:1); }
void* operator new( size_t n){ void* p=get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[]( size_t n){ void* p=get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new( size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[]( size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete( void* p) noexcept { free(p); }
void operator delete[]( void* p) noexcept { free(p); }
void operator delete( void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[]( void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete( void* p, size_t) noexcept { free(p); }
void operator delete[]( void* p, size_t) noexcept { free(p); }

// how a step ended
enum How {Done,Reported,Wrong};
template <class F> static How guarded( F f, int* cause=0)
{
	try { fault::On on; f(); return Done; }
	catch (const std::bad_alloc&) { return Reported; }
	catch (const tw::exception& e) { if (cause) *cause=e.cause; return e.cause==tw::throws_exception::OutOfMem?Reported:Wrong; }
}
static unsigned long pickAt( pbt::Ctx& c, unsigned long n){ return n?1+c.draw( n):0; }
static void warmUp(){ static bool done=false; if (done) return; done=true; try { throw std::bad_alloc(); } catch (const std::bad_alloc&) {} try { throw tw::exception( tw::throws_exception::OutOfMem); } catch (const tw::exception&) {} }

// --- scanner
struct Run { std::vector<sl::Event> ev; size_t failedAt; bool failed, wrong, endless; int cause; unsigned after; Run():failedAt(0),failed(false),wrong(false),endless(false),cause(0),after(0){} };
static void scan( const sl::Cfg& cfg, const std::string& doc, const std::vector<size_t>& cuts, size_t lim, unsigned cont, Run& r)
{
	std::unique_ptr<char[]> piece; size_t ci=0, at=0; bool last=false; std::unique_ptr<sl::Scanner> s; r.ev.reserve( lim+2);
	How h=guarded( [&]{ s=sl::make( cfg, cfg.src==sl::CHUNKED?std::string():doc); }, &r.cause);
	if (h!=Done) { r.failed=true; r.wrong=h==Wrong; return; }
	for (;;)
	{
		if (r.ev.size()+r.after>=lim) { r.endless=true; return; }
		sl::Event e; bool have=false; h=guarded( [&]{ have=s->next( 0xFFFF, e); }, &r.cause);
		if (h==Wrong) { r.failed=r.wrong=true; return; }
		if (h==Reported) { if (!r.failed) { r.failed=true; r.failedAt=r.ev.size(); } if (cont--==0) return; ++r.after; continue; }
		if (!have)
		{
			if (last) { r.endless=!r.failed; return; }
			size_t to; if (ci<cuts.size()) to=cuts[ci++]; else { to=doc.size(); last=true; }
			std::unique_ptr<char[]> exact( new char[ to-at?to-at:1]); memcpy( exact.get(), doc.data()+at, to-at); s->feed( exact.get(), to-at, last); piece.swap( exact); at=to; continue;
		}
		if (!r.failed) r.ev.push_back(e); else { ++r.after; }
		if (e.type==SB::Exit || e.type==SB::ErrorOccurred) return;
	}
}
LAW(scanner, 60000, 2000000, "an allocation failed after at least one event")
{
	warmUp(); sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); static const int S[]={sl::CSTRING,sl::CHUNKED,sl::ISTREAM,sl::USERIT,sl::SRCWHOLE}; cfg.src=c.of(S); cfg.out=sl::outFor( cfg.src, cfg.in, sc::genOut(c,cfg.in)); cfg.vec=cfg.out==cfg.in&&c.chance(1,4); cfg.iter=cfg.src!=sl::CHUNKED&&c.chance(1,4); cfg.ctor=c.pick({3,1});
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=c.chance(1,8); o.maxElems=1+c.draw(6); std::string d=encode( cfg.in, cfg.page, doc::generate(c,o).text);
	std::vector<size_t> cuts; if (cfg.src==sl::CHUNKED) cuts=sc::genCuts( c, d.size()); if (cfg.src==sl::ISTREAM) { cfg.bufsize=sc::genBufsize(c); cfg.reads=sc::genReads(c); }
	size_t lim=2*d.size()+100; c.note( cfg.show()); c.note( "input "+pbt::quote(d,3000)); c.key( cfg.show()+d);
	Run ref; fault::plan( 0, false); scan( cfg, d, cuts, lim, 0, ref); CHECK( !ref.failed && !ref.endless, "the scan without failure ends with " << ref.cause); unsigned long n=0; for (int i=0;i<2;++i) { Run x; fault::plan( 0, false); scan( cfg, d, cuts, lim, 0, x); n=fault::count; }   // the first use of a class may allocate tables
	for (unsigned k=0;k<4;++k)
	{
		unsigned long at=pickAt(c,n); bool pers=c.chance(1,3); unsigned cont=pers?c.draw(3):c.draw(2)*1000; c.note( "allocation "+pbt::str(at)+" of "+pbt::str(n)+(pers?" and all after":"")+" fails, continued "+pbt::str(cont)); c.key( pbt::str(at)+(pers?"p":"s"));
		std::string err; size_t evs=0; bool failed=false; long b0=allocatedBlocks();
		{
			Run r; fault::plan( at, pers); scan( cfg, d, cuts, lim+cont, cont, r); evs=r.ev.size(); failed=r.failed; bool hit=fault::hit; fault::plan(0,false); std::ostringstream e;
			if (r.wrong) e << "a failed allocation is reported as exception " << r.cause;
			else if (r.endless) e << "the scan does not end";
			else if (hit && !r.failed && r.ev.size()!=ref.ev.size() && !(r.ev.size()&&r.ev.back().type==SB::ErrorOccurred)) e << "a failed allocation was not reported: " << r.ev.size() << " events instead of " << ref.ev.size();
			else { for (size_t i=0;i<r.ev.size();++i) if (i>=ref.ev.size() || (!r.ev[i].same( ref.ev[i], true) && !(hit && !r.failed && i+1==r.ev.size() && r.ev[i].type==SB::ErrorOccurred))) { e << "event #" << i << " is " << r.ev[i].show() << " instead of " << (i<ref.ev.size()?ref.ev[i].show():std::string("nothing")); break; } }
			if (at && !hit) e << " allocation " << at << " of " << n << " did not happen";
			err=e.str();
		}
		long b1=allocatedBlocks(); CHECK( err.empty(), err); CHECK( b1==b0, b1-b0 << " blocks lost");
		if (failed && evs) c.nontrivial(); if (cont) c.label( "used after the failure");
	}
	c.label( sl::srcName( cfg.src));
}

// --- path automaton
template <class SRC, class CS> struct ParserAtm :Atm
{
	typedef tw::XMLPathSelectAutomatonParser<SRC,CS> A; typedef tw::XMLPathSelect<CS> S;
	A a; int c; explicit ParserAtm( int cs_):c(cs_){}
	void add( const Expr& e, unsigned refs){ compose( a, c, e, refs); }
	int addText( int type, const std::string& src){ return a.addExpression( type, src.c_str(), src.size()); }
	Sel* sel() const { return new SelT<S>( &a, 0); }
	int cs() const { return c; }
};
static Atm* make( int cs)
{
	switch (cs)
	{
		case enc::UTF16BE: return new ParserAtm<tw::charset::UTF8,tw::charset::UTF16BE>(cs);
		case enc::UCS4LE: return new ParserAtm<tw::charset::UTF8,tw::charset::UCS4LE>(cs);
		default: return new ParserAtm<tw::charset::UTF8,tw::charset::UTF8>(enc::UTF8);
	}
}
static int genCs( pbt::Ctx& c){ static const int t[]={enc::UTF8,enc::UTF16BE,enc::UCS4LE}; return t[c.pick({4,1,1})]; }
static void simple( std::vector<Expr>& ee, std::vector<Expr>& r){ for (Expr& e: ee) { for (Step& s: e.steps) if (s.names.size()>1) s.names.resize(1); if (e.onames.size()>1) e.onames.resize(1); r.push_back(e); } }
static void setup( pbt::Ctx& c, Doc& d, std::vector<Expr>& ee, int& cs, unsigned max)
{
	Pool p=genPool( c, c.chance(1,2)); genDoc( c, d, p, 14); cs=genCs(c); std::vector<Expr> g=genExprs( c, p, d, max, ExprOpt(), true); if (g.size()>12) g.resize(12); simple( g, ee); noteCase( c, d, ee, cs); c.key( keyCase(d,ee)+enc::csName(cs));
}
LAW(automaton, 60000, 2000000, "an allocation failed while an expression was defined and the expressions select something")
{
	warmUp(); Doc d; std::vector<Expr> ee; int cs; setup( c, d, ee, cs, 4); Result exp=expected( d, ee); std::vector<unsigned> refs; for (size_t i=0;i<ee.size();++i) refs.push_back( c.draw(4));
	unsigned long n; { std::unique_ptr<Atm> a( make(cs)); fault::plan(0,false); for (size_t i=0;i<ee.size();++i) { fault::On on; a->add( ee[i], refs[i]); } n=fault::count; }
	for (unsigned k=0;k<3;++k)
	{
		unsigned long at=pickAt(c,n); bool pers=c.flip(), retry=c.chance(2,3); c.note( "allocation "+pbt::str(at)+" of "+pbt::str(n)+(pers?" and all after":"")+" fails"); c.key( pbt::str(at)+(pers?"p":"s"));
		std::string err; bool failed=false; Result want; size_t fi=0;
		{ std::unique_ptr<Atm> x( make(cs)); std::unique_ptr<Sel> s( x->sel()); run( *s, cs, d); }
		long b0=allocatedBlocks();
		{
			std::unique_ptr<Atm> a( make(cs)); fault::plan( at, pers); std::vector<Expr> done; std::ostringstream e; size_t i=0; int cause=0;
			for (;i<ee.size();++i) { How h=guarded( [&]{ a->add( ee[i], refs[i]); }, &cause); if (h==Wrong) { e << "a failed allocation is reported as exception " << cause; break; } if (h==Reported) { failed=true; break; } done.push_back( ee[i]); }
			bool hit=fault::hit; fault::plan(0,false); fi=i;
			if (e.str().empty())
			{
				if (hit && !failed) {} // served without the memory
				std::unique_ptr<Sel> s( a->sel()); Result got=run( *s, cs, d); std::string df=diff( d, got, expected( d, done), "after the failure selected");
				if (failed && !df.empty()) { done.push_back( ee[i]); if (diff( d, got, expected( d, done)).empty()) df.clear(); done.pop_back(); }
				if (!df.empty()) e << df;
				else if (failed && retry) { for (;i<ee.size();++i) a->add( ee[i], refs[i]); s.reset( a->sel()); got=run( *s, cs, d); df=diff( d, got, exp, "defined again, selected"); if (!df.empty()) e << df; }
			}
			err=e.str();
		}
		long b1=allocatedBlocks(); CHECK( err.empty(), err << " (expression " << fi << ")"); CHECK( b1==b0, b1-b0 << " blocks lost"); if (failed) { if (total(exp)) c.nontrivial(); if (retry) c.label("defined again"); if (fi) c.label("with expressions defined before"); }
	}
}
LAW(automaton_copies, 30000, 800000, "an allocation failed while an automaton with expressions was assigned or copied")
{
	typedef tw::XMLPathSelectAutomatonParser<tw::charset::UTF8,tw::charset::UTF8> A; typedef tw::XMLPathSelect<tw::charset::UTF8> S;
	warmUp(); Doc d; std::vector<Expr> ee, e2; int cs; setup( c, d, ee, cs, 4); unsigned m=c.draw( ee.size()+1); e2.assign( ee.begin()+m, ee.end()); ee.resize(m); Result x1=expected( d, ee), x2=expected( d, e2);
	auto fill=[&]( A& a, std::vector<Expr>& v){ for (Expr& e: v) compose( a, enc::UTF8, e, 0); }; bool copy=c.chance(1,3), retry=c.flip();
	unsigned long n; { A a, b; fill( a, ee); fill( b, e2); fault::plan(0,false); { fault::On on; if (copy) A x( a); else b=a; } n=fault::count; }
	for (unsigned k=0;k<3;++k)
	{
		unsigned long at=pickAt(c,n); bool pers=c.flip(); c.note( std::string(copy?"copy":"assignment")+": allocation "+pbt::str(at)+" of "+pbt::str(n)+(pers?" and all after":"")+" fails"); c.key( pbt::str(at)+(pers?"p":"s")+(copy?"c":"a")); std::string err; bool failed=false; long b0=allocatedBlocks();
		{
			A a, b; fill( a, ee); fill( b, e2); int cause=0; std::ostringstream e; std::unique_ptr<A> x; fault::plan( at, pers); How h=guarded( [&]{ if (copy) x.reset( new A( a)); else b=a; }, &cause); fault::plan(0,false); failed=h!=Done;
			if (h==Wrong) e << "a failed allocation is reported as exception " << cause;
			auto use=[&]( A& q, const Result& want, const char* what){ SelT<S> s( &q, 0); Result got=run( s, enc::UTF8, d); std::string df=diff( d, got, want); if (!df.empty() && e.str().empty()) e << what << ": " << df; };
			use( a, x1, "the original"); use( b, copy||failed?x2:x1, "the automaton assigned"); if (x) use( *x, x1, "the copy");
			if (failed && retry) { if (copy) x.reset( new A( a)); else b=a; use( copy?*x:b, x1, "copied again"); }
			err=e.str();
		}
		long b1=allocatedBlocks(); CHECK( err.empty(), err); CHECK( b1==b0, b1-b0 << " blocks lost"); if (failed && !ee.empty()) c.nontrivial();
	}
}
static std::string textOf( pbt::Ctx& c)
{
	static const char* t[]={"a","/a/b","//a","/a//b()","a@x","/a[@x='v']/b","/{a,b}","a[1,3]()","//*()","/a/b~","a@{x,y}","/*[@x=\"averyveryverylongvaluethatdoesnotfitinashortstring\"]","/averyveryverylongtagnamethatdoesnotfitinashortstring/b","/a[","a]b","@{x,","/a[@x='1","a[1","//","a()b"}; return c.of(t);
}
LAW(text_expressions, 60000, 2000000, "an allocation failed while an expression was parsed")
{
	warmUp(); Doc d; std::vector<Expr> ee; int cs; setup( c, d, ee, cs, 2); expected( d, ee); std::vector<std::string> tt; unsigned m=1+c.draw(3); while (m--) { tt.push_back( textOf(c)); c.note( "text: "+tt.back()); c.key( tt.back()); }
	unsigned long n; std::vector<int> rc; Result full;
	{ std::unique_ptr<Atm> a( make(cs)); for (Expr& e: ee) a->add( e, 0); fault::plan(0,false); for (size_t i=0;i<tt.size();++i) { fault::On on; rc.push_back( a->addText( 100+i, tt[i])); } n=fault::count; fault::armed=false; std::unique_ptr<Sel> s( a->sel()); full=run( *s, cs, d); }
	for (unsigned k=0;k<3;++k)
	{
		unsigned long at=pickAt(c,n); bool pers=c.flip(); c.note( "allocation "+pbt::str(at)+" of "+pbt::str(n)+(pers?" and all after":"")+" fails"); c.key( pbt::str(at)+(pers?"p":"s"));
		std::string err; bool failed=false; long b0=allocatedBlocks();
		{
			std::unique_ptr<Atm> a( make(cs)); for (Expr& e: ee) a->add( e, 0); fault::plan( at, pers); std::ostringstream e; size_t i=0; int cause=0;
			for (;i<tt.size();++i)
			{
				int r=0; How h=guarded( [&]{ r=a->addText( 100+i, tt[i]); }, &cause); if (h==Wrong) { e << "a failed allocation is reported as exception " << cause; break; } if (h==Reported) { failed=true; break; }
				if (fault::hit && r && !rc[i]) { failed=true; break; }     // reported by its return value
				if (r!=rc[i]) { e << "'" << tt[i] << "' returns " << r << " instead of " << rc[i]; break; }
			}
			fault::plan(0,false);
			if (e.str().empty() && failed)
			{
				std::unique_ptr<Sel> s( a->sel()); run( *s, cs, d);
				for (;i<tt.size();++i) { int r=a->addText( 100+i, tt[i]); if (r!=rc[i]) e << "'" << tt[i] << "' returns " << r << " instead of " << rc[i] << " when defined again"; }
				s.reset( a->sel()); Result got=run( *s, cs, d);
				// an alternative of the failed expression may have been defined before the failure, it is selected twice now
				for (size_t x=0;x<got.size();++x) { std::vector<int> g=got[x], w=full[x]; g.erase( std::unique(g.begin(),g.end()), g.end()); w.erase( std::unique(w.begin(),w.end()), w.end()); if (g!=w && e.str().empty()) e << "at event " << x << " defined again, selected " << showTypes(g) << " instead of " << showTypes(w); }
			}
			err=e.str();
		}
		long b1=allocatedBlocks(); CHECK( err.empty(), err); CHECK( b1==b0, b1-b0 << " blocks lost"); if (failed) c.nontrivial();
	}
}
LAW(selector, 60000, 2000000, "an allocation failed after the selector has seen at least one event")
{
	warmUp(); Doc d; std::vector<Expr> ee; int cs; setup( c, d, ee, cs, 4); expected( d, ee); std::unique_ptr<Atm> a( make(cs)); for (Expr& e: ee) a->add( e, 0);
	Result exp; { std::unique_ptr<Sel> s( a->sel()); exp=run( *s, cs, d); } std::vector<std::string> keys; for (auto& ev: d.ev) keys.push_back( evKey( cs, ev.key)); int mode=c.draw(6); bool copies=c.flip();
	auto drive=[&]( Result& got, size_t& upto, int& cause, bool& failed, std::string& err, bool on)
	{
		std::unique_ptr<Sel> s; failed=false; upto=0; How h=guarded( [&]{ s.reset( a->sel()); }, &cause); if (h!=Done) { failed=true; if (h==Wrong) err="wrong"; return; }
		for (size_t i=0;i<d.ev.size();++i)
		{
			if (copies && i%5==4) { std::unique_ptr<Sel> t; h=guarded( [&]{ t.reset( s->clone()); t->assign( *s); }, &cause); if (h==Wrong) { err="wrong"; return; } if (h==Reported) { if (!failed) upto=i; failed=true; } else s.swap( t); }
			std::vector<int> out; out.reserve( 64); h=guarded( [&]{ s->push( d.ev[i].type, keys[i], mode, out); }, &cause); if (h==Wrong) { err="wrong"; return; }
			if (h==Reported) { if (!failed) upto=i; failed=true; if (!on) return; continue; }
			if (!failed) { std::sort( out.begin(), out.end()); got.push_back( out); upto=i+1; }
		}
	};
	Result ref; size_t u; int cause=0; bool failed; std::string err; fault::plan(0,false); drive( ref, u, cause, failed, err, true); unsigned long n=fault::count; CHECK( !failed && err.empty(), "exception " << cause << " without failure");
	for (unsigned k=0;k<3;++k)
	{
		unsigned long at=pickAt(c,n); bool pers=c.chance(1,3), on=c.flip(); c.note( "allocation "+pbt::str(at)+" of "+pbt::str(n)+(pers?" and all after":"")+" fails"+(on?", continued":"")); c.key( pbt::str(at)+(pers?"p":"s"));
		err.clear(); err.reserve( 400); size_t bad=~size_t(0); long b0=allocatedBlocks();
		{
			Result got; got.reserve( d.ev.size()+1); fault::plan( at, pers); drive( got, u, cause, failed, err, on); fault::plan(0,false);
			for (size_t i=0;i<got.size();++i) if (got[i]!=ref[i]) { bad=i; break; }
			if (!failed && got.size()!=ref.size()) bad=got.size();
		}
		long b1=allocatedBlocks(); CHECK( err.empty(), "a failed allocation is reported as exception " << cause); CHECK( bad==~size_t(0), "event " << bad << " selects something else than without the failure later on"); CHECK( b1==b0, b1-b0 << " blocks lost"); if (failed && u) c.nontrivial(); if (failed && on) c.label("used after the failure");
	}
}

// --- header parser
LAW(header_parser, 60000, 2000000, "an allocation failed after the first chunk of input")
{
	warmUp(); static const char* H[]={"<?xml version='1.0' encoding='UTF-8'?><doc/>","<?xml version=\"1.0\" encoding=\"an-encoding-name-longer-than-a-short-string\" standalone='yes' ?>","<doc>no header, but a first tag longer than a short string</doc>","<?xml standalone='yes'                                                     encoding='x'?>","<?xml version='1.0'?>","<?xml encodin='1'?>","?<xml"};
	std::string b, t=c.of(H); unsigned w=c.draw(4); for (char ch: t) { if (w==1) b+='\0'; if (w==3) b.append(3,'\0'); b+=ch; if (w==2) b+='\0'; } std::vector<size_t> cuts=sc::genCuts( c, b.size()); c.key( b+pbt::str(cuts.size())); c.note( pbt::quote(b)); bool copies=c.flip(), assign=c.flip();
	struct R { std::string enc, err; bool he, end, failed, wrong; size_t at; R():he(false),end(false),failed(false),wrong(false),at(0){} };
	auto drive=[&]( R& r, int& cause)
	{
		tw::XmlHdrParser p; size_t at=0;
		for (size_t i=0;i<=cuts.size()&&!r.end;++i)
		{
			size_t to=i<cuts.size()?cuts[i]:b.size(); std::unique_ptr<char[]> m( new char[to-at?to-at:1]); memcpy( m.get(), b.data()+at, to-at); How h=guarded( [&]{ p.putInput( m.get(), to-at); r.end=p.parse(); }, &cause);
			if (h==Wrong) { r.wrong=true; return; } if (h==Reported) { if (!r.failed) { r.failed=true; r.at=i; } r.end=false; }
			if (copies) { tw::XmlHdrParser q; h=guarded( [&]{ if (assign) q=p; else { tw::XmlHdrParser z(p); q=z; } p=q; }, &cause); if (h!=Done && !r.failed) { r.failed=true; r.at=i; } }
			at=to;
		}
		if (!r.failed) { r.he=p.encoding()!=0; if (r.he) r.enc=p.encoding(); if (p.lasterror()) r.err=p.lasterror(); }
	};
	R ref; int cause=0; fault::plan(0,false); drive( ref, cause); unsigned long n=fault::count; if (ref.wrong) return;
	for (unsigned k=0;k<3;++k)
	{
		unsigned long at=pickAt(c,n); bool pers=c.flip(); c.key( pbt::str(at)+(pers?"p":"s")); c.note( "allocation "+pbt::str(at)+" of "+pbt::str(n)+(pers?" and all after":"")+" fails"); bool failed, wrong, same; size_t fa; long b0=allocatedBlocks();
		{ R r; fault::plan( at, pers); drive( r, cause); fault::plan(0,false); failed=r.failed; wrong=r.wrong; fa=r.at; same=r.he==ref.he&&r.enc==ref.enc&&r.err==ref.err&&r.end==ref.end; }
		long b1=allocatedBlocks(); CHECK( !wrong || failed, "a failed allocation is reported as exception " << cause); CHECK( failed || same, "a failed allocation was not reported and the result differs"); CHECK( b1==b0, b1-b0 << " blocks lost"); if (failed && fa) c.nontrivial();
	}
}

// --- printer
LAW(printer, 80000, 2000000, "an allocation failed after at least one element was printed")
{
	warmUp(); int io=c.draw(NofCs), app=c.draw(NofCs), page=1, buf=c.draw(2); bool sub=c.flip(); struct O { int k; std::string v; }; std::vector<O> ops; unsigned n=2+c.size(40); static const int big[]={40,100,240,256,300,700,2000};
	for (unsigned i=0;i<n;++i) { O o; o.k=c.pick({6,2,3,3,1,1}); if (o.k<3) { std::string v; unsigned l=c.chance(1,4)?c.of(big):1+c.draw(20); for (unsigned j=0;j<l;++j) put( app, 1, 'a'+(i+j)%26, v); if (o.k==2&&c.chance(1,3)) put( app, 1, '<', v); o.v=v; } else if (o.k==4) o.v=c.flip()?"c":"a"; ops.push_back(o); }
	std::string key; for (O& o: ops) { key+=char('0'+o.k); key+=pbt::str(o.v.size())+","; } c.key( key+pbt::str(io)+pbt::str(app)+pbt::str(buf)); c.note( std::string("encodings ")+csName(io)+" "+csName(app)+" operations (kind length) "+key);
	struct R { std::vector<int> ok; std::string out; size_t at; bool failed, wrong; R():at(0),failed(false),wrong(false){} };
	auto drive=[&]( R& r, int& cause, bool on)
	{
		r.ok.reserve( ops.size()+2); std::unique_ptr<pl::Printer> p; How h=guarded( [&]{ p.reset( pl::make( io, page, app, buf, sub, 0)); }, &cause); if (h!=Done) { r.failed=true; r.wrong=h==Wrong; return; }
		for (size_t i=0;i<ops.size();++i)
		{
			bool ok=false; O& o=ops[i];
			h=guarded( [&]{ switch (o.k) { case 0: ok=p->open(o.v); break; case 1: ok=p->attr(o.v); break; case 2: ok=p->value(o.v); break; case 3: ok=p->close(); break; case 4: { if (o.v=="c") { pl::Printer* q=p->clone(); p.reset( q); } else { std::unique_ptr<pl::Printer> q( p->clone()); p->assign( *q); } ok=true; break; } default: ok=p->header( "utf-8", 0); } }, &cause);
			if (h==Wrong) { r.wrong=true; return; }
			if (h==Reported) { if (!r.failed) { r.failed=true; r.at=i; } if (!on) return; continue; }
			if (!r.failed) r.ok.push_back( ok);
		}
		if (!r.failed) r.out=p->out();
	};
	R ref; int cause=0; fault::plan(0,false); drive( ref, cause, false); unsigned long na=fault::count; CHECK( !ref.failed && !ref.wrong, "exception " << cause << " without failure");
	for (unsigned k=0;k<3;++k)
	{
		unsigned long at=pickAt(c,na); bool pers=c.chance(1,3), on=c.chance(2,3); c.key( pbt::str(at)+(pers?"p":"s")); c.note( "allocation "+pbt::str(at)+" of "+pbt::str(na)+(pers?" and all after":"")+" fails"+(on?", continued":"")); bool failed, wrong, same; size_t fa; long b0=allocatedBlocks();
		{ R r; fault::plan( at, pers); drive( r, cause, on); fault::plan(0,false); failed=r.failed; wrong=r.wrong; fa=r.at; same=std::equal( r.ok.begin(), r.ok.end(), ref.ok.begin()) && (failed || r.out==ref.out); }
		long b1=allocatedBlocks(); CHECK( !wrong, "a failed allocation is reported as exception " << cause); CHECK( same, "results before the failure differ from those without failure"); CHECK( b1==b0, b1-b0 << " blocks lost"); if (failed && fa && ref.ok[0]) c.nontrivial(); if (failed && on) c.label("used after the failure");
	}
}

// --- stream iterator and fixed size buffer: construction, copy and assignment; the target of a failed assignment keeps its value
LAW(iterators_and_buffers, 60000, 1000000, "an assignment or copy failed")
{
	warmUp(); bool interesting=false; unsigned n=2+c.size(20); std::string log; bool stream=c.flip(); std::string data; for (unsigned i=0;i<40;++i) data+=(char)('a'+i%26); long b0=allocatedBlocks(); std::string err; err.reserve(300); log.reserve(2000);
	if (stream)
	{
		sl::ScriptStream s( data); size_t bufsize=1+c.draw(12);
		std::unique_ptr<tw::IStreamIterator> a, b; tw::IStreamIterator base( &s, bufsize); a.reset( new tw::IStreamIterator( base)); b.reset( new tw::IStreamIterator()); char va=*base, vb=0; tw::PositionIndex pa=0, pb=0;
		while (n-- && err.empty())
		{
			bool f=c.flip(); fault::plan( f?1:0, c.flip()); int cause=0; How h=Done; unsigned op=c.draw(5); log+=char('0'+op); log+=f?"!":" ";
			switch (op)
			{
				case 0: h=guarded( [&]{ *b=*a; }, &cause); if (h==Done) { vb=va; pb=pa; } break;
				case 1: h=guarded( [&]{ *a=*b; }, &cause); if (h==Done) { va=vb; pa=pb; } break;
				case 2: { std::unique_ptr<char[]> m( new char[sizeof(tw::IStreamIterator)]); h=guarded( [&]{ tw::IStreamIterator x( *a); fault::On off; fault::armed=false; if (*x!=va) err="copy delivers another byte"; }, &cause); break; }
				case 3: h=guarded( [&]{ *a=*a; }, &cause); break;
				default: { sl::ScriptStream q( data); h=guarded( [&]{ tw::IStreamIterator x( &q, bufsize); fault::armed=false; for (size_t i=0;i<data.size();++i,++x) if (*x!=data[i]) { err="a new iterator delivers another byte"; break; } }, &cause); }
			}
			if (h==Reported) interesting=true; if (h==Wrong) err="another exception";
			fault::plan(0,false);
			if (err.empty() && (**a!=va || a->position()!=pa)) err="the first iterator has changed"; if (err.empty() && (**b!=vb || b->position()!=pb)) err="the second iterator has changed";
			if (c.chance(1,4)) { try { ++*a; } catch (...) {} va=**a; pa=a->position(); }
		}
	}
	else
	{
		size_t na=1+c.draw(20), nb=1+c.draw(20); std::unique_ptr<tw::StaticBuffer> a( new tw::StaticBuffer(na)), b( new tw::StaticBuffer(nb)); std::string ma, mb; ma.reserve(64); mb.reserve(64); bool oa=false, ob=false;
		while (n-- && err.empty())
		{
			bool f=c.flip(); fault::plan( f?1:0, c.flip()); int cause=0; How h=Done; unsigned op=c.draw(6); log+=char('0'+op); log+=f?"!":" ";
			switch (op)
			{
				case 0: h=guarded( [&]{ *b=*a; }, &cause); if (h==Done) { mb=ma; nb=na; ob=oa; } break;
				case 1: h=guarded( [&]{ *a=*b; }, &cause); if (h==Done) { ma=mb; na=nb; oa=ob; } break;
				case 2: h=guarded( [&]{ tw::StaticBuffer x( *a); fault::armed=false; if (x.size()!=ma.size() || x.overflow()!=oa || memcmp( x.ptr(), ma.data(), ma.size())) err="the copy differs"; }, &cause); break;
				case 3: h=guarded( [&]{ tw::StaticBuffer x( 10); fault::armed=false; for (int i=0;i<10;++i) x.push_back( 'x'); if (x.overflow() || x.size()!=10) err="a buffer of 10 bytes does not hold 10 bytes"; }, &cause); break;
				default: { fault::plan(0,false); char ch='a'+c.draw(26); tw::StaticBuffer& x=op==4?*a:*b; std::string& m=op==4?ma:mb; x.push_back( ch); if (m.size()<(op==4?na:nb)) m+=ch; else (op==4?oa:ob)=true; }
			}
			if (h==Reported) interesting=true; if (h==Wrong) err="another exception";
			fault::plan(0,false);
			if (err.empty() && (a->size()!=ma.size() || a->overflow()!=oa || memcmp( a->ptr(), ma.data(), ma.size()))) err="the first buffer has changed"; if (err.empty() && (b->size()!=mb.size() || b->overflow()!=ob || memcmp( b->ptr(), mb.data(), mb.size()))) err="the second buffer has changed";
		}
	}
	c.note( std::string(stream?"stream iterators: ":"fixed size buffers: ")+log+" (0 b=a, 1 a=b, 2 copy a, 3, 4; ! fails)"); c.key( (stream?"s":"b")+log); CHECK( err.empty(), err); if (interesting) c.nontrivial();
	(void)b0;
}
