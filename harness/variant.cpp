// Everything of the library behind one function, for prop_C01.cpp. Compiled once for each build configuration with
// -Dtextwolf=<own namespace> -DVARIANT=<own name>; plain C++98. The two translation units of one configuration share the namespace.
#include <csetjmp>
#ifdef VARIANT_REVERSED
#include "textwolf/xmlprinter.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmltagstack.hpp"
#include "textwolf/ostreamoutput.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include "textwolf/xmlpathselect.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/codepages.hpp"
#endif
#include "textwolf.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include "textwolf/xmltagstack.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/ostreamoutput.hpp"
#include "variant.hpp"
#include <sstream>
#include <cstdio>
#include <cstring>
#include <algorithm>
namespace tw=textwolf; namespace var=textwolf::var;
namespace {
typedef tw::XMLScannerBase SB;

void num( std::string& o, unsigned long v){ char b[32]; std::sprintf( b, "%lu ", v); o+=b; }
void txt( std::string& o, const char* t){ if (t) { o+='\''; o+=t; o+="' "; } else o+="- "; }
void hex( std::string& o, const char* p, std::size_t n){ for (std::size_t i=0;i<n;++i) { char b[4]; std::sprintf( b, "%02x", (unsigned)(unsigned char)p[i]); o+=b; } o+=' '; }
void hex( std::string& o, const std::string& s){ hex( o, s.data(), s.size()); }

template <class C> C make( int){ return C(); }
template <> tw::charset::IsoLatin make<tw::charset::IsoLatin>( int page){ return tw::charset::IsoLatin(page); }

// source of a user: dereferences to the plain char type of the build
struct UserIt
{
	const char* p; const char* e; std::size_t at; UserIt():p(0),e(0),at(0){} UserIt( const char* p_, std::size_t n):p(p_),e(p_+n),at(0){}
	char operator*() const { return p==e?0:*p; }
	UserIt& operator++(){ if (p!=e) ++p; ++at; return *this; }
	std::size_t position() const { return at; }
};
}//namespace
namespace textwolf { template <> struct Traits<UserIt> { static inline std::size_t getPosition( const UserIt& a, const UserIt& b){ return b.position()-a.position(); } }; }
namespace {
template <class S> void feed( S&, const char*, std::size_t, jmp_buf*){}
void feed( tw::SrcIterator& i, const char* p, std::size_t n, jmp_buf* e){ i.putInput( p, n, e); }

template <class S> int nextOf( S& s, jmp_buf& eom, bool chunked){ if (chunked) { if (setjmp(eom)!=0) return -1; } return (int)s.nextItem(); }
template <class S> void events( S& s, const var::Request& rq, std::string& log, bool chunked)
{
	jmp_buf eom; const std::string& d=rq.s[0]; std::size_t pos=0; unsigned k=0, limit=2*d.size()+64, after=0;
	if (chunked) feed( s.getIterator(), d.data(), 0, &eom);
	while (limit--)
	{
		int t=nextOf( s, eom, chunked);
		if (t<0) { std::size_t n=rq.n.empty()?1:rq.n[k++%rq.n.size()]; if (n>d.size()-pos) n=d.size()-pos; if (pos+n<d.size() || n) { feed( s.getIterator(), d.data()+pos, n, &eom); pos+=n; } if (pos==d.size() && !n) feed( s.getIterator(), d.data(), 0, 0); continue; }
		log+=SB::getElementTypeName( (SB::ElementType)t); log+=' '; hex( log, s.getItemPtr(), s.getItemSize()); num( log, s.getTokenPosition()); num( log, s.getPosition());
		if (t==SB::ErrorOccurred) { const char* m=0; num( log, s.getError(&m)); txt( log, m); }
		log+='\n';
		if (t==SB::Exit || t==SB::ErrorOccurred) { if (++after==3) break; }
	}
}
template <class It, class In, class Out> void scanWith( const It& it, const var::Request& rq, std::string& log, bool chunked)
{
	typedef tw::XMLScanner<It,In,Out,std::string> S; typename S::EntityMap em; em["ent"]=0x263A; em["e.2"]=0x1F600; em["y"]=0xe9;
	S s( make<In>( rq.page), it, em); events( s, rq, log, chunked);
}
template <class In, class Out> void scanSrc( const var::Request& rq, std::string& log)
{
	switch (rq.src)
	{
		case 1: scanWith<tw::SrcIterator,In,Out>( tw::SrcIterator(), rq, log, true); break;
		case 2: { std::istringstream is( rq.s[0]); tw::StdInputStream in( is); scanWith<tw::IStreamIterator,In,Out>( tw::IStreamIterator( &in, rq.n.empty()?16:1+rq.n[0]%64), rq, log, false); break; }
		case 3: scanWith<UserIt,In,Out>( UserIt( rq.s[0].data(), rq.s[0].size()), rq, log, false); break;
		default: scanWith<tw::CStringIterator,In,Out>( tw::CStringIterator( rq.s[0].data(), rq.s[0].size()), rq, log, false);
	}
}
template <class In, class Out> void scanOne( const var::Request& rq, std::string& log){ scanWith<tw::CStringIterator,In,Out>( tw::CStringIterator( rq.s[0].data(), rq.s[0].size()), rq, log, false); }
void scan( const var::Request& rq, std::string& log)
{
	using namespace tw::charset;
	switch (rq.in)
	{
		case 0: switch (rq.out) { case 1: scanOne<UTF8,UTF16LE>(rq,log); break; case 2: scanOne<UTF8,UTF16BE>(rq,log); break; case 3: scanOne<UTF8,UCS2LE>(rq,log); break; case 4: scanOne<UTF8,UCS2BE>(rq,log); break; case 5: scanOne<UTF8,UCS4LE>(rq,log); break; case 6: scanOne<UTF8,UCS4BE>(rq,log); break; case 7: scanOne<UTF8,IsoLatin>(rq,log); break; default: scanSrc<UTF8,UTF8>(rq,log); } break;
		case 1: scanSrc<UTF16LE,UTF8>(rq,log); break;
		case 2: scanOne<UTF16BE,UTF8>(rq,log); break;
		case 3: scanOne<UCS2LE,UTF8>(rq,log); break;
		case 4: scanOne<UCS2BE,UTF8>(rq,log); break;
		case 5: scanOne<UCS4LE,UTF8>(rq,log); break;
		case 6: scanOne<UCS4BE,UTF8>(rq,log); break;
		default: scanSrc<IsoLatin,UTF8>(rq,log);
	}
}
template <class IO> void printWith( const var::Request& rq, std::string& log)
{
	typedef tw::XMLPrinter<IO,tw::charset::UTF8,std::string> P; P p( make<IO>(rq.page), rq.out!=0); std::string out;
	for (std::size_t i=0;i<rq.n.size();++i)
	{
		const std::string& s=rq.s[i%rq.s.size()]; bool r=false;
		switch (rq.n[i]%9)
		{
			case 0: r=p.printHeader( s.c_str(), (rq.n[i]&16)?"yes":0, out); break;
			case 1: r=p.printDoctype( "root", (rq.n[i]&16)?s.c_str():0, "sys", out); break;
			case 2: r=p.printOpenTag( s.data(), s.size(), out); break;
			case 3: r=p.printAttribute( s.data(), s.size(), out); break;
			case 4: r=p.printValue( s.data(), s.size(), out); break;
			case 5: r=p.printCloseTag( out); break;
			case 6: r=p.exitTagContext( out); break;
			case 7: { P q( p); p.reset( true); p=q; r=true; break; }
			default: if (rq.n[i]%36==8) { p.reset( (rq.n[i]&64)!=0); r=true; } else r=p.printValue( s.data(), s.size(), out);
		}
		num( log, r); num( log, p.state()); if (!r) txt( log, p.lasterror()); num( log, out.size());
	}
	hex( log, out); log+='\n';
}
void print( const var::Request& rq, std::string& log)
{
	using namespace tw::charset;
	switch (rq.in) { case 0: printWith<UTF8>(rq,log); break; case 1: printWith<UTF16LE>(rq,log); break; case 2: printWith<UTF16BE>(rq,log); break; case 3: printWith<UCS2LE>(rq,log); break; case 4: printWith<UCS2BE>(rq,log); break; case 5: printWith<UCS4LE>(rq,log); break; case 6: printWith<UCS4BE>(rq,log); break; default: printWith<IsoLatin>(rq,log); }
}
template <class CS> void pathWith( const var::Request& rq, std::string& log)
{
	typedef tw::XMLPathSelectAutomatonParser<tw::charset::UTF8,CS> A; typedef tw::XMLPathSelect<CS> S; A a;
	for (std::size_t i=1;i<rq.s.size();++i) { int rt; try { rt=a.addExpression( (int)i, rq.s[i].data(), rq.s[i].size()); num( log, rt); } catch (const tw::exception& e) { txt( log, e.what()); } }
	S sel( &a); typedef tw::XMLScanner<tw::CStringIterator,tw::charset::UTF8,CS,std::string> X; X s( tw::CStringIterator( rq.s[0].data(), rq.s[0].size())); unsigned limit=2*rq.s[0].size()+64, after=0; std::size_t total=0;
	while (limit-- && total<20000)
	{
		SB::ElementType t=s.nextItem(); num( log, t); typename S::iterator i=sel.push( t, s.getItemPtr(), s.getItemSize()), e=sel.end(); log+='{';
		std::vector<int> r; for (;i!=e;++i) r.push_back( *i); std::sort( r.begin(), r.end()); total+=r.size(); for (std::size_t x=0;x<r.size();++x) num( log, r[x]);
		log+="}\n"; if (t==SB::Exit || t==SB::ErrorOccurred) if (++after==2) break;
	}
}
void path( const var::Request& rq, std::string& log){ if (rq.in==7) pathWith<tw::charset::IsoLatin>( rq, log); else if (rq.in==2) pathWith<tw::charset::UTF16BE>( rq, log); else pathWith<tw::charset::UTF8>( rq, log); }
void header( const var::Request& rq, std::string& log)
{
	tw::XmlHdrParser p; const std::string& d=rq.s[0]; std::size_t pos=0; unsigned k=0;
	try
	{
		while (pos<d.size())
		{
			std::size_t n=rq.n.empty()?d.size():1+rq.n[k++%rq.n.size()]%16; if (n>d.size()-pos) n=d.size()-pos; p.putInput( d.data()+pos, n); pos+=n;
			bool r=p.parse(); num( log, r); txt( log, p.lasterror()); if (r) txt( log, p.encoding()); num( log, p.charsConsumed()); hex( log, p.consumedData()); if (r || p.lasterror()) break;
		}
		tw::XmlHdrParser q( p); hex( log, q.consumedData()); p.clear(); hex( log, p.consumedData());
	}
	catch (const std::exception& e) { txt( log, e.what()); }
	log+='\n';
}
template <class CS> void charsWith( const var::Request& rq, std::string& log)
{
	CS cs=make<CS>( rq.page); std::string enc; for (std::size_t i=0;i<rq.n.size();++i) cs.print( rq.n[i], enc); hex( log, enc); std::string d=rq.out?enc:rq.s[0];
	typedef tw::TextScanner<tw::CStringIterator,CS> T; T t( cs, tw::CStringIterator( d.data(), d.size())); unsigned limit=d.size()+3;
	for (unsigned i=0; i<limit; ++i)
	{
		unsigned w=rq.n.empty()?i:rq.n[i%rq.n.size()];
		if (w&1) { num( log, (unsigned)(int)t.ascii()); } if (w&2) { num( log, t.control()); }
		if (w&4) { std::string o; t.copychar( cs, o); hex( log, o); }
		num( log, *t); num( log, t.getPosition()); num( log, (unsigned)(int)t.ascii()); num( log, t.control()); if (w&8) { T u( t); ++u; num( log, *u); } ++t; log+='\n';
	}
}
void chars( const var::Request& rq, std::string& log)
{
	using namespace tw::charset;
	switch (rq.in) { case 0: charsWith<UTF8>(rq,log); break; case 1: charsWith<UTF16LE>(rq,log); break; case 2: charsWith<UTF16BE>(rq,log); break; case 3: charsWith<UCS2LE>(rq,log); break; case 4: charsWith<UCS2BE>(rq,log); break; case 5: charsWith<UCS4LE>(rq,log); break; case 6: charsWith<UCS4BE>(rq,log); break; default: charsWith<IsoLatin>(rq,log); }
}
void containers( const var::Request& rq, std::string& log)
{
	tw::TagStack st; tw::StaticBuffer b( 24); 
	for (std::size_t i=0;i<rq.n.size();++i)
	{
		unsigned v=rq.n[i]; std::string x( v/8%40, (char)(v+200));
		switch (v%8)
		{
			case 0: case 1: st.push( x.data(), x.size()); break;
			case 2: { const void* e; std::size_t n; bool r=st.top( e, n); num( log, r); if (r) { hex( log, (const char*)e, n); st.pop(); } break; }
			case 3: b.push_back( (char)v); break;
			case 4: b.append( x.data(), x.size()); break;
			case 5: if (v%3==0) b.clear(); else b.resize( v/8%30, (char)v); break;
			case 6: { tw::StaticBuffer c( b); b=c; tw::TagStack q( st); st=q; break; }
			default: try { num( log, (unsigned char)b[ v/8%26]); } catch (const tw::exception& e) { txt( log, e.what()); }
		}
		num( log, b.size()); num( log, b.overflow()); num( log, st.empty());
	}
	hex( log, b.ptr(), b.size()); log+='\n';
	for (;!st.empty();st.pop()) { const void* e; std::size_t n; if (!st.top( e, n)) break; hex( log, (const char*)e, n); }
	log+='\n';
}
void texts( const var::Request&, std::string& log)
{
	for (int i=0;i<SB::NofElementTypes;++i) txt( log, SB::getElementTypeName( (SB::ElementType)i)); for (int i=0;i<16;++i) txt( log, SB::getErrorString( (SB::Error)i));
	for (int p=0;p<12;++p) { try { tw::charset::IsoLatin l( p); std::string o; for (unsigned c=0x80;c<0x180;++c) l.print( c, o); hex( log, o); } catch (const tw::exception& e) { txt( log, e.what()); num( log, e.cause); } }
	for (int i=0;i<17;++i) try { throw tw::exception( (tw::throws_exception::Cause)i); } catch (const std::exception& e) { txt( log, e.what()); }
	log+='\n';
}
void runRequest( const var::Request& rq, std::string& log)
{
	switch (rq.kind) { case var::Scan: scan( rq, log); break; case var::Print: print( rq, log); break; case var::Path: path( rq, log); break; case var::Header: header( rq, log); break; case var::Chars: chars( rq, log); break; case var::Containers: containers( rq, log); break; default: texts( rq, log); }
}
void runFixed( std::string& log){ std::vector<var::Request> r; var::fixedRequests( r); for (std::size_t i=0;i<r.size();++i) runRequest( r[i], log); }

// a static object that uses the library before main and, when it is destroyed, after main
struct Early
{
	std::string log; RawOut atEnd; void* ctx; Early():atEnd(0),ctx(0){ runFixed( log); }
	~Early(){ if (atEnd) { std::string l; runFixed( l); atEnd( ctx, l.data(), l.size()); } }
};
Early early;
}//namespace
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
extern "C" void CAT(run_,VARIANT)( const RawRequest* r, RawOut out, void* ctx)
{
	std::string log;
	{
		var::Request q; q.kind=r->kind; q.in=r->in; q.out=r->out; q.page=r->page; q.src=r->src; for (std::size_t i=0;i<r->ns;++i) q.s.push_back( std::string( r->s[i], r->sn[i])); for (std::size_t i=0;i<r->nn;++i) q.n.push_back( r->n[i]);
		if (q.kind==var::NofKinds) runFixed( log); else runRequest( q, log);
	}
	out( ctx, log.data(), log.size());
}
extern "C" void CAT(early_,VARIANT)( RawOut out, void* ctx){ out( ctx, early.log.data(), early.log.size()); }
extern "C" void CAT(atend_,VARIANT)( RawOut out, void* ctx){ early.atEnd=out; early.ctx=ctx; }
