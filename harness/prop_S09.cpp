#include "scancheck.hpp"
using namespace enc;
#include <sys/mman.h>
PROPERTY(S09)

LAW(positions, 400000, 3000000, "at least 4 events with a value and an input encoding with several bytes per character or chunked or buffered input")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); bool chunked=c.chance(1,3); if (!chunked) sc::genSource(c,cfg); else cfg.ctor=c.draw(4);
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=c.chance(1,15); o.maxElems=1+c.draw(10); o.verbatim=c.chance(1,4);
	doc::Doc d=doc::generate(c,o); std::string bytes=encode(cfg.in,cfg.page,d.text); cfg.stepLimit=bytes.size()*8+2000; size_t lim=4*bytes.size()+100;
	c.note(cfg.show()+(chunked?" in pieces":"")); c.note(d.describe()); c.key(cfg.show()+bytes); c.label( chunked?"chunked":sl::srcName(cfg.src));
	sl::Result r= chunked?sl::scanChunked( cfg, bytes, sc::genCuts(c,bytes.size()), c.flip(), 0, 0, lim):sl::scanAll( cfg, bytes, 0, 0, lim);
	CHECK( !r.endless && r.cause==0, "scan does not end or throws");
	unsigned n=0; for (auto& e: r.ev) n+=sc::hasToken(e.type);
	if (n>=4 && (unitSize(cfg.in)>1||bytes.size()>d.text.size()||chunked||cfg.src==sl::ISTREAM)) c.nontrivial();
	sc::Expect x( d, cfg.in, cfg.page, cfg.out); std::string m=x.matchAll( r.ev, true); CHECK( m.empty(), m);
}
// positions with masked out events in between
LAW(positions_masked, 100000, 600000, "at least 4 events with a value")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); bool chunked=c.chance(1,3); if (!chunked) sc::genSource(c,cfg); cfg.iter=false;
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=false; o.maxElems=1+c.draw(6);
	doc::Doc d=doc::generate(c,o); std::string bytes=encode(cfg.in,cfg.page,d.text); cfg.stepLimit=bytes.size()*8+2000; size_t lim=4*bytes.size()+100;
	std::vector<unsigned short> masks=sc::genMasks(c);
	c.note(cfg.show()+(chunked?" in pieces":"")); c.note(d.describe()); c.key(cfg.show()+bytes);
	sl::Result r= chunked?sl::scanChunked( cfg, bytes, sc::genCuts(c,bytes.size()), c.flip(), 0, &masks, lim):sl::scanAll( cfg, bytes, 0, &masks, lim);
	sl::Cfg rc=cfg; rc.src=sl::CSTRING; rc.ctor=0; sl::Result ref=sl::scanAll( rc, bytes, 0, 0, lim);
	sc::Expect x( d, cfg.in, cfg.page, cfg.out); std::vector<int> as; std::string m=x.match( ref.ev, ref.ev.size(), d.ev.size(), d.ev.size(), true, &as); CHECK( m.empty(), m);
	CHECK( r.ev.size()==ref.ev.size(), "number of events"); unsigned n=0; size_t last=0;
	for (size_t i=0;i<r.ev.size();++i)
	{
		CHECK( r.ev[i].pos>=last, "position decreases at event #" << i); last=r.ev[i].pos;
		if (sc::hasToken(r.ev[i].type)) ++n; else continue;
		if (sc::maskOf(masks,i)&(1u<<r.ev[i].type)) CHECK( r.ev[i].tokpos==ref.ev[i].tokpos, "token position of event #" << i << " " << r.ev[i].show() << " instead of " << ref.ev[i].tokpos);
		if (as[i]>=0 && d.ev[as[i]].from!=doc::NPOS) { const doc::Ev& e=d.ev[as[i]]; size_t lo=x.off[e.to],hi=e.to+1<x.off.size()?x.off[e.to+1]:x.off.back()+8; CHECK( r.ev[i].pos>=lo && r.ev[i].pos<=hi, "source position after event #" << i << " " << r.ev[i].show() << " not in [" << lo << "," << hi << "]"); }
	}
	if (n>=4) c.nontrivial();
}
// documents that start behind the first 4 GiB of the input
struct FarStream :public textwolf::IStream
{
	uint64_t skip; std::string doc; size_t at; uint64_t given;
	FarStream( uint64_t s, const std::string& d):skip(s),doc(d),at(0),given(0){}
	virtual std::size_t read( void* buf, std::size_t n){ if (given<skip) { if (n>skip-given) n=skip-given; given+=n; return n; } if (n>doc.size()-at) n=doc.size()-at; memcpy( buf, doc.data()+at, n); at+=n; return n; }   // what is skipped is never looked at
	virtual int errorcode() const { return 0; }
};
template <class In, class It> static void farScan( pbt::Ctx& c, int in, int page, const doc::Doc& d, It it, uint64_t base)
{
	typedef textwolf::XMLScanner<It,In,textwolf::charset::UTF8,std::string> S; S s( cl::makeCs<In>(page), it); std::vector<sl::Event> ev;
	for (unsigned k=0;k<10000;++k) { sl::Event e; e.type=s.nextItem(); e.value.assign( s.getItemPtr(), s.getItemSize()); uint64_t p=s.getPosition(), t=s.getTokenPosition(); CHECK( p>=base, "position " << p << " in a document starting at " << base); e.pos=p-base; e.tokpos=sc::hasToken(e.type)?t-base:0; ev.push_back(e); if (e.type==textwolf::XMLScannerBase::Exit||e.type==textwolf::XMLScannerBase::ErrorOccurred) break; }
	sc::Expect x( d, in, page, UTF8); std::string m=x.matchAll( ev, true); CHECK( m.empty(), m << " (document starting at " << base << ")");
}
ENUM_LAW(far, 4, "the document starts behind 4 GiB")
{
	unsigned k=c.index()<2?c.index()*3:c.index()-2; bool str=c.index()>1; pbt::moreTime(200); doc::Opt o; int in=k&1?UTF16LE:UTF8; o.css.push_back(in); o.big=false; o.maxElems=4; doc::Doc d=doc::generate(c,o); std::string bytes=encode( in, 1, d.text); uint64_t base=0x100000000ULL+2*c.draw(10000); c.note( d.describe()); c.nontrivial();
	if (str)
	{
		// a string whose first 4 GiB are never looked at
		size_t n=base+bytes.size(); char* m=(char*)mmap( 0, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (m==(char*)MAP_FAILED) throw pbt::Discard(); struct Unmap { char* p; size_t n; ~Unmap(){ munmap( p, n); } } guard={m,n};
		memcpy( m+base, bytes.data(), bytes.size()); textwolf::CStringIterator it( m, n), start( it); it.pos( base); CHECK( (uint64_t)it.pos()==base, "position " << it.pos() << " instead of " << base); CHECK( (uint64_t)(it-start)==base, "difference " << (it-start) << " instead of " << base);
		if (k&1) farScan<textwolf::charset::UTF16LE>( c, in, 1, d, it, base); else farScan<textwolf::charset::UTF8>( c, in, 1, d, it, base);
		return;
	}
	if (k&2)
	{
		FarStream st( base, bytes); textwolf::IStreamIterator it( &st, 0x30000000); for (uint64_t i=0;i<base;++i) ++it; CHECK( it.position()==base, "position " << it.position() << " instead of " << base);
		if (k&1) farScan<textwolf::charset::UTF16LE>( c, in, 1, d, it, base); else farScan<textwolf::charset::UTF8>( c, in, 1, d, it, base);
	}
	else
	{
		// the bytes of the first pieces are never looked at
		jmp_buf eom; static char dummy; textwolf::SrcIterator it( &dummy, 0, &eom); uint64_t part=base/4; for (unsigned q=0;q<4;++q) { uint64_t n=q==3?base-3*part:part; char* p=(char*)0x100000000000ULL; it.putInput( p, n, &eom); for (uint64_t i=0;i<n;++i) ++it; }
		CHECK( it.position()==base, "position " << it.position() << " instead of " << base); it.putInput( bytes.data(), bytes.size());
		if (k&1) farScan<textwolf::charset::UTF16LE>( c, in, 1, d, it, base); else farScan<textwolf::charset::UTF8>( c, in, 1, d, it, base);
	}
}
