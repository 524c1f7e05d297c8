// M01: scanner, selector and printer work as streams: each byte is read once, events come as soon as they are complete, memory does not grow with the length
#include "pathlib.hpp"
#include "scancheck.hpp"
#include "printlib.hpp"
using namespace xp; using namespace enc;
PROPERTY(M01)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t bytesUsed(){ return __sanitizer_get_current_allocated_bytes(); }

LAW(early, 120000, 3000000, "at least 4 events with a value, fed byte by byte")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); cfg.src=sl::CHUNKED; cfg.ctor=c.draw(4);
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=c.chance(1,60); o.maxElems=1+c.draw(8); doc::Doc d=doc::generate(c,o); std::string b=encode( cfg.in, cfg.page, d.text);
	c.note( cfg.show()); c.note( d.describe()); c.key( cfg.show()+b); sc::Expect x( d, cfg.in, cfg.page, cfg.out);
	std::unique_ptr<sl::Scanner> s=sl::make( cfg, std::string()); std::unique_ptr<char> piece; size_t fed=0; std::vector<sl::Event> ev; std::vector<size_t> when; unsigned n=0;
	for (;;)
	{
		sl::Event e; if (s->next( 0xFFFF, e)) { ev.push_back(e); when.push_back(fed); n+=sc::hasToken(e.type); CHECK( ev.size()<=2*b.size()+20, "the scan does not end"); if (e.type==SB::Exit||e.type==SB::ErrorOccurred) break; continue; }
		CHECK( fed<b.size(), "more input is asked for behind the end"); std::unique_ptr<char> p( new char( b[fed++])); s->feed( p.get(), 1, fed==b.size()); piece.swap( p);
	}
	std::vector<int> as; std::string m=x.match( ev, ev.size(), d.ev.size(), d.ev.size(), false, &as); CHECK( m.empty(), m);
	for (size_t i=0;i<ev.size();++i)
	{
		if (as[i]<0) continue; const doc::Ev& e=d.ev[as[i]]; if (!e.need || e.optional) continue;
		size_t hi=x.off[std::min<size_t>( e.need, x.off.size()-1)];
		CHECK( when[i]<=hi, "event #" << i << " " << ev[i].show() << " is complete after " << x.off[std::min<size_t>( e.need, x.off.size()-1)] << " bytes but delivered only after " << when[i]);
	}
	if (n>=4) c.nontrivial(); c.label( csName(cfg.in));
}

// iterator that counts what is done with each byte; its copies share the counters
struct Counts { std::vector<unsigned> inc, acc; size_t beyond; };
struct CountIt
{
	const char* p; size_t n,i; Counts* k;
	CountIt():p(0),n(0),i(0),k(0){}
	CountIt( const char* p_, size_t n_, Counts* k_):p(p_),n(n_),i(0),k(k_){}
	char operator*() { if (i<n) { ++k->acc[i]; return p[i]; } return 0; }
	CountIt& operator++() { if (i<n) ++k->inc[i]; else ++k->beyond; ++i; return *this; }
	size_t operator-( const CountIt& o) const { return i-o.i; }
};
namespace textwolf { template <> struct Traits<CountIt> { static inline std::size_t getPosition( const CountIt& s, const CountIt& e){ return e.i-s.i; } }; }
template <class In> static void counted( pbt::Ctx& c, int in, int page, const std::string& b, std::vector<unsigned short> masks)
{
	Counts k; k.inc.assign( b.size(), 0); k.acc.assign( b.size(), 0); k.beyond=0; typedef tw::XMLScanner<CountIt,In,tw::charset::UTF8,std::string> S; S s( cl::makeCs<In>(page), CountIt( b.data(), b.size(), &k)); size_t n=0;
	for (;;++n) { CHECK( n<=2*b.size()+20, "the scan does not end"); int t=s.nextItem( masks.empty()?0xFFFF:masks[n%masks.size()]); if (t==SB::Exit||t==SB::ErrorOccurred) { CHECK( t==SB::Exit, "error"); break; } }
	for (size_t i=0;i<b.size();++i) { CHECK( k.inc[i]==1, "the source is moved over byte #" << i << " " << k.inc[i] << " times"); CHECK( k.acc[i]<=16, "byte #" << i << " is read " << k.acc[i] << " times"); }
	CHECK( k.beyond<=16, "the source is moved " << k.beyond << " times behind the end");
}
LAW(single_pass, 100000, 3000000, "at least 100 bytes")
{
	int page=1, in=sc::genIn(c,&page); doc::Opt o; o.css.push_back(in); o.page=page; o.big=c.chance(1,40); o.maxElems=1+c.draw(10); doc::Doc d=doc::generate(c,o); std::string b=encode( in, page, d.text); std::vector<unsigned short> masks; if (c.flip()) masks=sc::genMasks(c);
	c.note( std::string(csName(in))); c.note( d.describe()); c.key( csName(in)+b+(masks.empty()?"":"m"));
	switch (in)
	{
		case UTF8: counted<tw::charset::UTF8>( c, in, page, b, masks); break; case UTF16LE: counted<tw::charset::UTF16LE>( c, in, page, b, masks); break; case UTF16BE: counted<tw::charset::UTF16BE>( c, in, page, b, masks); break;
		case UCS2LE: counted<tw::charset::UCS2LE>( c, in, page, b, masks); break; case UCS2BE: counted<tw::charset::UCS2BE>( c, in, page, b, masks); break; case UCS4LE: counted<tw::charset::UCS4LE>( c, in, page, b, masks); break;
		case UCS4BE: counted<tw::charset::UCS4BE>( c, in, page, b, masks); break; default: counted<tw::charset::IsoLatin>( c, in, page, b, masks);
	}
	if (b.size()>=100) c.nontrivial();
}

// a part of a document that can be repeated
static U32 genPart( pbt::Ctx& c, unsigned depth)
{
	U32 r; unsigned n=1+c.draw(3);
	while (n--) switch (c.pick({4,3,2,1,1,1}))
	{
		case 0: { cat( r, "<e"); r.push_back( 'a'+c.draw(4)); unsigned a=c.draw(3); for (unsigned i=0;i<a;++i) { cat( r, " x"); r.push_back('a'+i); cat( r, "='"); unsigned l=c.draw(40); while (l--) r.push_back('a'+l%26); r.push_back('\''); } if (depth<3 && c.flip()) { cat( r, ">"); size_t at=r.size(); U32 in=genPart(c,depth+1); r.insert( r.end(), in.begin(), in.end()); (void)at; cat( r, "</e>"); } else cat( r, "/>"); break; }
		case 1: { unsigned l=1+c.draw(c.chance(1,10)?3000:30); while (l--) r.push_back('a'+l%26); break; }
		case 2: cat( r, "&lt;&#x41;&#233;"); break;
		case 3: cat( r, "<!-- comment -->"); break;
		case 4: cat( r, "<![CDATA[ <raw> ]]>"); break;
		default: cat( r, "\r\n  <?pi x?>"); 
	}
	return r;
}
struct RepeatStream :public tw::IStream
{
	std::string head, part; size_t reps, at; bool pad; RepeatStream( const std::string& h, const std::string& p, size_t r):head(h),part(p),reps(r),at(0){}
	size_t total() const { return head.size()+part.size()*reps; }
	virtual size_t read( void* buf, size_t n){ size_t k=0; char* o=(char*)buf; while (k<n && at<total()) { o[k++]=at<head.size()?head[at]:part[(at-head.size())%part.size()]; ++at; } return k; }
	virtual int errorcode() const { return 0; }
};
template <class In, class Out> static void repeated( pbt::Ctx& c, int in, const U32& part, size_t bufsize, bool iter)
{
	unsigned reps=c.chance(1,20)?2000:60; RepeatStream st( encode( in, 1, u32("<?xml version='1.0'?>\n<root>")), encode( in, 1, part), reps); typedef tw::XMLScanner<tw::IStreamIterator,In,Out,std::string> S;
	S s( tw::IStreamIterator( &st, bufsize)); size_t early=0, late=0, n=0, pl=st.part.size(); bool one=false;
	if (iter)
	{
		typename S::iterator it=s.begin(), end=s.end();
		for (;it!=end;++it,++n) { if (it->type()==SB::ErrorOccurred) break; size_t p=s.getTokenPosition(); size_t u=bytesUsed(); if (p<st.head.size()+pl*10) early=std::max( early, u); else late=std::max( late, u); }
	}
	else for (;;++n) { int t=s.nextItem(); if (t==SB::Exit||t==SB::ErrorOccurred) { one=t==SB::Exit; break; } size_t p=s.getTokenPosition(), u=bytesUsed(); if (p<st.head.size()+pl*10) early=std::max( early, u); else late=std::max( late, u); }
	(void)one; CHECK( late<=early, "scanning the first 10 of " << reps << " repetitions needs " << early-std::min(early,late) << "; later " << late-early << " bytes more are in use"); if (n>100) c.nontrivial();
}
LAW(scanner_memory, 6000, 200000, "at least 100 events")
{
	U32 part=genPart(c,0); part.push_back('\n'); cat( part, "<i/>"); size_t bufsize=1+c.draw(c.flip()?10:10000); bool iter=c.flip(); unsigned k=c.draw(3); c.note( "repeated: "+show(part)); c.key( show(part)+pbt::str(bufsize)+pbt::str(k)+(iter?"i":""));
	switch (k) { case 0: repeated<tw::charset::UTF8,tw::charset::UTF8>( c, UTF8, part, bufsize, iter); break; case 1: repeated<tw::charset::UTF16BE,tw::charset::UTF8>( c, UTF16BE, part, bufsize, iter); break; default: repeated<tw::charset::UTF8,tw::charset::UCS4LE>( c, UTF8, part, bufsize, iter); }
}
LAW(selector_memory, 12000, 300000, "an expression selects something in the repeated part")
{
	Pool p=genPool( c, true); Doc d; genDoc( c, d, p, 14); std::vector<Expr> ee=genExprs( c, p, d, 6, ExprOpt(), true); if (ee.size()>16) ee.resize(16); noteCase( c, d, ee, UTF8); c.key( keyCase(d,ee)); Result exp=expected( d, ee);
	typedef AtmT<tw::charset::UTF8,tw::XMLPathSelectAutomaton<tw::charset::UTF8>,tw::XMLPathSelect<tw::charset::UTF8> > A; A a(UTF8); for (Expr& e: ee) a.add( e, 0);
	size_t from=0, to=d.ev.size(); while (from<to && d.ev[from].type!=SB::OpenTag) ++from; while (to>from && d.ev[to-1].type!=SB::CloseTag && d.ev[to-1].type!=SB::CloseTagIm) --to; if (from==to) throw pbt::Discard();
	bool inner=c.flip(); if (inner) { ++from; --to; while (from<to && (d.ev[from].type==SB::TagAttribName||d.ev[from].type==SB::TagAttribValue)) ++from; }   // repeated inside of the root element, or as a whole
	unsigned reps=c.chance(1,20)?1500:50; size_t sel=0; std::vector<std::string> keys; for (auto& e: d.ev) keys.push_back( evKey( UTF8, e.key)); std::unique_ptr<Sel> s( a.sel()); std::vector<int> out; out.reserve( 4096); size_t early=0, late=0;
	auto push=[&]( int type, const std::string& k){ out.clear(); s->push( type, k, ReadAll, out); sel+=out.size(); };
	if (inner) for (size_t i=0;i<from;++i) push( d.ev[i].type, keys[i]); else if (c.flip()) push( SB::OpenTag, "root");
	sel=0;
	for (unsigned r=0;r<reps;++r)
	{
		for (size_t i=from;i<to;++i) push( d.ev[i].type, keys[i]);
		size_t u=bytesUsed(); if (r<10) early=std::max( early, u); else late=std::max( late, u);
	}
	CHECK( late<=early, "behind the first 10 of " << reps << " repetitions " << late-early << " bytes more are in use");
	if (sel) c.nontrivial(); c.label( inner?"repeated children":"repeated elements");
}
LAW(printer_memory, 12000, 300000, "elements with attributes or text are repeated")
{
	int io=c.draw(NofCs), app=c.draw(NofCs); std::unique_ptr<pl::Printer> dummy; struct O { int k; std::string v; }; std::vector<O> ops; unsigned depth=0, n=1+c.draw(12); bool more=false;
	auto str=[&]( unsigned l){ std::string v; for (unsigned i=0;i<l;++i) put( app, 1, i%11==10?'<':'a'+i%26, v); return v; }; auto nam=[&]( unsigned l){ std::string v; for (unsigned i=0;i<l;++i) put( app, 1, 'a'+i%26, v); return v; };
	for (unsigned i=0;i<n;++i) switch (c.pick({4,2,3}))
	{
		case 0: { O o={0,nam(1+c.draw(c.chance(1,6)?400:10))}; ops.push_back(o); ++depth; if (c.flip()) { O x={1,nam(3)}, y={2,str(c.draw(60))}; ops.push_back(x); ops.push_back(y); more=true; } break; }
		case 1: if (depth) { O o={3,""}; ops.push_back(o); --depth; } break;
		default: if (depth) { O o={2,str(c.draw(200))}; ops.push_back(o); more=true; }
	}
	while (depth--) { O o={3,""}; ops.push_back(o); }
	std::string key; for (O& o: ops) key+=pbt::str(o.k)+":"+pbt::str(o.v.size())+" "; c.note( std::string(csName(io))+" "+csName(app)+" repeated operations "+key); c.key( key+csName(io)+csName(app));
	// output to a fixed size buffer: nothing but the printer itself needs memory
	std::unique_ptr<pl::Printer> p( pl::make( io, 1, app, 3, true, 16)); unsigned reps=c.chance(1,20)?1500:40; size_t early=0, late=0; p->open( nam(4));
	for (unsigned r=0;r<reps;++r)
	{
		for (O& o: ops) { bool ok=o.k==0?p->open(o.v):o.k==1?p->attr(o.v):o.k==2?p->value(o.v):p->close(); CHECK( ok, "operation refused in repetition " << r << ": " << (p->lasterror()?p->lasterror():"")); }
		size_t u=bytesUsed(); if (r<5) early=std::max( early, u); else late=std::max( late, u);
	}
	CHECK( late<=early, "behind the first 5 of " << reps << " repetitions " << late-early << " bytes more are in use"); if (more) c.nontrivial();
}
