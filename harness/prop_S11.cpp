// S11: the event iterator of the scanner delivers what nextItem delivers
#include "scancheck.hpp"
using namespace enc;
namespace tw=textwolf;
PROPERTY(S11)
typedef tw::XMLScannerBase SB;

struct E { int type; std::string val; };
template <class In, class Out, class Buf, class Src> static void history( pbt::Ctx& c, int in, int out, int page, const std::string& bytes, const std::vector<E>& ref, bool err)
{
	typedef tw::XMLScanner<Src,In,Out,Buf> S; typedef typename S::iterator It; std::unique_ptr<char[]> mem( new char[bytes.size()]); memcpy( mem.get(), bytes.data(), bytes.size()); Src src( mem.get(), bytes.size());
	S s( cl::makeCs<In>(page), src); (void)out;
	// state of an iterator: number of the event it stands on; NONE before the first, END for the end iterator; fresh: its value is the one in the buffer of the scanner
	enum {NONE=-1,END=-2}; struct M { long at; bool mine; }; std::vector<std::unique_ptr<It> > it; std::vector<M> m; long pos=-1; size_t n=ref.size();
	auto typeAt=[&]( long a)->int { return a==NONE?(int)SB::None:a==END?(int)SB::Exit:ref[std::min<size_t>(a,n-1)].type; };
	std::string log; unsigned post=0, copies=0; long fresh=-1;
	auto add=[&]( It* p, long at, bool mine){ it.emplace_back(p); M x={at,mine}; m.push_back(x); };
	if (c.flip()) { add( new It( s.begin()), 0, true); pos=0; fresh=0; log+=" begin()"; } else { add( new It( s.begin(false)), NONE, true); log+=" begin(false)"; }
	add( new It( s.end()), END, false);
	auto check=[&]( const It& x, long at, bool value, const std::string& what)
	{
		int t=typeAt(at); CHECK( x->type()==t && (*x).type()==t, what << ": type is " << SB::getElementTypeName( x->type()) << " instead of " << SB::getElementTypeName((SB::ElementType)t) << " after" << log);
		CHECK( std::string(x->name())==SB::getElementTypeName((SB::ElementType)t), what << ": name is " << x->name()); CHECK( x->valid()==(t!=SB::Exit && t!=SB::ErrorOccurred), what << ": valid is " << x->valid());
		CHECK( (x->error()!=0)==(t==SB::ErrorOccurred), what << ": error text given or missing");
		if (at>=0) { const E& e=ref[std::min<size_t>(at,n-1)]; if (t!=SB::Exit || (size_t)at<n) CHECK( x->size()==e.val.size(), what << ": size is " << x->size() << " instead of " << e.val.size() << " after" << log); if (value) CHECK( std::string( x->content(), x->size())==e.val, what << ": value is " << pbt::quote( std::string( x->content(), x->size())) << " instead of " << pbt::quote(e.val) << " after" << log); }
	};
	bool done=false; unsigned extra=0;
	for (unsigned k=0;k<4*n+40 && !done;++k)
	{
		pbt::Ctx::SpanGuard g(c); size_t j=c.draw( it.size()), o=c.draw( it.size()); std::ostringstream d; unsigned w=c.pick({6,3,2,2,2,2}); bool adv= m[j].at!=END; if (w<2 && pos>=0 && typeAt(pos)==SB::ErrorOccurred) { done=true; break; }
		switch (w)
		{
			case 0: { d << " ++#" << j; It& r=++*it[j]; CHECK( &r==it[j].get(), "++ returns another iterator"); if (adv) { if (pos>=(long)n-1) { if (++extra>5) done=true; } ++pos; if (pos>(long)n-1) pos=n-1; m[j].at=pos; fresh=pos; for (auto& x: m) x.mine=false; m[j].mine=true; } check( *it[j], m[j].at, true, "++"); break; }
			case 1: { d << " #" << j << "++"; long old=m[j].at; It r( (*it[j])++); ++post; if (adv) { if (pos>=(long)n-1) { if (++extra>5) done=true; } ++pos; if (pos>(long)n-1) pos=n-1; m[j].at=pos; for (auto& x: m) x.mine=false; m[j].mine=true; } check( r, old, false, "the iterator returned by ++ behind"); check( *it[j], m[j].at, true, "++ behind"); break; }
			case 2: if (it.size()<6) { d << " copy #" << j; add( new It( *it[j]), m[j].at, m[j].mine); ++copies; check( *it.back(), m[j].at, m[j].mine, "copy"); } break;
			case 3: d << " #" << j << "=#" << o; if (c.flip()) *it[j]=*it[o]; else it[j]->assign( *it[o]); m[j]=m[o]; check( *it[j], m[j].at, m[j].mine, "assigned"); break;
			case 4: { int a=typeAt(m[j].at), b=typeAt(m[o].at); bool eq=a==b && (a==SB::Exit||a==SB::None); d << " #" << j << "==#" << o; CHECK( (*it[j]==*it[o])==eq && (*it[j]!=*it[o])==!eq, d.str() << " is " << (*it[j]==*it[o]) << " on " << SB::getElementTypeName((SB::ElementType)a) << " and " << SB::getElementTypeName((SB::ElementType)b)); bool e=a==SB::Exit; CHECK( (*it[j]==s.end())==e && (s.end()!=*it[j])==!e, "comparison with the end of " << SB::getElementTypeName((SB::ElementType)a)); break; }
			default: check( *it[j], m[j].at, m[j].mine, "#"+pbt::str(j)); 
		}
		log+=d.str(); if (!d.str().empty()) c.note( d.str());
	}
	// the rest, as in a loop over the document
	long at=pos; It x( s.begin( false)); if (!(pos>=0 && (typeAt(pos)==SB::Exit||typeAt(pos)==SB::ErrorOccurred)))
	{
		++x; for (++at; x!=s.end(); ++x,++at) { CHECK( at<(long)n, "too many events, " << x->name()); check( x, at, true, "in the end"); if (x->type()==SB::ErrorOccurred) break; }
		CHECK( at==(long)n-1, "the loop ends at event " << at << " of " << n); check( x, at, true, "last");
	}
	if (post && copies) c.nontrivial(); (void)fresh; (void)err;
}
LAW(history, 150000, 5000000, "iterators copied and post-incremented")
{
	static const struct { int in, out; } K[]={{UTF8,UTF8},{UTF16LE,UTF8},{LATIN,UTF16BE},{UTF8,UCS4LE}}; unsigned k=c.draw(4); int in=K[k].in, out=K[k].out, page=in==LATIN?c.range(1,9):1; bool well;
	std::string bytes; if (c.chance(1,3)) bytes=sc::genInput( c, in, page, well); else { doc::Opt o; o.css.push_back(in); o.page=page; o.maxElems=1+c.draw(6); o.big=c.chance(1,10); bytes=encode( in, page, doc::generate( c, o).text); }
	c.note( std::string(csName(in))+" to "+csName(out)); c.note( pbt::quote(bytes,2000)); c.key( pbt::str(k*16+page)+bytes);
	sl::Cfg cfg; cfg.in=in; cfg.out=out; cfg.page=page; cfg.src=sl::CSTRING; sl::Result r=sl::scanAll( cfg, bytes, 0, 0, bytes.size()*4+100); CHECK( !r.endless && !r.cause, "scan"); std::vector<E> ref; bool err=false;
	for (auto& e: r.ev) { E x={e.type,e.value}; if (e.type==SB::ErrorOccurred) { x.val=e.errtext; err=true; } ref.push_back(x); }
	if (err) c.label("ends with an error"); else c.label("ends with the end");
	switch (k) { case 0: history<tw::charset::UTF8,tw::charset::UTF8,std::string,tw::CStringIterator>( c, in, out, page, bytes, ref, err); break; case 1: history<tw::charset::UTF16LE,tw::charset::UTF8,std::vector<char>,tw::SrcIterator>( c, in, out, page, bytes, ref, err); break; case 2: history<tw::charset::IsoLatin,tw::charset::UTF16BE,std::string,tw::SrcIterator>( c, in, out, page, bytes, ref, err); break; default: history<tw::charset::UTF8,tw::charset::UCS4LE,std::string,tw::CStringIterator>( c, in, out, page, bytes, ref, err); }
}
