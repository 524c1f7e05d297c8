#include "engine.hpp"
#include "textwolf.hpp"
#include <memory>
#include <list>
namespace tw=textwolf;
PROPERTY(U01)

// reference: capacity, content, overflow flag
struct Model { size_t cap; std::string s; bool over; };
struct Obj
{
	std::unique_ptr<char[]> mem;            // borrowed memory, exactly as large as announced
	std::unique_ptr<tw::StaticBuffer> b; Model m; bool borrowed=false;
};
static void put( Model& m, const char* p, size_t n){ for (size_t i=0;i<n;++i) if (m.s.size()<m.cap) m.s+=p[i]; else m.over=true; }

static void check( pbt::Ctx& c, Obj& o, const std::string& op)
{
	CHECK( o.b->size()==o.m.s.size(), "size " << o.b->size() << " instead of " << o.m.s.size() << " after " << op);
	CHECK( std::string( o.b->ptr(), o.b->size())==o.m.s, "content " << pbt::quote(std::string(o.b->ptr(),o.b->size())) << " instead of " << pbt::quote(o.m.s) << " after " << op);
	CHECK( o.b->overflow()==o.m.over, (o.m.over?"overflow not reported after ":"overflow reported without one after ") << op);
	if (o.borrowed) CHECK( o.b->ptr()==o.mem.get(), "the buffer does not use the memory given, after " << op);
}
static Obj make( pbt::Ctx& c)
{
	Obj o; static const size_t S[]={4,1,0,2,3,7,8,16,33,256}; size_t n=c.of(S); if (c.chance(1,60)) { static const size_t B[]={1000,4096,32767,32768,65535,65536,65537,70000}; n=c.of(B); } o.m.cap=n; o.m.over=false; o.borrowed=c.flip();
	if (o.borrowed)
	{
		o.mem.reset( new char[n]); size_t init=c.chance(1,3)?c.draw(n+1):0;
		for (size_t i=0;i<init;++i) { o.mem[i]='A'+i%26; o.m.s+=o.mem[i]; }
		if (init) o.b.reset( new tw::StaticBuffer( o.mem.get(), n, init)); else o.b.reset( new tw::StaticBuffer( o.mem.get(), n));
	}
	else o.b.reset( new tw::StaticBuffer( n));
	return o;
}
static void history( pbt::Ctx& c, bool& over, bool& copied, bool& refused, bool quiet)
{
	std::vector<Obj> v; v.push_back( make(c)); std::string log;
	unsigned n=1+c.size(60);
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); size_t k=c.draw(v.size()); Obj& o=v[k]; std::ostringstream d;
		switch (c.pick({4,4,2,2,2,2,1,1,1}))
		{
			case 0: { char ch=(char)c.range(0,255); o.b->push_back(ch); put(o.m,&ch,1); d << "push_back(" << (int)(unsigned char)ch << ")"; break; }
			case 1: { std::string s; unsigned m=c.size(40); if (o.m.cap>256 && c.flip()) m=o.m.cap-o.m.s.size()+c.draw(5)-std::min<size_t>(2,o.m.cap-o.m.s.size()); else if (c.chance(1,200)) { static const unsigned B[]={255,256,257,65535,65536,65537}; m=c.of(B); } for (unsigned j=0;j<m;++j) s+=(char)('a'+(i+j)%26); std::unique_ptr<char[]> src( new char[m]); memcpy(src.get(),s.data(),m); o.b->append( src.get(), m); put(o.m,s.data(),m); d << "append(" << m << ")"; break; }
			case 2: { size_t r=c.draw( o.m.cap+4); char f=c.flip()?0:'f'; if (f) o.b->resize(r,f); else o.b->resize(r);
				if (r<o.m.s.size()) o.m.s.resize(r); else { if (r>o.m.cap) r=o.m.cap; o.m.s.resize(r,f); } d << "resize(" << r << ")"; break; }
			case 3: case 4:
			{
				size_t at=c.draw( o.m.cap+4); bool thrown=false; char got=0; int cause=0; bool idx=c.flip(); const tw::StaticBuffer& cb=*o.b;
				try { got=idx?cb[at]:o.b->at(at); } catch (const tw::exception& e) { thrown=true; cause=e.cause; }
				d << (idx?"operator[](":"at(") << at << ")";
				CHECK( thrown==(at>=o.m.s.size()), (thrown?"access refused by ":"access beyond the content of ") << o.m.s.size() << " bytes by " << d.str());
				if (thrown) { refused=true; CHECK( cause==tw::throws_exception::DimOutOfRange, "cause " << cause); } else CHECK( got==o.m.s[at], d.str() << " is " << (int)got);
				break;
			}
			case 5: if (!o.m.s.empty()) { size_t at=c.draw(o.m.s.size()); char ch=(char)c.range(0,255); o.b->at(at)=ch; o.m.s[at]=ch; d << "at(" << at << ")=" << (int)(unsigned char)ch; } break;
			case 6: o.b->clear(); o.m.s.clear(); o.m.over=false; d << "clear()"; break;
			case 7: if (v.size()<6) { Obj x; x.b.reset( new tw::StaticBuffer(*o.b)); x.m=o.m; d << "copy of #" << k; CHECK( x.b->ptr()!=o.b->ptr() || o.m.cap==0, "the copy shares the memory of the original"); copied=true; v.push_back( std::move(x)); } break;
			default: if (v.size()>1 && c.flip()) { v.erase( v.begin()+k); d << "destroy #" << k; } else if (v.size()<6) { v.push_back( make(c)); d << "new"; }
				else { size_t f=c.draw(v.size()); Obj& from=v[f]; if (!o.borrowed && !from.borrowed) { *o.b=*from.b; o.m=from.m; copied=true; d << "assign #" << f; } }
		}
		if (!quiet) c.note( "#"+pbt::str(k)+": "+d.str()); log+=d.str();
		for (auto& x: v) { check( c, x, d.str()); over|=x.m.over; }
	}
	c.key( log+pbt::str(v[0].m.cap));
}
LAW(history_, 1000000, 8000000, "a buffer overflowed, a copy was taken or an access was refused in the history")
{
	bool over=false, copied=false, refused=false; history( c, over, copied, refused, false);
	if (over||copied||refused) c.nontrivial();
	if (over) c.label("overflow"); if (copied) c.label("copy"); if (refused) c.label("refused access");
}
// copies of owned and borrowed buffers leave nothing allocated
LAW(leaks, 150000, 600000, "a copy is made of a buffer with content")
{
	bool borrowed=c.flip(); size_t n=1+c.draw(100), k=1+c.draw(8), fill=c.draw(n+1); bool assign=c.flip(); c.key(pbt::str(borrowed)+"/"+pbt::str(n)+"/"+pbt::str(k)+"/"+pbt::str(fill)+"/"+pbt::str(assign)); c.note( std::string(borrowed?"borrowed":"owned")+" size "+pbt::str(n)+" copies "+pbt::str(k)+(assign?" with assignment":"")); if (fill) c.nontrivial();
	long b[3];
	for (int r=0;r<3;++r)
	{
		{
			std::unique_ptr<char[]> mem( new char[n]); memset(mem.get(),0,n);
			std::unique_ptr<tw::StaticBuffer> s( borrowed?new tw::StaticBuffer(mem.get(),n):new tw::StaticBuffer(n));
			for (size_t i=0;i<fill;++i) s->push_back('x');
			std::list<tw::StaticBuffer> l; for (size_t i=0;i<k;++i) l.push_back( i&&c.flip()?l.back():*s);
			if (assign) { tw::StaticBuffer t(n/2+1); t=l.front(); l.front()=t; t=t; CHECK( std::string(t.ptr(),t.size())==std::string(fill,'x'), "assigned content differs"); t.push_back('y'); CHECK( l.front().size()==fill, "assignment is not independent"); }
		}
		b[r]=pbt::allocatedBlocks();
	}
	CHECK( !(b[1]>b[0] && b[2]>b[1]), "copies are not released: " << b[0] << ", " << b[1] << ", " << b[2] << " blocks after each round");
}
