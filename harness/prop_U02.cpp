#include "engine.hpp"
#include "textwolf.hpp"
#include <memory>
namespace tw=textwolf;
PROPERTY(U02)

static void check( pbt::Ctx& c, tw::TagStack& s, const std::vector<std::string>& m, const std::string& op)
{
	CHECK( s.empty()==m.empty(), "empty() is " << s.empty() << " with " << m.size() << " elements after " << op);
	const void* p=0; size_t n=0; bool ok=s.top(p,n);
	CHECK( ok==!m.empty(), "top() returns " << ok << " with " << m.size() << " elements after " << op);
	if (ok) { CHECK( n==m.back().size(), "top() of size " << n << " instead of " << m.back().size() << " after " << op); CHECK( memcmp(p,m.back().data(),n)==0, "top() is " << pbt::quote(std::string((const char*)p,n)) << " instead of " << pbt::quote(m.back()) << " after " << op); }
}
LAW(history, 600000, 5000000, "the stack held at least 256 bytes (initial capacity) or a copy was taken")
{
	std::vector<std::unique_ptr<tw::TagStack> > v; std::vector<std::vector<std::string> > m; v.emplace_back( new tw::TagStack()); m.emplace_back(); bool big=false, copied=false; std::string log;
	unsigned n=1+c.size(80);
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); size_t k=c.draw(v.size()); std::ostringstream d;
		switch (c.pick({8,4,1,1,1}))
		{
			case 0:
			{
				size_t len; switch (c.pick({5,3,2,1})) { case 0: len=c.draw(12); break; case 1: len=c.draw(64); break; case 2: { static const size_t L[]={0,1,7,8,9,15,16,239,240,241,247,248,249,255,256,257,496,504,512}; len=c.of(L); break; } default: len=c.draw(3000); if (c.chance(1,20)) { static const size_t B[]={4095,4096,32767,32768,65519,65520,65527,65528,65535,65536,65537,100000}; len=c.of(B); } }
				std::string s; unsigned seed=c.draw(256); bool zeros=c.chance(1,6); for (size_t j=0;j<len;++j) s+=zeros?(char)((j+seed)%3==0?seed:0):(char)(seed+j*7);
				std::unique_ptr<char[]> src( new char[len?len:1]); memcpy( src.get(), s.data(), len);
				unsigned times=len<64&&c.chance(1,60)?30+c.draw(400):1; d << times << " x push of " << len << " bytes"; while (times--) { v[k]->push( src.get(), len); m[k].push_back(s); } break;
			}
			case 1: { unsigned cnt=1+c.draw(3); while (cnt--) { v[k]->pop(); if (!m[k].empty()) m[k].pop_back(); } d << "pop"; break; }
			case 2: v[k]->clear(); m[k].clear(); d << "clear"; break;
			case 3: if (v.size()<5) { v.emplace_back( new tw::TagStack(*v[k])); m.push_back( m[k]); copied=true; d << "copy"; } else { v.erase(v.begin()+k); m.erase(m.begin()+k); d << "destroy"; } break;
			default: { size_t f=c.draw(v.size()); *v[k]=*v[f]; m[k]=m[f]; copied|=f!=k; d << "assign #" << f; }
		}
		c.note( "#"+pbt::str(k)+": "+d.str()); log+=d.str();
		for (size_t j=0;j<v.size();++j) { check( c, *v[j], m[j], d.str()); size_t t=0; for (auto& x: m[j]) t+=x.size(); big|=t>=256; }
	}
	// unwind everything
	for (size_t j=0;j<v.size();++j) while (!m[j].empty()) { check( c, *v[j], m[j], "unwinding"); v[j]->pop(); m[j].pop_back(); }
	for (size_t j=0;j<v.size();++j) check( c, *v[j], m[j], "unwinding all");
	c.key(log); if (big||copied) c.nontrivial(); if (big) c.label("grown"); if (copied) c.label("copied");
}
LAW(leaks, 100000, 400000, "at least one copy or growth")
{
	unsigned n=1+c.draw(40), len=c.draw(200), copies=c.draw(5); bool assign=c.flip(); c.key(pbt::str(n)+"/"+pbt::str(len)+"/"+pbt::str(copies)+pbt::str(assign)); c.note(pbt::str(n)+" pushes of "+pbt::str(len)+" bytes, "+pbt::str(copies)+" copies"); if (copies||n*len>256) c.nontrivial();
	long b[3];
	for (int r=0;r<3;++r)
	{
		{ tw::TagStack s; std::string t(len,'t'); for (unsigned i=0;i<n;++i) s.push( t.data(), len); std::vector<tw::TagStack> v; for (unsigned i=0;i<copies;++i) v.push_back(s); if (assign) { tw::TagStack o; o=s; s=s; } }
		b[r]=pbt::allocatedBlocks();
	}
	CHECK( !(b[1]>b[0] && b[2]>b[1]), "stacks are not released: " << b[0] << ", " << b[1] << ", " << b[2] << " blocks after each round");
}
