#include "scancheck.hpp"
using namespace enc;
PROPERTY(S02)

LAW(all_encodings, 72000, 700000, "at least three different encodings and a non-ASCII character or reference in the document")
{
	doc::Opt o; struct P { int in,page; }; std::vector<P> ins; unsigned n=2+c.draw(4);
	int page=c.range(1,9); o.page=page;
	for (unsigned i=0;i<n;++i) { int pg; P p; p.in=sc::genIn(c,&pg); p.page=p.in==LATIN?page:1; ins.push_back(p); o.css.push_back(p.in); }
	o.big=c.chance(1,10); o.maxElems=8;
	doc::Doc d=doc::generate(c,o); c.note(d.describe());
	bool na=d.refs>0; for (uint32_t ch: d.text) if (ch>127) na=true;
	std::set<int> used; std::string k;
	std::vector<int> first;
	for (unsigned i=0;i<ins.size();++i)
	{
		std::string bytes=encode(ins[i].in,ins[i].page,d.text);
		unsigned no=1+c.draw(3);
		for (unsigned j=0;j<no;++j)
		{
			sl::Cfg cfg; cfg.in=ins[i].in; cfg.page=ins[i].page; cfg.out=j==0&&c.flip()?cfg.in:(int)c.draw(8); sc::genSource(c,cfg); used.insert(cfg.in); used.insert(cfg.out);
			c.note( cfg.show()); c.label( std::string(csName(cfg.in))+" -> "+csName(cfg.out)); k+=cfg.show();
			sc::Expect x( d, cfg.in, cfg.page, cfg.out); cfg.stepLimit=bytes.size()*4+1000;
			sl::Result r=sl::scanAll( cfg, bytes, 0, 0, 4*bytes.size()+100);
			CHECK( !r.endless && r.cause==0, cfg.show() << ": no end or exception " << r.cause);
			std::vector<int> as; std::string m=x.match( r.ev, r.ev.size(), d.ev.size(), d.ev.size(), false, &as); CHECK( m.empty(), cfg.show() << ": " << m);
			std::vector<int> types; for (auto& e: r.ev) types.push_back(e.type);
			if (first.empty()) first=types; else CHECK( types==first, cfg.show() << ": the sequence of events differs from that of another encoding");
		}
	}
	c.key(k+encode(UCS4BE,1,d.text)); if (used.size()>=3 && na) c.nontrivial();
}

// values decode to the same text by decoding the item and resolving the references of characters the output lacks
static U32 resolve( const U32& s, int out)
{
	U32 r;
	for (size_t i=0;i<s.size();++i)
	{
		if (s[i]=='&'&&i+2<s.size()&&s[i+1]=='#'&&s[i+2]=='x')
		{
			size_t k=i+3; uint64_t v=0; while (k<s.size()&&((s[k]>='0'&&s[k]<='9')||(s[k]>='a'&&s[k]<='f'))&&k<i+12) { v=v*16+(s[k]<='9'?s[k]-'0':s[k]-'a'+10); ++k; }
			if (k<s.size()&&s[k]==';'&&k>i+3&&!representable(out,1,(uint32_t)v)) { r.push_back((uint32_t)v); i=k; continue; }
		}
		r.push_back(s[i]);
	}
	return r;
}
LAW(decoded_values, 48000, 400000, "a value with a non-ASCII character or reference")
{
	doc::Opt o; o.page=c.range(1,9); int in1,in2,p1,p2; in1=sc::genIn(c,&p1); in2=sc::genIn(c,&p2); if (in1==LATIN) p1=o.page; if (in2==LATIN) p2=o.page; o.css.push_back(in1); o.css.push_back(in2); o.maxElems=6; o.big=false;
	doc::Doc d=doc::generate(c,o); c.note(d.describe());
	sl::Cfg a,b; a.in=in1; a.page=p1; a.out=c.draw(8); b.in=in2; b.page=p2; b.out=c.draw(8); sc::genSource(c,a); sc::genSource(c,b);
	c.note(a.show()); c.note(b.show()); c.key(a.show()+b.show()+encode(UCS4BE,1,d.text));
	std::string ba=encode(a.in,a.page,d.text), bb=encode(b.in,b.page,d.text); a.stepLimit=ba.size()*4+1000; b.stepLimit=bb.size()*4+1000;
	sl::Result ra=sl::scanAll(a,ba,0,0,ba.size()*2+100), rb=sl::scanAll(b,bb,0,0,bb.size()*2+100);
	CHECK( ra.ev.size()==rb.ev.size(), "different numbers of events: " << ra.ev.size() << " and " << rb.ev.size());
	for (size_t i=0;i<ra.ev.size();++i)
	{
		CHECK( ra.ev[i].type==rb.ev[i].type, "event #" << i << " differs: " << ra.ev[i].show() << " / " << rb.ev[i].show());
		U32 va,vb; CHECK( decode(a.out,1,ra.ev[i].value,va), "value not well-formed in its encoding: " << ra.ev[i].show()); CHECK( decode(b.out,1,rb.ev[i].value,vb), "value not well-formed in its encoding: " << rb.ev[i].show());
		for (uint32_t ch: va) if (ch>127) c.nontrivial();
		va=resolve(va,a.out); vb=resolve(vb,b.out);
		// a text that looks like a reference itself is ambiguous only if an encoding lacks the character: then compare resolved on both sides
		if (va!=vb) { va=resolve(va,b.out); vb=resolve(vb,a.out); }
		CHECK( va==vb, "value of event #" << i << " differs: " << show(va) << " / " << show(vb));
	}
}
