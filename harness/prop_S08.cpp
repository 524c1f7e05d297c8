#include "scancheck.hpp"
using namespace enc;
PROPERTY(S08)

LAW(masks, 400000, 3000000, "at least 6 events of which some are masked out and some are not")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); sc::genSource(c,cfg); cfg.iter=false;
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=c.chance(1,20); o.maxElems=1+c.draw(10); o.verbatim=c.chance(1,4); o.entities=c.chance(1,4);
	doc::Doc d=doc::generate(c,o); std::vector<unsigned short> masks=sc::genMasks(c); if (!d.ents.empty()) cfg.ents=&d.ents;
	std::ostringstream ms; ms << "masks" << std::hex; for (auto m: masks) ms << ' ' << m;
	c.note(cfg.show()+" "+ms.str()); c.note(d.describe());
	std::string bytes=encode(cfg.in,cfg.page,d.text); c.key(cfg.show()+ms.str()+bytes); cfg.stepLimit=bytes.size()*8+2000; size_t lim=4*bytes.size()+100;
	sl::Result ref=sl::scanAll( cfg, bytes, 1, 0, lim);
	bool chunked=c.chance(1,4); sl::Result r= chunked?sl::scanChunked( cfg, bytes, sc::genCuts(c,bytes.size()), c.flip(), 1, &masks, lim):sl::scanAll( cfg, bytes, 1, &masks, lim);
	CHECK( !ref.endless && !r.endless && ref.cause==0 && r.cause==0, "scan does not end or throws");
	unsigned on=0,off=0;
	for (size_t i=0;i<ref.ev.size();++i)
	{
		CHECK( i<r.ev.size(), "with masks event #" << i << " (" << ref.ev[i].show() << ") is missing");
		CHECK( r.ev[i].type==ref.ev[i].type && r.ev[i].err==ref.ev[i].err, "with masks event #" << i << " is " << r.ev[i].show() << " instead of " << ref.ev[i].show());
		if (sc::maskOf(masks,i)&(1u<<ref.ev[i].type))
		{
			if (sc::hasToken(ref.ev[i].type)) ++on;
			CHECK( r.ev[i].value==ref.ev[i].value, "the value of event #" << i << " (not masked out) is " << r.ev[i].show() << " instead of " << ref.ev[i].show());
			CHECK( !sc::hasToken(ref.ev[i].type) || r.ev[i].tokpos==ref.ev[i].tokpos, "the token position of event #" << i << " (not masked out) is " << r.ev[i].show() << " instead of " << ref.ev[i].show());
		}
		else ++off;
	}
	CHECK( r.ev.size()==ref.ev.size(), "with masks there are " << r.ev.size() << " events instead of " << ref.ev.size());
	if (on>2&&off>2&&ref.ev.size()>=6) c.nontrivial();
	// and the unmasked run is what the document denotes
	std::vector<sl::Event> ev( ref.ev.begin(), ref.ev.end()-1); sc::Expect x( d, cfg.in, cfg.page, cfg.out); std::string m=x.matchAll( ev, false); CHECK( m.empty(), "unmasked: " << m);
}
