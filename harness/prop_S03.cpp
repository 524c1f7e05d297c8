#include "scancheck.hpp"
using namespace enc;
PROPERTY(S03)

static void check( pbt::Ctx& c, sl::Cfg cfg, const std::string& bytes, const std::vector<size_t>& cuts, bool emptyEnd, unsigned extra, const std::vector<unsigned short>& masks)
{
	size_t lim=4*bytes.size()+100;
	cfg.src=sl::SRCWHOLE; sl::Result w=sl::scanAll( cfg, bytes, extra, &masks, lim);
	sl::Result r=sl::scanChunked( cfg, bytes, cuts, emptyEnd, extra, &masks, lim);
	CHECK( !w.endless, "scanning the whole input does not end");
	if (cfg.feed) { for (auto& e: r.ev) e.tokpos=e.pos=0; for (auto& e: w.ev) e.tokpos=e.pos=0; }   // setSource() starts a source of its own, with its own positions
	std::string m=sc::diff( r, w, &masks, false); CHECK( m.empty(), "in pieces " << m);
}
static std::string show( const std::vector<size_t>& v){ std::ostringstream o; o << "cuts"; for (size_t i=0;i<v.size()&&i<60;++i) o << ' ' << v[i]; return o.str(); }
static std::string show( const std::vector<unsigned short>& v){ std::ostringstream o; o << "masks" << std::hex; for (auto x: v) o << ' ' << x; return o.str(); }

LAW(pieces, 300000, 10000000, "at least 3 cuts")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); bool well; std::string bytes=sc::genInput(c,cfg.in,cfg.page,well);
	std::vector<size_t> cuts=sc::genCuts(c,bytes.size()); bool emptyEnd=c.flip(); unsigned extra=c.draw(3); 
	std::vector<unsigned short> masks; if (c.chance(1,3)) masks=sc::genMasks(c); else if (c.chance(1,3)) cfg.iter=true;
	cfg.ctor=c.draw(4); cfg.vec=c.chance(1,5); if (well && c.chance(1,3)) { cfg.feed=1+c.draw(2); c.label("fed by setSource"); }
	c.note(cfg.show()+" "+show(cuts)+" "+show(masks)+(emptyEnd?" empty end":"")); c.note("input "+pbt::quote(bytes,3000)); c.key(cfg.show()+show(cuts)+show(masks)+bytes);
	c.label( well?"well-formed encoding":"arbitrary bytes"); if (!masks.empty()) c.label("masked");
	if (cuts.size()>=3) c.nontrivial();
	check( c, cfg, bytes, cuts, emptyEnd, extra, masks);
}

// every single cut position and the cut at every byte
LAW(every_cut, 8000, 240000, "input of more than 20 bytes")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); bool well; std::string bytes=sc::genInput(c,cfg.in,cfg.page,well); if (bytes.size()>400) bytes.resize(400);
	std::vector<unsigned short> masks; if (c.chance(1,3)) masks=sc::genMasks(c); bool emptyEnd=c.flip();
	c.note(cfg.show()+" "+show(masks)); c.note("input "+pbt::quote(bytes,3000)); c.key(cfg.show()+show(masks)+bytes);
	if (bytes.size()>20) c.nontrivial();
	size_t lim=4*bytes.size()+100; cfg.src=sl::SRCWHOLE; sl::Result w=sl::scanAll( cfg, bytes, 2, &masks, lim); CHECK( !w.endless, "scanning the whole input does not end");
	std::vector<size_t> all;
	for (size_t i=0;i<=bytes.size();++i)
	{
		std::vector<size_t> one(1,i); all.push_back(i);
		std::string m=sc::diff( sl::scanChunked( cfg, bytes, one, emptyEnd, 2, &masks, lim), w, &masks, false); CHECK( m.empty(), "cut at " << i << ": " << m);
	}
	std::string m=sc::diff( sl::scanChunked( cfg, bytes, all, emptyEnd, 2, &masks, lim), w, &masks, false); CHECK( m.empty(), "cut at every byte: " << m);
}
