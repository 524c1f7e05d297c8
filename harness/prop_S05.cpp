#include "scancheck.hpp"
using namespace enc;
PROPERTY(S05)

static void scan( pbt::Ctx& c, sl::Cfg cfg, const std::string& bytes, unsigned extra, const std::vector<unsigned short>& masks)
{
	// one event for an error, one for the end, and at most one for each byte otherwise; plus those asked for afterwards
	size_t lim=bytes.size()+16+extra;
	cfg.stepLimit=bytes.size()*8+64*(extra+1)+1000;
	sl::Result r=sl::scanAll( cfg, bytes, extra, &masks, lim+1);
	CHECK( !r.endless, "scanning does not come to an end: " << r.ev.size() << " events from " << bytes.size() << " bytes, last " << (r.ev.empty()?std::string("none"):r.ev.back().show()));
	CHECK( r.cause==0, "exception with cause " << r.cause);
	bool ended=false;
	for (auto& e: r.ev)
	{
		bool end=e.type==textwolf::XMLScannerBase::Exit||e.type==textwolf::XMLScannerBase::ErrorOccurred;
		CHECK( e.type>=textwolf::XMLScannerBase::ErrorOccurred && e.type<=textwolf::XMLScannerBase::Exit, "no event: " << e.type);
		CHECK( (e.type==textwolf::XMLScannerBase::ErrorOccurred)==(e.err!=0), "event " << e.show() << (e.err?" with":" without")<< " error code");
		ended|=end;
	}
	CHECK( ended, "neither end nor error reported");
}
static std::string show( const std::vector<unsigned short>& v){ std::ostringstream o; o << "masks" << std::hex; for (auto x: v) o << ' ' << x; return o.str(); }

LAW(any_input, 480000, 6000000, "input of at least 10 bytes")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); bool well; std::string bytes=sc::genInput(c,cfg.in,cfg.page,well);
	static const int S[]={sl::USERIT,sl::CSTRING,sl::SRCWHOLE,sl::ISTREAM,sl::STDSTREAM,sl::CHARPTR}; cfg.src=c.of(S); if (cfg.src==sl::CHARPTR&&!well) cfg.src=sl::USERIT;
	cfg.out=sl::outFor( cfg.src, cfg.in, cfg.out); if (cfg.src==sl::ISTREAM||cfg.src==sl::STDSTREAM) { cfg.bufsize=sc::genBufsize(c); cfg.reads=sc::genReads(c); }
	cfg.iter=c.chance(1,6); cfg.vec=c.chance(1,6); cfg.ctor=c.draw(4);
	std::vector<unsigned short> masks; if (!cfg.iter && c.chance(1,3)) masks=sc::genMasks(c);
	sl::Entities ents; if (c.chance(1,4)) { ents.push_back(std::make_pair(std::string("foo"),(uint32_t)c.draw(0))); ents.push_back(std::make_pair(std::string("undefined"),0x20acu)); cfg.ents=&ents; }
	unsigned extra=c.chance(1,3)?c.draw(20):c.draw(3);
	c.note(cfg.show()+" "+show(masks)+" extra "+pbt::str(extra)); c.note("input "+pbt::quote(bytes,3000)); c.key(cfg.show()+show(masks)+bytes); c.label( well?"well-formed encoding":"arbitrary bytes"); c.label( sl::srcName(cfg.src));
	if (bytes.size()>=10) c.nontrivial();
	scan( c, cfg, bytes, extra, masks);
}

// every truncation of a document
LAW(truncations, 3200, 40000, "document of at least 20 bytes")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sl::outFor( sl::USERIT, cfg.in, sc::genOut(c,cfg.in)); cfg.src=sl::USERIT; bool well; std::string bytes=sc::genInput(c,cfg.in,cfg.page,well); if (bytes.size()>500) bytes.resize(500);
	std::vector<unsigned short> masks; if (c.chance(1,3)) masks=sc::genMasks(c);
	c.note(cfg.show()+" "+show(masks)); c.note("input "+pbt::quote(bytes,3000)); c.key(cfg.show()+show(masks)+bytes); if (bytes.size()>=20) c.nontrivial();
	for (size_t i=0;i<=bytes.size();++i) { c.note("cut at "+pbt::str(i)); scan( c, cfg, bytes.substr(0,i), 2, masks); }
}

// nothing is leaked: a second identical scan leaves as many allocated blocks as the first
LAW(leaks, 40000, 300000, "input of at least 10 bytes")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); bool well; std::string bytes=sc::genInput(c,cfg.in,cfg.page,well); sc::genSource(c,cfg); if (cfg.src==sl::CHARPTR&&!well) { cfg.src=sl::USERIT; }
	cfg.stepLimit=bytes.size()*8+2000; std::vector<size_t> cuts=sc::genCuts(c,bytes.size()); bool chunked=c.flip();
	c.note(cfg.show()); c.note("input "+pbt::quote(bytes,3000)); c.key(cfg.show()+bytes); if (bytes.size()>=10) c.nontrivial();
	long n[3];
	for (int i=0;i<3;++i) { { sl::Result r=chunked?sl::scanChunked(cfg,bytes,cuts,true,1,0,2*bytes.size()+20):sl::scanAll(cfg,bytes,1,0,2*bytes.size()+20); } n[i]=pbt::allocatedBlocks(); }
	CHECK( n[2]<=n[1] || n[1]<=n[0], "scanning leaks: " << n[0] << ", " << n[1] << ", " << n[2] << " blocks allocated after each scan");
}
