#include "scancheck.hpp"
using namespace enc;
PROPERTY(S10)

// a scan in progress
struct Run
{
	std::unique_ptr<sl::Scanner> s; std::vector<size_t> cuts; size_t ci=0, at=0; bool last=false; const std::string* doc; bool chunked=false; std::shared_ptr<char> piece; std::vector<sl::Event> ev; bool done=false; unsigned extra=1; const std::vector<unsigned short>* masks=0;
	Run( const sl::Cfg& cfg, const std::string& d, const std::vector<size_t>& c):cuts(c),doc(&d),chunked(cfg.src==sl::CHUNKED) { s=sl::make( cfg, chunked?std::string():d); }
	Run( const Run& o):s(o.s->clone()),cuts(o.cuts),ci(o.ci),at(o.at),last(o.last),doc(o.doc),chunked(o.chunked),piece(o.piece),ev(o.ev),done(o.done),extra(o.extra),masks(o.masks) {}
	void recut( const std::vector<size_t>& c){ cuts=c; ci=0; while (ci<cuts.size()&&cuts[ci]<at) ++ci; }
	// one call: an event or a request for input
	void call()
	{
		if (done) return;
		sl::Event e;
		if (s->next( masks?sc::maskOf(*masks,ev.size()):0xFFFF, e)) { ev.push_back(e); if (e.type==doc::SB::Exit||e.type==doc::SB::ErrorOccurred) { if (extra==0) done=true; else --extra; } if (ev.size()>4*doc->size()+100) throw pbt::Failure("no end"); return; }
		if (last) throw pbt::Failure("more input wanted after the last piece");
		size_t to= ci<cuts.size()?cuts[ci++]:doc->size(); if (to==doc->size() && ci>=cuts.size()) last=true;
		std::shared_ptr<char> p( new char[to-at+1], std::default_delete<char[]>()); memcpy( p.get(), doc->data()+at, to-at);
		s->feed( p.get(), to-at, last); piece=p; at=to;
	}
	sl::Result result() const { sl::Result r; r.ev=ev; return r; }
};
static void genCfg( pbt::Ctx& c, sl::Cfg& cfg)
{
	cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); static const int S[]={sl::CHUNKED,sl::CSTRING,sl::SRCWHOLE,sl::USERIT,sl::CHARPTR,sl::ISTREAM,sl::CHUNKED}; cfg.src=c.of(S); cfg.out=sl::outFor(cfg.src,cfg.in,cfg.out);
	cfg.ctor=c.draw(4); cfg.vec=c.chance(1,5); cfg.iter=c.chance(1,6);
}

LAW(copies, 300000, 2500000, "a copy is taken after at least one event and before the end")
{
	static const sl::Entities ents={{"foo",'@'},{"undefined2",0x20ac}};
	sl::Cfg cfg; genCfg(c,cfg); bool well; std::string bytes=sc::genInput(c,cfg.in,cfg.page,well); if (!well&&cfg.src==sl::CHARPTR) cfg.src=sl::CSTRING;
	if (c.chance(1,4)) cfg.ents=&ents;
	if (cfg.src==sl::ISTREAM) cfg.bufsize=bytes.size()+1+c.draw(100); // the copies share the stream: it has to be read completely
	std::vector<unsigned short> masks; if (!cfg.iter && c.chance(1,5)) masks=sc::genMasks(c);
	c.note(cfg.show()); c.note("input "+pbt::quote(bytes,3000)); c.key(cfg.show()+bytes);
	size_t lim=4*bytes.size()+100;
	sl::Cfg rc=cfg; if (rc.src==sl::CHUNKED) rc.src=sl::SRCWHOLE; sl::Result ref=sl::scanAll( rc, bytes, 1, &masks, lim); CHECK( !ref.endless, "reference does not end");
	std::vector<std::unique_ptr<Run> > runs; runs.emplace_back( new Run( cfg, bytes, sc::genCuts(c,bytes.size()))); runs[0]->masks=&masks;
	unsigned copies=0, steps=0; bool mid=false;
	while (steps++<40*bytes.size()+400)
	{
		bool all=true; for (auto& r: runs) all&=r->done; if (all) break;
		unsigned i=c.draw(runs.size());
		if (copies<4 && c.chance(1,6))
		{
			pbt::Ctx::SpanGuard g(c);
			Run* n=new Run(*runs[i]); ++copies; if (!n->ev.empty()&&!n->done) mid=true;
			if (n->chunked && c.flip()) n->recut( sc::genCuts(c,bytes.size()));
			c.note("copy of scanner "+pbt::str(i)+" after event "+pbt::str(n->ev.size())+" and "+pbt::str(n->at)+" bytes");
			if (c.chance(1,4)) { c.note("the original is destroyed"); runs[i].reset( n); } else runs.emplace_back( n);
			continue;
		}
		for (unsigned k=1+c.draw(3);k;--k) runs[i]->call();
	}
	if (mid) c.nontrivial();
	for (size_t i=0;i<runs.size();++i) { while (!runs[i]->done) runs[i]->call(); std::string m=sc::diff( runs[i]->result(), ref, &masks, false); CHECK( m.empty(), "scanner " << i << ": " << m); }
	// source positions of the copies agree, too
	if (!cfg.iter && cfg.src!=sl::CHUNKED) for (size_t i=0;i<runs.size();++i) { std::string m=sc::diff( runs[i]->result(), ref, &masks, true); CHECK( m.empty(), "scanner " << i << ": " << m); }
}

LAW(parallel, 150000, 1000000, "scanners of at least two different encodings or code pages")
{
	unsigned n=2+c.draw(3); std::vector<sl::Cfg> cfg(n); std::vector<std::string> bytes(n); std::vector<sl::Result> ref(n); std::vector<std::unique_ptr<Run> > runs; std::string k; std::set<int> kinds; bool shared=c.chance(1,3), inturn=c.flip();   // shared: the same bytes as different encodings
	for (unsigned i=0;i<n;++i)
	{
		bool well; genCfg(c,cfg[i]); if (shared && i) { if (c.chance(2,3)) { cfg[i].in=cfg[0].in; if (cfg[i].in==enc::LATIN) cfg[i].page=1+c.draw(9); else cfg[i].page=cfg[0].page; cfg[i].out=sl::outFor( cfg[i].src, cfg[i].in, cfg[i].out); } bytes[i]=bytes[0]; well=false; } else bytes[i]=sc::genInput(c,cfg[i].in,cfg[i].page,well); if (!well&&cfg[i].src==sl::CHARPTR) cfg[i].src=sl::CSTRING; kinds.insert(cfg[i].in*100+cfg[i].page);
		static const sl::Entities maps[3]={{{"foo",'@'},{"undefined2",0x20ac}},{{"foo",'#'},{"undefined2",'A'}},{{"undefined2",'='},{"e",'b'}}}; if (c.chance(1,3)) cfg[i].ents=&maps[c.draw(3)];
		if (cfg[i].src==sl::ISTREAM) { cfg[i].bufsize=sc::genBufsize(c); cfg[i].reads=sc::genReads(c); }
		c.note(cfg[i].show()); c.note("input "+pbt::quote(bytes[i],1500)); k+=cfg[i].show()+bytes[i];
		sl::Cfg rc=cfg[i]; if (rc.src==sl::CHUNKED) rc.src=sl::SRCWHOLE; ref[i]=sl::scanAll( rc, bytes[i], 1, 0, 4*bytes[i].size()+100); CHECK( !ref[i].endless, "reference does not end");
	}
	c.key(k); if (kinds.size()>=2) c.nontrivial();
	for (unsigned i=0;i<n;++i) runs.emplace_back( new Run( cfg[i], bytes[i], sc::genCuts(c,bytes[i].size())));
	for (unsigned s=0;s<400;++s) runs[inturn?s%n:c.draw(n)]->call();
	for (unsigned i=0;i<n;++i) { while (!runs[i]->done) runs[i]->call(); std::string m=sc::diff( runs[i]->result(), ref[i], 0, false); CHECK( m.empty(), "scanner " << i << ": " << m); }
}
