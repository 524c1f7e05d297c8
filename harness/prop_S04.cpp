#include "scancheck.hpp"
using namespace enc;
PROPERTY(S04)

LAW(sources, 250000, 6000000, "input of more than 20 bytes giving at least three events")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sl::outFor( sl::ISTREAM, cfg.in, sc::genOut(c,cfg.in)); bool well; std::string bytes=sc::genInput(c,cfg.in,cfg.page,well);
	unsigned extra=c.draw(3); size_t lim=4*bytes.size()+100;
	std::vector<unsigned short> masks; if (c.chance(1,4)) masks=sc::genMasks(c);
	cfg.src=sl::CSTRING; sl::Result ref=sl::scanAll( cfg, bytes, extra, &masks, lim);
	c.note("input "+pbt::quote(bytes,3000)); std::string k=bytes;
	if (bytes.size()>20 && ref.ev.size()>=3) c.nontrivial();
	c.label( well?"well-formed encoding":"arbitrary bytes");
	CHECK( !ref.endless && ref.cause==0, "scan of the string does not end, cause " << ref.cause);
	static const int S[]={sl::SRCWHOLE,sl::USERIT,sl::CHARPTR,sl::ISTREAM,sl::STDSTREAM,sl::ISTREAM,sl::CHUNKED};
	for (unsigned i=0;i<7;++i)
	{
		sl::Cfg x=cfg; x.src=S[i]; if (x.src==sl::CHARPTR && !well) continue;
		x.ctor=c.pick({3,1,1,1}); x.iter=masks.empty()&&c.chance(1,5);
		if (x.src==sl::ISTREAM||x.src==sl::STDSTREAM) { x.bufsize=sc::genBufsize(c); if (x.src==sl::ISTREAM) x.reads=sc::genReads(c); }
		x.stepLimit=bytes.size()*8+2000;
		c.note(x.show()); k+=x.show();
		sl::Result r;
		if (x.src==sl::CHUNKED) r=sl::scanChunked( x, bytes, sc::genCuts(c,bytes.size()), c.flip(), extra, &masks, lim); else r=sl::scanAll( x, bytes, extra, &masks, lim);
		std::string m=sc::diff( r, ref, &masks, false, well?(size_t)-1:bytes.size()>8?bytes.size()-8:0); CHECK( m.empty(), x.show() << ": " << m);
	}
	c.key(k);
}

// documents longer than the default buffer of the stream iterator
LAW(long_documents, 2000, 60000, "document of more than 8192 bytes")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sl::outFor( sl::ISTREAM, cfg.in, sc::genOut(c,cfg.in));
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.maxElems=4; U32 t; cat(t,"<r>"); unsigned n=8000+c.draw(20000);
	while (t.size()<n/unitSize(cfg.in)) { doc::Opt p=o; p.extras=false; pbt::Ctx::SpanGuard g(c); U32 x=doc::generate(c,p).text; size_t from=0; if (x.size()>5&&x[1]=='?') { while (from+1<x.size()&&!(x[from]=='?'&&x[from+1]=='>'&&from>1)) ++from; from+=2; } t.insert(t.end(),x.begin()+from,x.end()); for (unsigned i=c.draw(900);i;--i) t.push_back('a'+i%26); }
	cat(t,"</r>"); std::string bytes=encode(cfg.in,cfg.page,t); c.note(cfg.show()+" document of "+pbt::str(bytes.size())+" bytes"); c.key(bytes);
	size_t lim=4*bytes.size()+100; sl::Result ref=sl::scanAll( cfg, bytes, 1, 0, lim); if (bytes.size()>8192) c.nontrivial();
	CHECK( !ref.ev.empty() && ref.ev.back().type==textwolf::XMLScannerBase::Exit, "document not scanned to its end");
	static const int S[]={sl::SRCWHOLE,sl::USERIT,sl::CHARPTR,sl::ISTREAM,sl::STDSTREAM};
	for (unsigned i=0;i<5;++i)
	{
		sl::Cfg x=cfg; x.src=S[i]; if (x.src==sl::ISTREAM||x.src==sl::STDSTREAM) { static const size_t B[]={8192,8192,4096,8191,8193,100,1<<16,1000}; x.bufsize=c.of(B); if (x.src==sl::ISTREAM && c.flip()) for (unsigned k=1+c.draw(4);k;--k) x.reads.push_back(1+c.draw(9000)); } 
		x.stepLimit=bytes.size()*8+2000; c.note(x.show());
		std::string m=sc::diff( sl::scanAll( x, bytes, 1, 0, lim), ref, 0, false); CHECK( m.empty(), x.show() << ": " << m);
	}
}
