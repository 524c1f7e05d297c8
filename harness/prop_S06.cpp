#include "scancheck.hpp"
using namespace enc;
PROPERTY(S06)
using doc::Site;

struct Damage { U32 text; uint32_t at; std::string what; };

// events that must have been delivered: everything that is complete before 'at'; the one ending exactly there may be
static void check( pbt::Ctx& c, const doc::Doc& d, const sl::Cfg& cfg_, const Damage& g, bool chunked, bool masked)
{
	sl::Cfg cfg=cfg_; sc::Expect x( d, cfg.in, cfg.page, cfg.out);
	std::string bytes=encode(cfg.in,cfg.page,g.text); cfg.stepLimit=bytes.size()*8+2000; if (!d.ents.empty()) cfg.ents=&d.ents;
	c.note( cfg.show()+(chunked?" in pieces":"")+": "+g.what+" at character "+pbt::str(g.at)); c.note( show(g.text,3000)); c.key( cfg.show()+bytes);
	size_t must=0; while (must<d.ev.size() && d.ev[must].need<=g.at && d.ev[must].type!=doc::SB::Exit) ++must;
	size_t may=must; if (may<d.ev.size() && d.ev[may].from!=doc::NPOS && d.ev[may].to<=g.at && d.ev[may].type!=doc::SB::Exit) ++may;
	size_t lim=4*bytes.size()+100;
	sl::Result r= chunked?sl::scanChunked( cfg, bytes, sc::genCuts(c,bytes.size()), c.flip(), 0, 0, lim):sl::scanAll( cfg, bytes, 0, 0, lim);
	CHECK( !r.endless && r.cause==0, "scanning does not come to an end or throws (cause " << r.cause << ")");
	CHECK( !r.ev.empty(), "no event");
	const sl::Event& e=r.ev.back();
	CHECK( e.type==doc::SB::ErrorOccurred, g.what << " is not reported: the document ends with " << e.show() << " after " << r.ev.size()-1 << " events");
	CHECK( e.err!=0 && e.haserrtext && !e.errtext.empty() && e.errtext.find("iterator error text")==std::string::npos, "error without code or description: " << e.show());
	std::string m=x.match( r.ev, r.ev.size()-1, may, must, false); CHECK( m.empty(), g.what << ": before the error " << m);
	if (masked)
	{
		std::vector<unsigned short> masks=sc::genMasks(c); cfg.iter=false;
		sl::Result q=sl::scanAll( cfg, bytes, 0, &masks, lim); CHECK( q.ev.size()==r.ev.size(), "with masks " << q.ev.size() << " events instead of " << r.ev.size());
		for (size_t i=0;i<q.ev.size();++i) CHECK( q.ev[i].type==r.ev[i].type && q.ev[i].err==r.ev[i].err, "with masks event " << i << " is " << q.ev[i].show() << " instead of " << r.ev[i].show());
	}
}
static doc::Doc genDoc( pbt::Ctx& c, sl::Cfg& cfg)
{
	cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); sc::genSource(c,cfg);
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=c.chance(1,30); o.maxElems=1+c.draw(8); o.entities=c.chance(1,5); return doc::generate(c,o);
}

LAW(truncated, 240000, 2500000, "cut behind the first event")
{
	sl::Cfg cfg; doc::Doc d=genDoc(c,cfg); if (!d.ents.empty()) cfg.ctor=0;
	// regions of at least two characters
	std::vector<std::pair<uint32_t,uint32_t> > m; for (auto& r: d.markup) if (r.second-r.first>=2) m.push_back(r);
	if (m.empty()) throw pbt::Discard();
	std::pair<uint32_t,uint32_t> r=c.of(m); Damage g; g.at=c.range( r.first+1, r.second-1); g.text=d.text; g.text.resize( g.at); g.what="text cut off inside markup";
	if (d.ev[0].need<=g.at) c.nontrivial();
	bool chunked=c.chance(1,4), masked=c.chance(1,5); check( c, d, cfg, g, chunked, masked);
}
LAW(truncated_everywhere, 2400, 30000, "more than 20 cuts")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.src=sl::USERIT; cfg.out=sl::outFor(cfg.src,cfg.in,cfg.in);
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=false; o.maxElems=4; doc::Doc d=doc::generate(c,o); std::string k=encode(cfg.in,cfg.page,d.text); unsigned n=0;
	for (auto& r: d.markup) for (uint32_t p=r.first+1;p<r.second&&n<600;++p) { Damage g; g.at=p; g.text=d.text; g.text.resize(p); g.what="text cut off inside markup"; check( c, d, cfg, g, false, false); ++n; }
	c.key(k); if (n>20) c.nontrivial();
}

static bool plain( const U32& v){ if (v.empty()) return false; for (uint32_t ch: v) if (!((ch>='a'&&ch<='z')||(ch>='A'&&ch<='Z')||(ch>='0'&&ch<='9')||ch=='.'||ch=='-')) return false; return true; }
static U32 splice( const U32& t, uint32_t from, uint32_t to, const std::string& s){ U32 r(t.begin(),t.begin()+from); cat(r,s.c_str()); r.insert(r.end(),t.begin()+to,t.end()); return r; }

LAW(violated, 400000, 4000000, "damage behind the first event")
{
	sl::Cfg cfg; doc::Doc d=genDoc(c,cfg); if (!d.ents.empty()) cfg.ctor=0;
	unsigned kind=c.draw( Site::NofKinds); std::vector<Site> s; for (auto& x: d.sites) if (x.kind==(int)kind) s.push_back(x);
	if (s.empty()) { if (d.sites.empty()) throw pbt::Discard(); s=d.sites; }
	Site x=c.of(s); Damage g; g.at=x.from; bool masked=c.chance(1,5), chunked=c.chance(1,4);
	switch (x.kind)
	{
		case Site::TagAttrEq: case Site::HdrEq: g.what="missing equal sign"; g.text=splice( d.text, x.from, x.to, c.flip()?" ":""); break;
		case Site::TagAttrClosing:
			g.what="attribute value not closed"; for (size_t i=x.to;i<d.text.size();++i) if (d.text[i]==(unsigned char)x.quote) throw pbt::Discard();
			g.text=splice( d.text, x.from, x.to, ""); break;
		case Site::TagAttrOpening: case Site::HdrOpening:
		{
			bool ok=false; for (auto& e: d.ev) if (e.from==x.to && plain(U32(d.text.begin()+e.from,d.text.begin()+e.to)) && e.to>e.from) ok=true; if (!ok) throw pbt::Discard();
			g.what="attribute value without left quote"; g.text=splice( d.text, x.from, x.to, ""); break;
		}
		case Site::InTagName: { static const char* C[]={"<","\"","'","!","?","[","]","="}; std::string s=c.of(C); g.what="misplaced "+s+" after a tag name"; g.text=splice( d.text, x.from, x.from, s); break; }
		case Site::BeforeTagAttr: { static const char* C[]={"<","\"","'","!","?","[","]","/"}; std::string s=c.of(C); g.what="misplaced "+s+" before an attribute name"; g.text=splice( d.text, x.from, x.from, s); break; }
		case Site::AfterTagAttr: case Site::HdrAfterValue: { static const char* C[]={"<","\"","'","!","[","]","=","a","x='y'","-"}; std::string s=c.of(C); g.what="misplaced "+s+" after an attribute value"; g.text=splice( d.text, x.from, x.from, s); break; }
		case Site::CloseName: { static const char* C[]={"<","\""," b","/","=","!"," /"," ="}; std::string s=c.of(C); g.what="misplaced "+s+" in a close tag"; g.text=splice( d.text, x.from, x.from, s); break; }
		case Site::ImClose: { static const char* C[]={"<","a","/","=","\""}; std::string s=c.of(C); g.what="misplaced "+s+" between / and >"; g.text=splice( d.text, x.from, x.from, s); break; }
		case Site::HdrOpen: { static const char* C[]={"XML","Xml","xMl","xmL","xml=","xml\"","xml<","xml/"}; std::string s=c.of(C); g.what="wrong header opener <?"+s; g.text=splice( d.text, x.from, x.to, s); break; }
		case Site::HdrEnd: { static const char* C[]={"a","<","?","=","\"","/"}; std::string s=c.of(C); g.what="misplaced "+s+" between ? and >"; g.text=splice( d.text, x.from, x.from, s); break; }
		case Site::CommentOpen: { static const char* C[]={"x",""," ",">","!"}; std::string s=c.of(C); if (s=="" && d.text[x.to]=='-') throw pbt::Discard(); g.what="wrong comment opener"; g.text=splice( d.text, x.from, x.to, s); break; }
		case Site::CDataOpen: { static const char* C[]={"CDAT","cdata","CDATAX","","CDATA ","DATA","CDAtA","CDATA["}; std::string s=c.of(C); if (s=="CDATA[") { s="CDATA]"; } g.what="wrong section opener <!["+s; g.text=splice( d.text, x.from, x.to, s); break; }
		case Site::Value: { static const char* C[]={"undefined","x1","ltx","a","amper","quote","apostrophe","gtt","nb","foo2","Lt","AMP","ap","qu","g"}; std::string s=c.of(C); g.what="undefined entity &"+s+";"; g.text=splice( d.text, x.from, x.from, "&"+s+";"); masked=false; 
			for (auto& e: d.ents) if (e.first==s) throw pbt::Discard();
			break; }
		case Site::ElemStart: { static const char* C[]={"a","abc","=","/>","-","\"","&amp;",">"}; std::string s=c.of(C); g.at=0; g.what="text "+s+" before the first tag"; g.text=splice( d.text, 0, 0, s); break; }
		default: throw pbt::Discard();
	}
	c.label( g.what.substr(0,g.what.find_first_of("<&[]!/=\"'")==std::string::npos?40:20)); if (d.ev[0].need<=g.at) c.nontrivial();
	check( c, d, cfg, g, chunked, masked);
}
