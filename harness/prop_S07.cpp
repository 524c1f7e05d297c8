#include "scancheck.hpp"
using namespace enc;
PROPERTY(S07)

LAW(references, 320000, 3000000, "at least three references or line ends")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); sc::genSource(c,cfg);
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=c.chance(1,30); o.maxElems=1+c.draw(4); o.extras=false; o.entities=c.chance(2,3); o.verbatim=c.chance(2,3);
	doc::Doc d=doc::generate(c,o); c.note( cfg.show()); c.note(d.describe()); if (!d.ents.empty()) { cfg.ents=&d.ents; for (auto& e: d.ents) c.note( "entity "+e.first+" = "+pbt::str(e.second)); }
	std::string bytes=encode(cfg.in,cfg.page,d.text); c.key(cfg.show()+bytes); if (d.refs+d.eols>=3) c.nontrivial();
	if (d.refs) c.label("references"); if (d.eols) c.label("line ends"); if (!d.ents.empty()) c.label("user entities"); if (o.verbatim) c.label("malformed references");
	sc::Expect x( d, cfg.in, cfg.page, cfg.out); cfg.stepLimit=bytes.size()*8+2000;
	bool chunked=c.chance(1,4); if (chunked) cfg.iter=false;
	sl::Result r= chunked?sl::scanChunked( cfg, bytes, sc::genCuts(c,bytes.size()), c.flip(), 0, 0, 4*bytes.size()+100):sl::scanAll( cfg, bytes, 0, 0, 4*bytes.size()+100);
	CHECK( !r.endless && r.cause==0, "no end or exception " << r.cause);
	std::string m=x.matchAll( r.ev, false); CHECK( m.empty(), m);
}

// short sequences over the interesting pieces, with the expected value built alongside
LAW(pieces, 480000, 5000000, "at least two pieces that are not plain text")
{
	struct P { const char* s; const char* v; };
	static const P ps[]={{"a","a"},{"\r",0},{"\n",0},{"\r\n",0},{"&#13;","\r"},{"&#10;","\n"},{"&#xD;","\r"},{"&#xa;","\n"},{"&amp;","&"},{"&lt;","<"},{"&gt;",">"},{"&quot;","\""},{"&apos;","'"},{"&nbsp;"," "},{" "," "},{"\t","\t"},{"&#9;","\t"},{"&#65;","A"},{"&#x41;","A"},{"&#0000000000065;","A"},{"&#x0000000000041;","A"},{"&#000000000000065;","A"},{"&#x000000000000041;","A"},{"&#38;","&"},{"&#x3c;","<"},
		{"& ","& "},{"&a ","&a "},{"&#12 ","&#12 "},{"&#x12 ","&#x12 "},{"&#x1G;","&#x1G;"},{"&#;","&#;"},{"&#x;","&#x;"},{"&# ","&# "},{"&&amp;","&&"},{"&amp;amp;","&amp;"},{"&#38;lt;","&lt;"},{"&#4294967296;","&#4294967296;"},{"&#99999999999;","&#99999999999;"},{"&#xfffffffff;","&#xfffffffff;"},{"&#12345678901234567890;","&#12345678901234567890;"},{"&#x123456789012345678;","&#x123456789012345678;"},{"&#1a;","&#1a;"},{"&#X41;","&#X41;"},{"&foo;","@"},{"&fo2;","#"},{"&f;","="},{"&foo ","&foo "},{"&fo;","%"},{"]","]"},{";",";"},{"#","#"},{"x","x"},{"&#xD;\n","\r\n"},{"&\r\n","&\n"},{"&lt\r","&lt\n"},{"&#6\r\n","&#6\n"},{"&#x\r","&#x\n"},{"&#\n","&#\n"},{"&amp\n;","&amp\n;"}};
	static const sl::Entities ents={{"foo",'@'},{"fo2",'#'},{"f",'='},{"fo",'%'},{"am",'1'},{"bar",'2'},{"l",'3'}};
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); sc::genSource(c,cfg); cfg.ents=&ents;
	std::string src,val; unsigned n=1+c.size(10), special=0; bool cr=false;
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); const P& p=c.of(ps); src+=p.s;
		if (p.v) { val+=p.v; special+=p.s[0]=='&'; cr=false; const char* e=p.s+strlen(p.s)-1; if (*e=='\r') cr=true; }
		else { ++special; std::string s(p.s); if (s=="\r") { val+='\n'; cr=true; } else if (s=="\n") { if (!cr) val+='\n'; cr=false; } else { val+='\n'; cr=false; } }
	}
	bool attr=c.flip(); char q=c.flip()?'\'':'"'; if (!attr) { size_t k; while ((k=src.find("]]>"))!=std::string::npos) src[k]='x'; }
	std::string text=attr?"<a b="+std::string(1,q)+src+q+"/>":"<a>"+src+"</a>"; c.note(cfg.show()); c.note(pbt::quote(text)); c.key(cfg.show()+text); if (special>=2) c.nontrivial();
	std::string bytes=encode(cfg.in,cfg.page,u32(text)); bool chunked=c.chance(1,3); if (chunked) cfg.iter=false; cfg.stepLimit=bytes.size()*8+2000;
	sl::Result r= chunked?sl::scanChunked( cfg, bytes, sc::genCuts(c,bytes.size()), c.flip(), 0, 0, bytes.size()+100):sl::scanAll( cfg, bytes, 0, 0, bytes.size()+100);
	size_t at=attr?2:1; CHECK( r.ev.size()==(attr?5u:4u) && r.ev.back().type==doc::SB::Exit, "events: " << r.ev.size() << ", last " << (r.ev.empty()?std::string("-"):r.ev.back().show()));
	std::string exp=encode(cfg.out,1,u32(val)), alt=exp; if (attr) { std::string v2; U32 u; for (char ch: val) u.push_back((unsigned char)ch); }
	CHECK( r.ev[at].type==(attr?doc::SB::TagAttribValue:doc::SB::Content), "event " << r.ev[at].show());
	// the normalisation of white space in attribute values to spaces would be right, too
	if (r.ev[at].value!=exp) { U32 g; decode(cfg.out,1,r.ev[at].value,g); U32 w=u32(val); bool same=attr&&g.size()==w.size(); if (same) for (size_t i=0;i<g.size();++i) if (g[i]!=w[i] && !(g[i]==' '&&(w[i]=='\n'||w[i]=='\t'))) same=false; CHECK( same, "value " << show(g) << " instead of " << show(w)); }
}

LAW(undefined_entity, 120000, 800000, "an entity map is given")
{
	static const char* names[]={"undefined","a","x1","ltx","amper","fooo","fo","Foo","ba","barr","nb","gtt","quo","apo","ent15charslong0","q","am"};
	static const sl::Entities ents={{"foo",'@'},{"bar",'2'}};
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); sc::genSource(c,cfg); if (c.chance(2,3)) { cfg.ents=&ents; c.nontrivial(); }
	std::string pre, post; for (unsigned i=c.draw(5);i;--i) pre+=c.flip()?"x":"&amp;"; for (unsigned i=c.draw(5);i;--i) post+=c.flip()?"y":"&lt;"; if (cfg.ents&&c.flip()) pre+="&foo;";
	std::string name=c.of(names); bool attr=c.flip(); std::string text=attr?"<a b='"+pre+"&"+name+";"+post+"'>z</a>":"<a>"+pre+"&"+name+";"+post+"</a>";
	c.note(cfg.show()+(cfg.ents?" with entities foo, bar":"")); c.note(text); c.key(cfg.show()+text);
	std::string bytes=encode(cfg.in,cfg.page,u32(text)); cfg.stepLimit=bytes.size()*8+2000;
	sl::Result r=sl::scanAll( cfg, bytes, 0, 0, bytes.size()+100);
	CHECK( r.ev.size()==(attr?3u:2u), r.ev.size() << " events");
	CHECK( r.ev.back().type==doc::SB::ErrorOccurred && r.ev.back().err==doc::SB::ErrUndefinedCharacterEntity, "undefined entity " << name << " gives " << r.ev.back().show());
}

// maps of several scanners used in turn, maps that are filled anew (at the same place, with names at the same places) for the next scanner
LAW(entity_maps, 60000, 1500000, "a name has different characters in two scans")
{
	typedef textwolf::XMLScanner<textwolf::CStringIterator,textwolf::charset::UTF8,textwolf::charset::UTF8,std::string> S;
	static const char* names[]={"foo","fo","e","uuml","a.b","X","am","ent15charslong0"};
	struct Use
	{
		char mem[8][20]; S::EntityMap map; std::map<std::string,uint32_t> is; std::string doc; std::vector<std::string> exp; bool err; std::unique_ptr<S> s; std::vector<std::string> got; bool done, gotErr;
		void fill( pbt::Ctx& c)
		{
			s.reset(); map.clear(); is.clear(); exp.clear(); got.clear(); err=done=gotErr=false; unsigned n=c.draw(5);
			for (unsigned i=0;i<n;++i) { std::strcpy( mem[i], c.of(names)); static const uint32_t V[]={'@','1','2','<','&',0xE9,0x20AC,0x1F600,'z'}; uint32_t v=c.of(V); if (is.count( mem[i])) continue; is[ mem[i]]=v; map[ mem[i]]=(textwolf::UChar)v; }
			doc="<a>"; unsigned t=1+c.draw(4); for (unsigned i=0;i<t && !err;++i) { std::string x; doc+="<b>"; unsigned k=1+c.draw(3); for (unsigned j=0;j<k && !err;++j) { std::string nm=c.of(names); bool known=is.count(nm)!=0; if (!known && c.chance(3,4)) { if (is.empty()) { doc+='x'; x+='x'; continue; } nm=is.begin()->first; known=true; } doc+="&"+nm+";"; if (known) put( UTF8, 1, is[nm], x); else err=true; } doc+="</b>"; if (!err) exp.push_back(x); } doc+="</a>";
			s.reset( new S( textwolf::CStringIterator( doc.data(), doc.size()), map));
		}
		void step(){ if (done) return; S::ElementType e=s->nextItem(); if (e==S::Content) got.push_back( s->getItem()); else if (e==S::ErrorOccurred) { gotErr=s->getError()==S::ErrUndefinedCharacterEntity; done=true; } else if (e==S::Exit) done=true; }
		std::string show() const { std::string r=doc+" with"; for (auto& x: is) r+=" "+x.first+"="+pbt::str(x.second); return r; }
	};
	unsigned n=1+c.draw(2); std::vector<std::unique_ptr<Use> > u; std::map<std::string,std::set<uint32_t> > seen; std::string k; for (unsigned i=0;i<n;++i) { u.emplace_back( new Use); }
	unsigned rounds=1+c.draw(3);
	for (unsigned r=0;r<rounds;++r)
	{
		pbt::Ctx::SpanGuard g(c); for (auto& x: u) { x->fill(c); c.note( x->show()); k+=x->show()+"\n"; for (auto& y: x->is) seen[ y.first].insert( y.second); }
		for (unsigned i=0;i<60;++i) u[ n==1?0:c.draw(n)]->step();
		for (auto& x: u) { while (!x->done) x->step(); CHECK( x->got==x->exp && x->gotErr==x->err, "round " << r << ": " << x->show() << ": values " << pbt::quote( [&]{ std::string o; for (auto& y: x->got) o+=y+"|"; return o; }()) << (x->gotErr?" and an error":"") << ", expected " << pbt::quote( [&]{ std::string o; for (auto& y: x->exp) o+=y+"|"; return o; }()) << (x->err?" and an error":"")); }
	}
	c.key(k); for (auto& x: seen) if (x.second.size()>1) { c.nontrivial(); break; }
}

// maps of any size with names of any length, several of them alike
LAW(entity_names, 90000, 1200000, "at least two entities in a map of more than three")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); sc::genSource(c,cfg);
	static const char chars[]="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._:"; static const char* const pre[]={"amp","lt","gt","quot","apos","nbsp"};
	auto other=[&]()->char{ return chars[ c.draw( c.flip()?4:sizeof(chars)-1)]; };
	auto isPre=[&]( const std::string& n){ for (auto p: pre) if (n==p) return true; return false; };
	auto variant=[&]( std::string n){ switch (c.draw(4)) { case 0: n[ c.draw(n.size())]=other(); break; case 1: if (n.size()<15) n+=other(); break; case 2: if (n.size()>1) n.erase( n.size()-1); break; default: if (n.size()>1) n.erase( 0, 1); } return n; };
	auto length=[&](){ return c.chance(1,3)?13+c.draw(3):1+c.draw(15); };
	std::vector<std::string> names; std::set<std::string> is; sl::Entities ents; unsigned n=c.chance(1,12)?40+c.draw(400):c.draw(12); uint32_t base=0;
	for (unsigned i=0;i<n;++i)
	{
		std::string nm; if (n>=40) { base=base*1664525u+1013904223u+c.draw(2); unsigned l=1+(base>>28); uint32_t b=base; if (l>15) l=15; for (unsigned k=0;k<l;++k) { b=b*1664525u+1013904223u; nm+=chars[ (b>>24)%(sizeof(chars)-1)]; } }
		else if (!names.empty() && c.chance(1,2)) nm=variant( c.of(names)); else if (c.chance(1,6)) nm=variant( c.of(pre)); else for (unsigned l=length();l;--l) nm+=other();
		if (isPre(nm) || !is.insert(nm).second) continue;
		uint32_t v; switch (c.pick({3,2,2,1})) { case 0: v=33+c.draw(94); break; case 1: v=0xA0+c.draw(0x5000); break; case 2: v=0x10000+c.draw(0x100000); break; default: v=c.flip()?0xFFFD:0x110000+c.draw(0x7FEF0000u-1); } if (!representable( cfg.out, 1, v)) v=33+v%94;
		names.push_back(nm); ents.push_back( std::make_pair( nm, v));
	}
	cfg.ents=&ents; unsigned used=0; bool err=false; std::string src; U32 val; unsigned t=1+c.draw(6);
	for (unsigned i=0;i<t && !err;++i)
	{
		pbt::Ctx::SpanGuard g(c);
		if (c.chance(1,4)) { static const char* const txt[]={"x","&amp;","&#65;"," y"}; static const char* const v[]={"x","&","A"," y"}; unsigned k=c.draw(4); src+=txt[k]; for (const char* p=v[k];*p;++p) val.push_back(*p); continue; }
		std::string nm; if (!ents.empty() && !c.chance(1,8)) { auto& e=c.of(ents); nm=e.first; } else if (!names.empty() && c.flip()) nm=variant( c.of(names)); else for (unsigned l=length();l;--l) nm+=other();
		if (isPre(nm)) continue; src+="&"+nm+";"; auto e=std::find( names.begin(), names.end(), nm); if (e==names.end()) err=true; else { val.push_back( ents[ e-names.begin()].second); ++used; }
	}
	bool attr=c.flip(); if (!attr) { src="z"+src; val.insert( val.begin(), 'z'); }
	std::string text=attr?"<a b='"+src+"'>z</a>":"<a>"+src+"</a>"; c.note( cfg.show()); c.note( pbt::quote(text)); c.note( pbt::str( names.size())+" entities"); if (names.size()<20) for (auto& e: ents) c.note( e.first+"="+pbt::str(e.second)); c.key( cfg.show()+text); if (used>=2 && names.size()>3) c.nontrivial(); if (names.size()>=40) c.label("big map"); if (err) c.label("undefined");
	std::string bytes=encode(cfg.in,cfg.page,u32(text)); cfg.stepLimit=bytes.size()*8+2000; bool chunked=c.chance(1,3); if (chunked) cfg.iter=false;
	sl::Result r= chunked?sl::scanChunked( cfg, bytes, sc::genCuts(c,bytes.size()), c.flip(), 0, 0, bytes.size()+100):sl::scanAll( cfg, bytes, 0, 0, bytes.size()+100);
	size_t at=attr?2:1; CHECK( r.ev.size()>at, r.ev.size() << " events");
	if (err) { CHECK( r.ev.size()==at+1 && r.ev[at].type==doc::SB::ErrorOccurred && r.ev[at].err==doc::SB::ErrUndefinedCharacterEntity, "undefined entity: " << r.ev[at].show()); }
	else
	{
		CHECK( r.ev.size()==(attr?6u:4u) && r.ev.back().type==doc::SB::Exit, r.ev.size() << " events, last " << r.ev.back().show());
		std::string exp=encode( cfg.out, 1, val); U32 g; decode( cfg.out, 1, r.ev[at].value, g);
		CHECK( r.ev[at].type==(attr?doc::SB::TagAttribValue:doc::SB::Content) && r.ev[at].value==exp, "value " << show(g) << " instead of " << show(val));
	}
}
