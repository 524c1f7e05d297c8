// X01: the selector against the reference model of path expressions evaluated on the document tree
#include "pathlib.hpp"
using namespace xp;
PROPERTY(X01)

template <class CS> struct Small { typedef AtmT<CS,tw::XMLPathSelectAutomaton<CS>,tw::XMLPathSelect<CS> > T; };
template <class CS> static void scanInto( const std::string& src, int, std::vector<std::pair<int,std::string> >& ev, Sel& s, Result& r)
{
	typedef tw::XMLScanner<tw::CStringIterator,CS,CS,std::string> Scanner;
	tw::CStringIterator ci( src.data(), (unsigned)src.size()); Scanner xs( ci); typename Scanner::iterator it=xs.begin(), end=xs.end();
	for (;it!=end;++it) { ev.push_back( std::make_pair( (int)it->type(), std::string( it->content(), it->size()))); if (it->type()==SB::ErrorOccurred) break; r.push_back( std::vector<int>()); s.push( it->type(), ev.back().second, ReadAll, r.back()); std::sort( r.back().begin(), r.back().end()); }
}
static Atm* make( int cs)
{
	switch (cs)
	{
		case enc::LATIN: return new Small<tw::charset::IsoLatin>::T(cs);
		case enc::UTF16BE: return new Small<tw::charset::UTF16BE>::T(cs);
		case enc::UCS4LE: return new Small<tw::charset::UCS4LE>::T(cs);
		case enc::UCS2LE: return new Small<tw::charset::UCS2LE>::T(cs);
		default: return new Small<tw::charset::UTF8>::T(enc::UTF8);
	}
}
static void scanCs( int cs, const std::string& src, std::vector<std::pair<int,std::string> >& ev, Sel& s, Result& r)
{
	switch (cs)
	{
		case enc::LATIN: scanInto<tw::charset::IsoLatin>(src,cs,ev,s,r); break;
		case enc::UTF16BE: scanInto<tw::charset::UTF16BE>(src,cs,ev,s,r); break;
		case enc::UCS4LE: scanInto<tw::charset::UCS4LE>(src,cs,ev,s,r); break;
		case enc::UCS2LE: scanInto<tw::charset::UCS2LE>(src,cs,ev,s,r); break;
		default: scanInto<tw::charset::UTF8>(src,cs,ev,s,r);
	}
}
static int genCs( pbt::Ctx& c){ static const int t[]={enc::UTF8,enc::LATIN,enc::UTF16BE,enc::UCS4LE,enc::UCS2LE}; return t[c.pick({6,1,1,1,1})]; }
static void labels( pbt::Ctx& c, const std::vector<Expr>& ee, const Doc& d)
{
	for (const Expr& e: ee)
	{
		Result r=expected( d, std::vector<Expr>(1,e)); if (!total(r)) continue;
		static const char* o[]={"tag or attribute event","attribute value","content","close tag"}; c.label( std::string("selected: ")+o[e.out]+(e.ofollow?" of descendants":"")+(e.range?" with range":""));
		for (const Step& s: e.steps) { static const char* k[]={"tag step","attribute condition","attribute context"}; c.label( std::string(k[s.kind])+(s.follow?" //":"")+(s.any?" *":"")); }
		for (auto& x: r) if (x.size()>1) { c.label( "more than one way"); break; }
	}
}

static void one( pbt::Ctx& c, bool plain, unsigned maxnodes, unsigned maxexpr, bool scanned)
{
	Pool p=genPool( c, plain); Doc d; genDoc( c, d, p, maxnodes); int cs=plain?(int)enc::UTF8:genCs(c); if (d.depth>=4) c.label("depth>=4");
	std::vector<Expr> ee=genExprs( c, p, d, maxexpr, ExprOpt(), true); noteCase( c, d, ee, cs); c.key( keyCase(d,ee)+enc::csName(cs));
	Result exp=expected( d, ee);
	std::unique_ptr<Atm> atm( make(cs)); for (const Expr& e: ee) atm->add( e, plain?0:c.draw(4));
	std::unique_ptr<Sel> s( atm->sel());
	if (!scanned) { Result got=run( *s, cs, d); std::string df=diff( d, got, exp); CHECK( df.empty(), df); }
	else
	{
		Result got; std::vector<std::pair<int,std::string> > ev; U32 text=render(d); std::string src=enc::encodeOrRef(cs,1,text); scanCs( cs, src, ev, *s, got);
		for (size_t i=0;i<ev.size()&&i<d.ev.size();++i) if (ev[i].first!=d.ev[i].type) c.fail( "the scanner delivers "+std::string(SB::getElementTypeName((SB::ElementType)ev[i].first))+" as element "+pbt::str(i)+" instead of "+SB::getElementTypeName((SB::ElementType)d.ev[i].type));
		got.resize( d.ev.size()); std::string df=diff( d, got, exp); CHECK( df.empty(), df);
	}
	if (total(exp)) c.nontrivial();
	labels( c, ee, d);
}
LAW(single_expression, 300000, 12000000, "the expression selects at least one event of the document") { one( c, true, 14, 1, false); }
LAW(expression_sets, 300000, 12000000, "the expressions select at least one event of the document") { one( c, c.chance(1,2), 30, 8, false); }
LAW(scanned_documents, 80000, 3200000, "the expressions select at least one element of the document") { one( c, false, 20, 6, true); }

// documents far bigger than anything sampled above (elements in a row, elements in elements, many attributes), and sets of very many expressions
static void bulk( pbt::Ctx& c, Doc& d, const Pool& p, int par, unsigned m, int shape)
{
	unsigned step=c.of((const unsigned[]){1u,3u,7u}); bool same=c.flip();
	auto name=[&]( unsigned i){ return same&&i+1<m?p.names[0]:p.names[ (i/step)%p.names.size()]; };
	auto open=[&]( int parent, unsigned i){ Node e; e.parent=parent; e.name=name(i); e.open=d.add( SB::OpenTag, e.name); e.close=-1; d.nodes.push_back(e); return (int)d.nodes.size()-1; };
	auto attr=[&]( int o, unsigned i){ Attr a; a.owner=o; a.name=p.anames[i%p.anames.size()]; a.value=p.values[ (i/step)%p.values.size()]; if (a.value.size()>50) a.value.resize(50); a.ntime=d.add( SB::TagAttribName, a.name); a.vtime=d.add( SB::TagAttribValue, a.value); d.attrs.push_back(a); };
	auto text=[&]( int o, unsigned i){ Text t; t.owner=o; t.time=d.add( SB::Content, U32(1,'0'+i%10)); d.texts.push_back(t); };
	if (shape==0) for (unsigned i=0;i<m;++i) { int n=open(par,i); if (i%97==5||i+3>m) attr( n, i); if (i%3) text( n, i); if (i%5) d.nodes[n].close=d.add( SB::CloseTag, d.nodes[n].name); else { if (!(i%3)) d.nodes[n].close=d.add( SB::CloseTagIm, U32()); else d.nodes[n].close=d.add( SB::CloseTag, d.nodes[n].name); } }
	else if (shape==1)
	{
		std::vector<int> st; int at=par; for (unsigned i=0;i<m;++i) { at=open(at,i); st.push_back(at); if (i%97==5||i+3>m) attr( at, i); if (i%11==3) text( at, i); } text( at, m); d.depth=std::max( d.depth, (int)m);
		while (!st.empty()) { if (st.size()==m/2) text( st.back(), 1); d.nodes[st.back()].close=d.add( SB::CloseTag, d.nodes[st.back()].name); st.pop_back(); }
	}
	else if (shape==2) { int n=open(par,0); for (unsigned i=0;i<m;++i) attr( n, i); text( n, 1); d.nodes[n].close=d.add( SB::CloseTag, d.nodes[n].name); }
	else for (unsigned i=0;i<m;++i) { text( par, i); int n=open(par,i); d.nodes[n].close=d.add( SB::CloseTagIm, U32()); }
}
LAW(large_documents, 2500, 60000, "the expressions select at least one event, and one of them in or behind the large part")
{
	Pool p=genPool( c, true); for (U32& v: p.values) if (v.size()>50) v.resize(50); Doc d; int shape=c.draw(4);
	static const unsigned S[]={255,256,257,500,511,513,1000,1025}, B[]={4095,4097,8193,16385,32767,32769,65535,65536,65537,70000}; unsigned m=c.chance(1,12)?c.of(B):c.of(S); if (shape==2) m=std::min(m,8193u);   // (the selector keeps a token for every attribute of an element)
	Node r; r.parent=0; r.name=c.of(p.names); r.open=d.add( SB::OpenTag, r.name); r.close=-1; d.nodes.push_back(r); genAttrs( c, d, p, 1, SB::TagAttribName, SB::TagAttribValue);
	unsigned budget=3; if (c.flip()) genElement( c, d, p, 1, 5, budget); size_t from=d.ev.size(); size_t small=d.nodes.size(); bulk( c, d, p, 1, m, shape); budget=4; size_t behind=d.nodes.size(); genElement( c, d, p, 1, 5, budget); if (c.flip()) genElement( c, d, p, 1, 5, budget);
	d.nodes[1].close=d.add( SB::CloseTag, r.name); d.add( SB::Exit, U32());
	// the path of an expression goes through the small parts or to one of the last elements of the large one
	Doc g; g.ev=d.ev; g.texts=d.texts; g.attrs.clear(); for (const Attr& a: d.attrs) if ((size_t)a.owner<small || (size_t)a.owner>=behind) g.attrs.push_back(a);
	g.nodes.assign( d.nodes.begin(), d.nodes.begin()+small); { Node n=d.nodes[small+c.draw(std::min<size_t>(behind-small,20))]; n.parent=1; g.nodes.push_back(n); } for (size_t i=behind;i<d.nodes.size();++i) { Node n=d.nodes[i]; if ((size_t)n.parent>=behind) n.parent-=(int)(behind-small-1); g.nodes.push_back(n); } for (Attr& a: g.attrs) if ((size_t)a.owner>=behind) a.owner-=(int)(behind-small-1);
	std::vector<Expr> ee=genExprs( c, p, g, 4, ExprOpt(), true);
	if (c.chance(1,3)) for (Expr& e: ee) if (e.out==Content && e.range) { e.r1=std::max<int>( 0, (int)(m-c.draw(4)-(c.flip()?m/3:0))); if (e.r2>=0) e.r2=e.r1+(int)c.draw(5); }
	if (c.verbose()) { c.note( "shape "+pbt::str(shape)+" of "+pbt::str(m)); c.note( "document: "+enc::show( render(d), 600)); for (const Expr& e: ee) c.note( "expression: "+showExpr(e)); }
	std::string k=pbt::str(shape)+" "+pbt::str(m); for (const Expr& e: ee) k+="\n"+showExpr(e); c.key(k);
	Result exp=expected( d, ee, 4000000, 200000);
	std::unique_ptr<Atm> atm( make(enc::UTF8)); for (const Expr& e: ee) atm->add( e, 0); std::unique_ptr<Sel> s( atm->sel()); Result got=run( *s, enc::UTF8, d); std::string df=diff( d, got, exp); CHECK( df.empty(), df);
	for (size_t i=from;i<exp.size();++i) if (!exp[i].empty()) { c.nontrivial(); static const char* N[]={"in a row","nested","attributes","texts"}; c.label( std::string(N[shape])+(m>4000?" >4000":"")); break; }
}
LAW(many_expressions, 1500, 40000, "at least 128 expressions, and at least 20 of them select something")
{
	Pool p=genPool( c, true); { unsigned n=c.draw(30); for (unsigned i=0;i<n;++i) { U32 w=enc::u32("n"); w.push_back('0'+i%10); w.push_back('a'+i/10); p.names.push_back(w); } }
	Doc d; genDoc( c, d, p, 14); static const unsigned L[]={129,200,255,256,257,300,400,513}, B[]={1025,2000,4097}; unsigned n=c.chance(1,40)?c.of(B):c.of(L);
	std::vector<Expr> base=genExprs( c, p, d, 24, ExprOpt(), false), ee; unsigned seed=c.draw(1000);
	for (unsigned i=0;i<n;++i) { Expr e=base[ (i*7+seed)%base.size()]; e.type=(int)i+1; if (i>=base.size()) { unsigned v=(i*31+seed)%16; if (!e.steps.empty() && v<8) { Step& s=e.steps[v%e.steps.size()]; if (s.kind==Tag && !s.any) { s.names.assign( 1, p.names[(i+v)%p.names.size()]); if (s.names[0].size()>60) s.any=false; } } else if (v<10 && !e.steps.empty() && e.steps[0].kind==Tag) e.steps[0].follow=!e.steps[0].follow; else if (v<12 && e.out==AttrValue && !e.oany) e.onames.assign( 1, p.anames[i%p.anames.size()]); } ee.push_back(e); }
	noteCase( c, d, base, enc::UTF8); if (c.verbose()) c.note( pbt::str(n)+" variations of these, seed "+pbt::str(seed)); c.key( keyCase(d,base)+pbt::str(n)+" "+pbt::str(seed));
	Result exp=expected( d, ee, 20000000);
	std::unique_ptr<Atm> atm( make(enc::UTF8)); for (const Expr& e: ee) atm->add( e, 0); std::unique_ptr<Sel> s( atm->sel()); Result got=run( *s, enc::UTF8, d); std::string df=diff( d, got, exp); CHECK( df.empty(), df);
	size_t sel=0; for (auto& x: exp) sel+=x.size(); if (sel>=20) c.nontrivial();
}
// more states than fit in small numbers, the ones defined late are the ones selecting
LAW(many_states, 48, 1500, "more than 32768 states, or more than 256")
{
	static const unsigned L[]={80,300,300,9000,9000,12000}; unsigned n=c.of(L)+c.draw(20), depth=2+c.draw(3); bool attr=c.flip(), follow=c.flip(); Doc d; auto nm=[]( const char* s, unsigned i){ return enc::u32( s+pbt::str(i)); };
	auto open=[&]( int parent, const U32& w){ Node e; e.parent=parent; e.name=w; e.open=d.add( SB::OpenTag, w); e.close=-1; d.nodes.push_back(e); return (int)d.nodes.size()-1; };
	auto close=[&]( int i){ d.nodes[i].close=d.add( SB::CloseTag, d.nodes[i].name); };
	int r=open( 0, enc::u32("r")); unsigned k=3+c.draw(6);
	for (unsigned i=0;i<k;++i) { unsigned x=c.chance(1,3)?c.draw(n):n-1-c.draw(4); int e=open( r, nm("x",x)); std::vector<int> st( 1, e); for (unsigned j=0;j<depth;++j) { st.push_back( open( st.back(), nm("y",j))); if (attr) { Attr a; a.owner=st.back(); a.name=enc::u32("u"); a.value=nm("v",i); a.ntime=d.add( SB::TagAttribName, a.name); a.vtime=d.add( SB::TagAttribValue, a.value); d.attrs.push_back(a); } } Text t; t.owner=st.back(); t.time=d.add( SB::Content, U32(1,'t')); d.texts.push_back(t); while (!st.empty()) { close( st.back()); st.pop_back(); } }
	close( r); d.add( SB::Exit, U32()); unsigned mix=c.draw(4);
	std::vector<Expr> ee; for (unsigned i=0;i<n;++i) { Expr e; Step s; s.names.assign( 1, enc::u32("r")); e.steps.push_back(s); s.follow=follow&&i%9==4&&n<1000; s.names[0]=nm("x",i); e.steps.push_back(s); s.follow=false; unsigned q=depth-(i+mix)%2; for (unsigned j=0;j<q;++j) { s.names[0]=nm("y",j); e.steps.push_back(s); } e.type=(int)i+1; if (attr&&(i+mix)%3==0) { e.out=AttrValue; e.onames.push_back( enc::u32("u")); } else if ((i+mix)%3==1) e.out=Content; ee.push_back(e); }
	if (c.verbose()) c.note( pbt::str(n)+" expressions like "+showExpr(ee.back())+", document: "+showDoc(d)); c.key( showDoc(d)+pbt::str(n)+pbt::str(mix)); c.nontrivial(); c.label( pbt::str(n/1000)+"000 expressions");
	Result exp=expected( d, ee, 400000000); std::unique_ptr<Atm> atm( make(enc::UTF8)); for (const Expr& e: ee) atm->add( e, 0);
	std::unique_ptr<Sel> s( atm->sel()); Result got=run( *s, enc::UTF8, d); std::string df=diff( d, got, exp); CHECK( df.empty(), df);
}
