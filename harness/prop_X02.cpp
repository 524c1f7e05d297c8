// X02: textual path expressions against the reference model and against the composed expression; refusal of malformed ones
#include "pathlib.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
using namespace xp;
PROPERTY(X02)

template <class SRC, class CS> struct ParserAtm :Atm
{
	typedef tw::XMLPathSelectAutomatonParser<SRC,CS> A; typedef tw::XMLPathSelect<CS> S;
	A a; int c; explicit ParserAtm( int cs_):c(cs_){}
	void add( const Expr& e, unsigned refs){ compose( a, c, e, refs); }
	int addText( int type, const std::string& src){ std::unique_ptr<char[]> m( new char[src.size()?src.size():1]); memcpy( m.get(), src.data(), src.size()); return a.addExpression( type, m.get(), src.size()); }
	Sel* sel() const { return new SelT<S>( &a, 0); }
	int cs() const { return c; }
};
template <class CS> static Atm* mk( int src, int cs)
{
	switch (src)
	{
		case enc::LATIN: return new ParserAtm<tw::charset::IsoLatin,CS>(cs);
		case enc::UTF16LE: return new ParserAtm<tw::charset::UTF16LE,CS>(cs);
		case enc::UCS4BE: return new ParserAtm<tw::charset::UCS4BE,CS>(cs);
		default: return new ParserAtm<tw::charset::UTF8,CS>(cs);
	}
}
static Atm* make( int src, int cs)
{
	switch (cs)
	{
		case enc::LATIN: return mk<tw::charset::IsoLatin>(src,cs);
		case enc::UTF16BE: return mk<tw::charset::UTF16BE>(src,cs);
		case enc::UCS4LE: return mk<tw::charset::UCS4LE>(src,cs);
		default: return mk<tw::charset::UTF8>(src,enc::UTF8);
	}
}
static int genCs( pbt::Ctx& c){ static const int t[]={enc::UTF8,enc::LATIN,enc::UTF16BE,enc::UCS4LE}; return t[c.pick({6,1,1,1})]; }
static int genSrc( pbt::Ctx& c){ static const int t[]={enc::UTF8,enc::LATIN,enc::UTF16LE,enc::UCS4BE}; return t[c.pick({6,1,1,1})]; }

static bool unquotable( const U32& v){ if (v.empty()) return false; for (uint32_t ch: v) if (ch<33||ch==127||(ch<128&&std::strchr("*~/(){}[]@,;&<=>!?'\"",(char)ch))) return false; return true; }
static bool textable( const U32& s, int src){ for (size_t i=0;i<s.size();++i) if (!enc::representable(src,1,s[i])||(i&&s[i]==':'&&s[i-1]==':')) return false; return true; }
static bool hasBoth( const U32& v){ return std::find(v.begin(),v.end(),(uint32_t)'\'')!=v.end()&&std::find(v.begin(),v.end(),(uint32_t)'"')!=v.end(); }
static bool textable( const Expr& e, int src)
{
	for (const Step& s: e.steps) { for (const U32& n: s.names) if (!textable(n,src)||!unquotable(n)) return false; if (s.kind==Cond&&(!textable(s.value,src)||hasBoth(s.value))) return false; }
	for (const U32& n: e.onames) if (!textable(n,src)||!unquotable(n)) return false;
	return true;
}
static void sp( pbt::Ctx& c, U32& o, bool spaces){ if (spaces) { unsigned k=c.pick({3,2,1}); while (k--) o.push_back(' '); } }
static void names( pbt::Ctx& c, U32& o, bool any, const std::vector<U32>& n, bool spaces)
{
	if (any) { o.push_back('*'); return; }
	if (n.size()==1 && !c.chance(1,20)) { enc::cat( o, n[0]); return; }
	o.push_back('{'); for (size_t i=0;i<n.size();++i) { if (i) o.push_back(','); sp(c,o,spaces); enc::cat(o,n[i]); sp(c,o,spaces); } o.push_back('}');
}
static void number( U32& o, int n){ enc::cat( o, pbt::str(n).c_str()); }
static void range( pbt::Ctx& c, U32& o, const Expr& e, bool spaces)
{
	for (const Rng& x: ranges(e))
	{
		o.push_back('['); sp(c,o,spaces); if (c.chance(1,12)) o.push_back('0'); number(o,x.r1); sp(c,o,spaces);
		if (x.kind!=Index) { o.push_back(','); sp(c,o,spaces); if (x.kind==FromTo) { number(o,x.r2); sp(c,o,spaces); } }
		o.push_back(']'); sp(c,o,spaces);
	}
}
static U32 text( pbt::Ctx& c, const Expr& e, bool spaces)
{
	U32 o; bool slash=false;   // the text ends with '/' or '//'
	for (size_t i=0;i<e.steps.size();++i)
	{
		const Step& s=e.steps[i];
		if (s.kind==Tag) { if (s.follow) { enc::cat(o,"//"); sp(c,o,spaces); } else if (i||c.flip()) { o.push_back('/'); sp(c,o,spaces); } names( c, o, s.any, s.names, spaces); sp(c,o,spaces); }
		else
		{
			if (s.follow) { enc::cat(o,"//"); sp(c,o,spaces); } else if (c.chance(1,4)) { o.push_back('/'); sp(c,o,spaces); }
			o.push_back('['); sp(c,o,spaces); o.push_back('@'); sp(c,o,spaces); enc::cat(o,s.names[0]); sp(c,o,spaces); o.push_back('='); sp(c,o,spaces);
			bool sq=std::find(s.value.begin(),s.value.end(),(uint32_t)'\'')==s.value.end(), dq=std::find(s.value.begin(),s.value.end(),(uint32_t)'"')==s.value.end();
			if (unquotable(s.value) && c.chance(1,3)) enc::cat(o,s.value); else { uint32_t q=sq&&(!dq||c.flip())?'\'':'"'; o.push_back(q); enc::cat(o,s.value); o.push_back(q); }
			sp(c,o,spaces); o.push_back(']'); sp(c,o,spaces);
		}
	}
	if (e.out==Content && !e.steps.empty() && (!e.ofollow||c.flip())) { range(c,o,e,spaces); if (e.ofollow) { enc::cat(o,"//"); sp(c,o,spaces); } else if (c.chance(1,4)) { o.push_back('/'); sp(c,o,spaces); } }
	else { if (e.ofollow) { enc::cat(o,"//"); sp(c,o,spaces); } else if (e.out!=Trigger&&e.out!=Close&&c.chance(1,4)) { o.push_back('/'); sp(c,o,spaces); } if (e.out==Content) range(c,o,e,spaces); }
	switch (e.out)
	{
		case AttrValue: o.push_back('@'); sp(c,o,spaces); names( c, o, e.oany, e.onames, spaces); break;
		case Content: o.push_back('('); sp(c,o,spaces); o.push_back(')'); break;
		case Close: o.push_back('~'); break;
	}
	sp(c,o,spaces); return o;
}
static const ExprOpt& textOpt(){ static ExprOpt o; o.text=true; o.alt=true; return o; }
static void gen( pbt::Ctx& c, Doc& d, std::vector<Expr>& ee, int& src, int& cs, unsigned max)
{
	Pool p=genPool( c, c.chance(1,3)); genDoc( c, d, p, 16); src=genSrc(c); cs=genCs(c); ee=genExprs( c, p, d, max, textOpt(), true);
	std::vector<Expr> ok; for (Expr& e: ee) { if (e.range==To) e.range=Index; if (e.rangepos>1) e.rangepos=1; if (!e.rangepos) e.rangepos=1; if (textable(e,src)) ok.push_back(e); } ee.swap(ok); if (ee.empty()) throw pbt::Discard();
}
static void noteText( pbt::Ctx& c, const U32& t, int src, int type){ c.note( std::string("text (")+enc::csName(src)+"): "+enc::show(t,2000)+" = "+pbt::str(type)); }

LAW(text_equals_composed, 160000, 6000000, "the expressions select at least one event of the document")
{
	Doc d; std::vector<Expr> ee; int src,cs; gen( c, d, ee, src, cs, 4); noteCase( c, d, ee, cs); Result exp=expected( d, ee); std::string k=keyCase(d,ee);
	std::unique_ptr<Atm> a( make(src,cs)), b( make(src,cs)); bool spaces=c.flip();
	for (const Expr& e: ee)
	{
		U32 t=text( c, e, spaces); noteText( c, t, src, e.type); k+=enc::show(t,3000); std::string bytes=enc::encode(src,1,t); int rt=a->addText( e.type, bytes);
		CHECK( rt==0, "well-formed expression '" << enc::show(t) << "' (" << enc::csName(src) << ") refused at position " << rt);
		b->add( e, c.chance(1,3)?c.draw(4):0);
	}
	std::unique_ptr<Sel> sa( a->sel()), sb( b->sel()); Result ra=run( *sa, cs, d), rb=run( *sb, cs, d);
	std::string df=diff( d, ra, rb, "parsed selects", "composed"); CHECK( df.empty(), df); df=diff( d, ra, exp, "parsed selects", "expected"); CHECK( df.empty(), df);
	c.key(k+enc::csName(src)+enc::csName(cs)); if (total(exp)) c.nontrivial();
	c.label( std::string("source ")+enc::csName(src)); c.label( std::string("automaton ")+enc::csName(cs)); if (spaces) c.label("blanks");
}
// the text with a defect that no reading of the syntax allows
static U32 malformed( pbt::Ctx& c, const Expr& e, bool spaces, std::string& what)
{
	Expr h=e; h.out=Trigger; h.ofollow=false; h.range=NoRange; h.more.clear(); U32 o=text( c, h, spaces); bool named=!h.steps.empty();
	static const char* tailNamed[]={"b c","]",")","}","{b}","{b","(","(x)","(,)","()b","()/b","()()","()~","~b","~~","~/b","@","/","//","[1]/","[1]//","@x/b","@x()","@x@y","@x~","@x[1]","@x[@y='1']","@/b","@[1]","@@x","@()","[","[]","[@","[@]","[@x=","[@x=]","[@x='1'","[@x='1","[@x=\"1","[@x=1","[@x='1' ","[@x=='1']","[@='1']","[@x,'1']","[1","[1,","[1,2","[1,2,3]","[1,2 3]","[-1]","[1,-1]","[x]","[1x]","[1 2]","[,1]","[,]","[123456789]","[1,123456789]","[999999999999999999999]","=b","<b","&b","!b","?b",";",",b",",","'b'","\"b\"","/b::c","/{b","/{b,","/{b,}","/{}","/{b c}","/{,b}","/{b;c}","/b]","/**","/b*","/*b","/*{b}","///b","/ /b","/)","@{}","@{b","@{b,}","@*b","@**","@b{c}","@{b}c","()]","()[1]","(/)","[@x='1']b","[1]b","[1](","[1]@","[1]]","[@x='1']]"};
	static const char* tailStart[]={"]",")","}","{","{}","{b","{b,","{b c}","(","(x)","()b","()()","//","@","@/b","@@x","@()","@x()","@x/b","[","[]","[@","[@x=","[@x='1'","[x]","[1","[1,","[-1]","=b","<b","&b","!b","?",";",",","'b'","\"b","a b","a]","::","a::b","child::a","///b","/ /b","**","*a","a*","~a","~~"};
	const char* t;
	if (named && e.out!=AttrValue && c.chance(4,5)) { t=c.of( tailNamed); }
	else if (!named) t=c.of( tailStart);
	else { t=c.of( tailNamed); }
	what=t; enc::cat( o, t);
	return o;
}
LAW(malformed_refused, 120000, 4000000, "the valid expressions before and after the malformed one select something")
{
	Doc d; std::vector<Expr> ee; int src,cs; gen( c, d, ee, src, cs, 3); noteCase( c, d, ee, cs); expected( d, ee); std::string k=keyCase(d,ee);
	std::unique_ptr<Atm> a( make(src,cs)); unsigned at=c.draw( ee.size()+1); bool spaces=c.chance(1,3); std::vector<Expr> before( ee.begin(), ee.begin()+at);
	for (size_t i=0;i<=ee.size();++i)
	{
		if (i==at)
		{
			unsigned n=1+c.draw(2);
			while (n--)
			{
				std::string what; Expr base=ee[c.draw(ee.size())]; if (c.chance(1,6)) base.steps.clear(); U32 m=malformed( c, base, spaces, what); std::string bytes=enc::encode(src,1,m); c.note( "malformed ("+std::string(enc::csName(src))+"): "+enc::show(m,2000)); k+="\nX"+enc::show(m,2000);
				int rt=a->addText( 7777, bytes); CHECK( rt!=0, "malformed expression '" << enc::show(m) << "' accepted"); CHECK( rt>0 && (size_t)rt<=bytes.size()+1, "position " << rt << " reported for the malformed expression '" << enc::show(m) << "' of " << bytes.size() << " bytes"); c.label( "tail "+what);
				std::unique_ptr<Sel> s( a->sel()); Result r=run( *s, cs, d); std::string df=diff( d, r, expected( d, before)); CHECK( df.empty(), "after refusing '" << enc::show(m) << "' " << df);
			}
		}
		if (i<ee.size()) { U32 t=text( c, ee[i], spaces); noteText( c, t, src, ee[i].type); int rt=a->addText( ee[i].type, enc::encode(src,1,t)); CHECK( rt==0, "well-formed expression '" << enc::show(t) << "' refused at " << rt); }
	}
	std::unique_ptr<Sel> s( a->sel()); Result r=run( *s, cs, d), exp=expected( d, ee); std::string df=diff( d, r, exp); CHECK( df.empty(), "with malformed expressions in between " << df);
	c.key(k+enc::csName(src)+enc::csName(cs)); if (total(exp)) c.nontrivial();
}
// the abbreviated syntax: items (separator, name, condition, range, attribute, content, close) and their order
struct Grammar
{
	const U32& t; size_t i; explicit Grammar( const U32& t_):t(t_),i(0){}
	uint32_t at() const { return i<t.size()?t[i]:0; }
	void sp(){ while (at()==' ') ++i; }
	bool eat( uint32_t ch){ if (at()!=ch) return false; ++i; return true; }
	static bool idc( uint32_t ch){ return ch>127 || (ch>32 && ch<127 && !std::strchr("*~/(){}[]@,;&<=>!?'\"",(char)ch)); }
	bool ident(){ size_t b=i; while (i<t.size() && idc(t[i])) ++i; return i>b; }
	bool num(){ size_t b=i; while (at()>='0'&&at()<='9') ++i; return i>b && i-b<=8; }
	bool namesel(){ if (eat('*')) return true; if (!eat('{')) return ident(); for (;;) { sp(); if (!ident()) return false; sp(); if (eat(',')) continue; return eat('}'); } }
	bool bracket()
	{
		sp();
		if (eat('@')) { sp(); if (!ident()) return false; sp(); if (!eat('=')) return false; sp(); if (at()=='\''||at()=='"') { uint32_t q=at(); ++i; while (i<t.size()&&at()!=q) ++i; if (!eat(q)) return false; } else if (!ident()) return false; sp(); return eat(']'); }
		if (!num()) return false; sp(); if (eat(']')) return true; if (!eat(',')) return false; sp(); if (eat(']')) return true; if (!num()) return false; sp(); return eat(']');
	}
	bool wellformed()
	{
		for (size_t k=1;k<t.size();++k) if (t[k]==':'&&t[k-1]==':') return false;
		char last='^'; bool open=false;   // last item: ^ none, / separator, n name, [ bracket, . end
		while (i<t.size())
		{
			uint32_t ch=at(); if (last=='.') return false;
			if (ch=='/') { if (last=='/') return false; open=last!='^'; ++i; if (eat('/')) open=true; last='/'; }
			else if (ch=='[') { ++i; if (!bracket()) return false; last='['; open=false; }
			else if (ch=='@') { ++i; sp(); if (!namesel()) return false; last='.'; open=false; }
			else if (ch=='(') { ++i; sp(); if (!eat(')')) return false; last='.'; open=false; }
			else if (ch=='~') { if (last=='/') return false; ++i; last='.'; open=false; }
			else { if (last!='^'&&last!='/') return false; if (!namesel()) return false; last='n'; open=false; }
			sp();
		}
		return !open;
	}
};
// arbitrary text: either refused with a position inside or accepted, never anything else, and never with an effect when refused
LAW(arbitrary_text, 60000, 3000000, "the text is refused and other expressions select something, or it is accepted and selects something")
{
	Pool p=genPool( c, true); Doc d; genDoc( c, d, p, 6); int src=genSrc(c), cs=genCs(c); ExprOpt o; std::vector<Expr> ee=genExprs( c, p, d, 2, o, false); std::unique_ptr<Atm> a( make(src,cs)); for (Expr& e: ee) a->add( e, 0); noteCase( c, d, ee, cs);
	static const char* tok[]={"a","b","u","v","/","//","@","*","[","]","(",")","{","}",",","~","1","2","'","\"","=","'1'","[@u='1']","()"," ",":","-","&",";","x"}; U32 t; unsigned n=c.size(14); for (unsigned i=0;i<n;++i) enc::cat( t, c.of(tok)); if (c.chance(1,10)) t.push_back( 0x12a+c.draw(2)*0x500); if (!enc::allRepresentable(src,1,t)) throw pbt::Discard();
	std::string bytes=enc::encode(src,1,t); bool cut=c.chance(1,10) && bytes.size(); if (cut) bytes.resize( bytes.size()-1);   // the position of a character cut off is behind the text
	c.note( "text ("+std::string(enc::csName(src))+"): "+enc::show(t)); c.key( keyCase(d,ee)+enc::show(t)+enc::csName(src)+enc::csName(cs)); int rt=-1; bool thrown=false;
	try { rt=a->addText( 7777, bytes); } catch (const tw::exception&) { thrown=true; }
	CHECK( !thrown, "exception thrown for '" << enc::show(t) << "'");
	if (!cut && (t.empty()||t[0]!=' ')) { bool ok=Grammar(t).wellformed(); CHECK( ok==(rt==0), (ok?"well-formed":"malformed") << " expression '" << enc::show(t) << "' " << (rt?"refused at "+pbt::str(rt):std::string("accepted"))); }
	CHECK( rt>=0 && (size_t)rt<=bytes.size()+(cut?6:1), "position " << rt << " reported for '" << enc::show(t) << "' of " << bytes.size() << " bytes");
	std::unique_ptr<Sel> s( a->sel()); Result r=run( *s, cs, d), exp=expected( d, ee); size_t other=0;
	for (auto& x: r) { std::vector<int> y; for (int v: x) { if (v==7777) ++other; else y.push_back(v); } x.swap(y); }
	CHECK( rt==0 || other==0, "the refused expression '" << enc::show(t) << "' selects"); std::string df=diff( d, r, exp); CHECK( df.empty(), "after '" << enc::show(t) << "' " << df);
	c.label( rt?"refused":"accepted"); if ((rt && total(exp)) || other) c.nontrivial();
}
