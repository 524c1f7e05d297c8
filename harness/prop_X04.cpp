// X04: what the inspecting functions of selector and automaton (getTokenTypeMatchingStates, getEmmitedTokens) announce is what the next elements select
#include "pathlib.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <set>
using namespace xp;
PROPERTY(X04)

typedef std::set<int> Set;
static std::string showSet( const Set& s){ return showTypes( std::vector<int>( s.begin(), s.end())); }
template <class S> static void push( S& s, int type, const std::string& key, Set* out=0){ typename S::iterator it=s.push( (SB::ElementType)type, key.data(), (int)key.size()), end=s.end(); for (;it!=end;++it) if (out) out->insert( *it); }
template <class A, class B> static Set announced( const A& a, const B& states, int e){ Set r; for (auto st: states) { std::vector<int> b; a.getEmmitedTokens( (unsigned int)st, (SB::ElementType)e, b); r.insert( b.begin(), b.end()); } return r; }

template <class CS> static void look( pbt::Ctx& c, int cs)
{
	typedef tw::XMLPathSelectAutomaton<CS> A; typedef tw::XMLPathSelect<CS> S;
	Pool p=genPool( c, c.chance(3,4)); Doc d; genDoc( c, d, p, 16); ExprOpt o; o.alt=true; std::vector<Expr> ee=genExprs( c, p, d, 6, o, false); std::set<int> trig; for (size_t i=0;i<ee.size();++i) { ee[i].type=i+1; if (ee[i].out==Trigger) trig.insert( i+1); }
	// outputs active in all descendants and counted ones are not announced by the state before
	bool follow=false; for (Expr& e: ee) { e.range=NoRange; e.more.clear(); if (e.out==Content) e.ofollow=false; if (c.chance(1,3)) { for (Step& s: e.steps) s.follow=false; e.ofollow=false; } for (Step& s: e.steps) follow|=s.follow; follow|=e.ofollow; }
	expected( d, ee); noteCase( c, d, ee, cs); c.key( keyCase( d, ee)); A a; for (Expr& e: ee) compose( a, cs, e, 0);
	std::set<U32> names, anames, values; names.insert( enc::u32("zz")); anames.insert( enc::u32("zz")); values.insert( enc::u32("zz")); 
	for (const Expr& e: ee) { for (const Step& s: e.steps) { (s.kind==Tag?names:anames).insert( s.names.begin(), s.names.end()); if (s.kind==Cond&&!s.anyval) values.insert( s.value); } anames.insert( e.onames.begin(), e.onames.end()); }
	for (const Node& n: d.nodes) if (!n.name.empty()) names.insert( n.name); for (const Attr& x: d.attrs) anames.insert( x.name);
	S s( &a); unsigned found=0, checked=0;
	for (size_t i=0;i<d.ev.size() && checked<24;++i)
	{
		int t=d.ev[i].type; push( s, t, evKey( cs, d.ev[i].key));
		if (t!=SB::OpenTag && t!=SB::TagAttribName) continue;
		++checked;
		struct Q { int first, second; const std::set<U32>* keys; };
		const Q q[]={{SB::OpenTag,SB::Content,&names},{SB::TagAttribName,SB::TagAttribValue,&anames},{SB::TagAttribValue,SB::Content,&values}};
		for (int k=t==SB::OpenTag?0:2;k<(t==SB::OpenTag?2:3);++k)
		{
			std::vector<int> all, own; std::vector<int> prev( 1, -7); S cp( s);
			cp.getTokenTypeMatchingStates( (SB::ElementType)q[k].first, true, all); cp.getTokenTypeMatchingStates( (SB::ElementType)q[k].first, false, own);
			s.getTokenTypeMatchingStates( (SB::ElementType)q[k].first, true, prev); CHECK( prev.size()==all.size()+1 && prev[0]==-7 && std::equal( all.begin(), all.end(), prev.begin()+1), "the states are not appended, or not the same in a copy");
			std::sort( own.begin(), own.end()); std::sort( all.begin(), all.end()); CHECK( std::includes( all.begin(), all.end(), own.begin(), own.end()), "with the states of descendants there are others without them");
			if (!follow) CHECK( own.size()==all.size(), "states of descendants where no expression has any");
			Set ann=announced( a, all, q[k].second), sel;
			for (const U32& key: *q[k].keys) { S n( s); push( n, q[k].first, evKey( cs, key)); Set r; push( n, q[k].second, evKey( cs, enc::u32("x")), &r); sel.insert( r.begin(), r.end()); }
			for (int x: trig) sel.erase( x);   // selected by the match itself, not by an element behind it
			CHECK( std::includes( sel.begin(), sel.end(), ann.begin(), ann.end()), "after element " << i << " " << SB::getElementTypeName((SB::ElementType)t) << " '" << enc::show( d.ev[i].key, 60) << "': a " << SB::getElementTypeName((SB::ElementType)q[k].first) << " is announced to select " << showSet(ann) << " at " << SB::getElementTypeName((SB::ElementType)q[k].second) << " but selects " << showSet(sel));
			if (k<2) CHECK( ann==sel, "after element " << i << " " << SB::getElementTypeName((SB::ElementType)t) << " '" << enc::show( d.ev[i].key, 60) << "': a " << SB::getElementTypeName((SB::ElementType)q[k].first) << " selects " << showSet(sel) << " at " << SB::getElementTypeName((SB::ElementType)q[k].second) << " but is announced to select " << showSet(ann));
			if (!ann.empty()) ++found;
		}
	}
	if (found) c.nontrivial(); if (follow) c.label("descendants");
}
LAW(next_elements, 150000, 3000000, "results are announced for at least one element")
{
	switch (c.pick({4,1,1,1})) { case 0: look<tw::charset::UTF8>( c, enc::UTF8); break; case 1: look<tw::charset::UTF16LE>( c, enc::UTF16LE); break; case 2: look<tw::charset::UCS4BE>( c, enc::UCS4BE); break; default: look<tw::charset::IsoLatin>( c, enc::LATIN); }
}
