// X03: non-interference: what an expression selects is the same alone, in any company and order, on copied and interleaved selectors, and however results are read
#include "pathlib.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <deque>
using namespace xp;
PROPERTY(X03)

template <typename E> struct DequeStack :public std::deque<E> { DequeStack(){} DequeStack( const DequeStack& o):std::deque<E>(o){} DequeStack& operator=( const DequeStack& o){ std::deque<E>::operator=(o); return *this; } };
typedef AtmT<tw::charset::UTF8,tw::XMLPathSelectAutomaton<tw::charset::UTF8>,tw::XMLPathSelect<tw::charset::UTF8> > A8;
typedef AtmT<tw::charset::UTF8,tw::XMLPathSelectAutomaton<tw::charset::UTF8>,tw::XMLPathSelect<tw::charset::UTF8,DequeStack> > A8D;
static const int CS=enc::UTF8;
static Atm* make( bool deque){ if (deque) return new A8D(CS); return new A8(CS); }

static void gen( pbt::Ctx& c, Doc& d, std::vector<Expr>& ee, unsigned minexpr, unsigned maxexpr)
{
	Pool p=genPool( c, c.chance(3,4)); genDoc( c, d, p, 20); do { pbt::Ctx::SpanGuard g(c); Expr e; std::vector<Expr> n=genExprs( c, p, d, maxexpr, ExprOpt(), false); ee.insert( ee.end(), n.begin(), n.end()); } while (ee.size()<minexpr);
	for (size_t i=0;i<ee.size();++i) ee[i].type=i+1;
	expected( d, ee);   // discards what explodes
}
static Result only( const Result& r, int type){ Result o(r.size()); for (size_t i=0;i<r.size();++i) for (int t: r[i]) if (t==type) o[i].push_back(t); return o; }

LAW(company_and_order, 200000, 3000000, "at least two expressions of the set select something")
{
	Doc d; std::vector<Expr> ee; gen( c, d, ee, 2, 6); noteCase( c, d, ee, CS); c.key( keyCase(d,ee));
	std::vector<Result> alone; unsigned sel=0;
	for (const Expr& e: ee) { A8 a(CS); a.add( e, 0); std::unique_ptr<Sel> s( a.sel()); alone.push_back( run( *s, CS, d)); sel+=total( alone.back())>0; }
	for (int r=0;r<3;++r)
	{
		std::vector<size_t> ord; for (size_t i=0;i<ee.size();++i) ord.push_back(i); if (r) for (size_t i=ord.size();i>1;--i) std::swap( ord[i-1], ord[c.draw(i)]);
		size_t n= r<2?ord.size():1+c.draw(ord.size()); std::string on; for (size_t i=0;i<n;++i) on+=" "+pbt::str(ord[i]+1);
		std::unique_ptr<Atm> a( make( c.chance(1,4))); for (size_t i=0;i<n;++i) a->add( ee[ord[i]], c.chance(1,4)?c.draw(4):0);
		std::unique_ptr<Sel> s( a->sel()); Result all=run( *s, CS, d);
		for (size_t i=0;i<n;++i) { std::string df=diff( d, only( all, ee[ord[i]].type), alone[ord[i]], "together selected", "alone"); CHECK( df.empty(), "defined in order" << on << ": expression " << ord[i]+1 << " " << showExpr(ee[ord[i]]) << " " << df); }
		size_t t=0; for (size_t i=0;i<n;++i) t+=total( alone[ord[i]]); CHECK( total(all)==t, "defined in order" << on << ": " << total(all) << " results instead of " << t);
	}
	if (sel>=2) c.nontrivial();
}
// several selectors on one automaton, working on different documents in an arbitrary interleaving, copied and assigned at any moment
LAW(interleaved_selectors, 120000, 1500000, "at least two selectors select something, or a selector was copied inside of a document")
{
	Pool p=genPool( c, c.chance(3,4)); unsigned nd=1+c.draw(3); std::vector<Doc> docs( nd); for (Doc& d: docs) genDoc( c, d, p, 14);
	std::vector<Expr> ee; for (Doc& d: docs) { std::vector<Expr> n=genExprs( c, p, d, 3, ExprOpt(), true); ee.insert( ee.end(), n.begin(), n.end()); }
	for (Doc& d: docs) expected( d, ee);
	std::string k; for (Doc& d: docs) { c.note( "document: "+showDoc(d)); k+=showDoc(d)+"\n"; } for (Expr& e: ee) { c.note( "expression: "+showExpr(e)); k+=showExpr(e)+"\n"; }
	std::unique_ptr<Atm> a( make( c.chance(1,4))); for (Expr& e: ee) a->add( e, 0);
	std::vector<Result> exp; unsigned live=0; for (Doc& d: docs) { std::unique_ptr<Sel> s( a->sel()); exp.push_back( run( *s, CS, d)); live+=total(exp.back())>0; }
	struct Job { std::unique_ptr<Sel> s; size_t doc, at; }; std::vector<Job> js; bool copied=false;
	for (size_t i=0;i<nd;++i) { Job j; j.s.reset( a->sel()); j.doc=i; j.at=0; js.push_back( std::move(j)); }
	while (!js.empty())
	{
		pbt::Ctx::SpanGuard g(c); size_t i=c.draw( js.size()); Job& j=js[i];
		switch (c.pick({12,1,1,1}))
		{
			case 1: if (js.size()<6) { Job n; n.s.reset( j.s->clone()); n.doc=j.doc; n.at=j.at; copied|=j.at>0; c.note( "copy selector "+pbt::str(i)+" at element "+pbt::str(j.at)); js.push_back( std::move(n)); } continue;
			case 2: { size_t f=c.draw( js.size()); js[i].s->assign( *js[f].s); js[i].doc=js[f].doc; js[i].at=js[f].at; copied|=f!=i&&js[f].at>0; c.note( "assign selector "+pbt::str(f)+" to "+pbt::str(i)); continue; }
			case 3: { std::unique_ptr<Sel> n( j.s->clone()); j.s=std::move(n); copied|=j.at>0; c.note( "replace selector "+pbt::str(i)+" by its copy at element "+pbt::str(j.at)); break; }
			default: break;
		}
		unsigned steps=1+c.draw(4);
		while (steps-- && j.at<docs[j.doc].ev.size())
		{
			const Ev& e=docs[j.doc].ev[j.at]; std::vector<int> out; j.s->push( e.type, evKey(CS,e.key), ReadAll, out); std::sort( out.begin(), out.end());
			CHECK( out==exp[j.doc][j.at], "selector " << i << " on document " << j.doc+1 << " at element " << j.at << " " << SB::getElementTypeName((SB::ElementType)e.type) << " '" << enc::show(e.key,60) << "': selected " << showTypes(out) << " instead of " << showTypes(exp[j.doc][j.at]));
			++j.at;
		}
		if (j.at>=docs[j.doc].ev.size()) js.erase( js.begin()+i);
	}
	c.key(k+(copied?"c":"")); if (copied) c.label("copied in the middle"); if (live>1) c.label("several selecting"); if (live>1 || (copied&&live)) c.nontrivial();
}
LAW(reading_of_results, 200000, 3000000, "results of an element were read only partly or through copies of the iterator before other results follow")
{
	Doc d; std::vector<Expr> ee; gen( c, d, ee, 1, 6); if (c.chance(1,2)) for (Expr& e: ee) e.type=1+c.draw(3); noteCase( c, d, ee, CS);
	std::unique_ptr<Atm> a( make( c.chance(1,4))); for (Expr& e: ee) a->add( e, 0);
	std::unique_ptr<Sel> ref( a->sel()), s( a->sel()); bool partial=false, after=false; std::string modes;
	for (size_t i=0;i<d.ev.size();++i)
	{
		std::vector<int> exp, out; std::string key=evKey( CS, d.ev[i].key); ref->push( d.ev[i].type, key, ReadAll, exp);
		int mode=c.pick({4,2,2,1,1,1}); modes+=(char)('0'+mode); s->push( d.ev[i].type, key, mode, out); if (partial && !exp.empty()) after=true;
		bool full=mode!=ReadNone&&mode!=ReadFirst; if (mode!=ReadAll) partial=true;
		static const char* mn[]={"iterated","with post increment","not read","first only","through copies","compared with =="};
		std::vector<int> want=exp; if (mode==ReadNone) want.clear(); if (mode==ReadFirst && want.size()>1) want.resize(1);
		if (full) { std::sort( out.begin(), out.end()); std::sort( want.begin(), want.end()); } else if (mode==ReadFirst && !out.empty() && std::find( exp.begin(), exp.end(), out[0])!=exp.end()) want=out;
		CHECK( out==want, "element " << i << " " << SB::getElementTypeName((SB::ElementType)d.ev[i].type) << " (" << mn[mode] << "): " << showTypes(out) << " instead of " << showTypes(want) << ", reading of the elements: " << modes);
	}
	c.key( keyCase(d,ee)+modes); c.note( "reading: "+modes); if (after) c.nontrivial();
}
// copies of automatons: by construction or assignment over other expressions, extended on both sides, outliving the original, with selectors on each
LAW(automaton_copies, 50000, 2000000, "an automaton copied or assigned over another selects something afterwards")
{
	typedef tw::XMLPathSelectAutomatonParser<tw::charset::UTF16LE,tw::charset::UTF8> A; typedef tw::XMLPathSelect<tw::charset::UTF8> S;
	Pool p=genPool( c, c.chance(3,4)); Doc d; genDoc( c, d, p, 14); struct One { std::unique_ptr<A> a; std::vector<Expr> ee; bool copied; }; std::vector<One> as; unsigned n=2+c.draw(10); std::string k=showDoc(d)+"\n"; bool sel=false; c.note( "document: "+showDoc(d));
	auto fresh=[&](){ One o; o.a.reset( new A()); o.copied=false; as.push_back( std::move(o)); }; fresh(); int type=0;
	auto check=[&]( One& o){ Result exp=expected( d, o.ee); SelT<S> s( o.a.get(), 0); Result r=run( s, CS, d); std::string df=diff( d, r, exp); CHECK( df.empty(), df); if (o.copied && total(r)) sel=true; };
	while (n--)
	{
		pbt::Ctx::SpanGuard g(c); size_t i=c.draw( as.size()), j=c.draw( as.size()); std::string op;
		switch (c.pick({5,2,3,1,2,1}))
		{
			case 0: { std::vector<Expr> ee=genExprs( c, p, d, 3, ExprOpt(), true); for (Expr& e: ee) { e.type=++type; as[i].ee.push_back( e); compose( *as[i].a, CS, e, 0); op+=" "+showExpr(e); } op="define in "+pbt::str(i)+op; break; }
			case 1: { One o; o.a.reset( new A( *as[i].a)); o.ee=as[i].ee; o.copied=true; as.push_back( std::move(o)); op="copy "+pbt::str(i); break; }
			case 2: *as[i].a=*as[j].a; as[i].ee=as[j].ee; as[i].copied|=i!=j; op="assign "+pbt::str(j)+" to "+pbt::str(i); break;
			case 3: if (as.size()>1) { as.erase( as.begin()+i); op="destroy "+pbt::str(i); } break;
			case 4: check( as[i]); op="use "+pbt::str(i); break;
			default: fresh(); op="new";
		}
		c.note( op); k+=op+"\n";
	}
	for (One& o: as) check( o);
	c.key( k); if (sel) c.nontrivial();
}
