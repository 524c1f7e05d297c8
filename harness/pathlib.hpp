// Documents as event sequences, path expressions as trees, and the reference model of what an expression selects.
// The model evaluates expressions on the document tree (contexts = (node, time)); it shares nothing with the token machine of the library.
#ifndef PATHLIB_HPP
#define PATHLIB_HPP
#include "enc.hpp"
#include "textwolf.hpp"
#include <memory>
#include <algorithm>

namespace xp {
namespace tw = textwolf;
typedef enc::U32 U32;
typedef tw::XMLScannerBase SB;

// ---------------------------------------------------------------- documents
struct Ev { int type; U32 key; };
struct Node { int parent; U32 name; int open, close; };
struct Attr { int owner; U32 name, value; int ntime, vtime; };
struct Text { int owner; int time; };
struct Doc
{
	std::vector<Ev> ev; std::vector<Node> nodes; std::vector<Attr> attrs; std::vector<Text> texts;   // node 0 is the document
	int hs, he; int depth;
	Doc():hs(-1),he(-1),depth(0){ Node d; d.parent=-1; d.open=-1; d.close=1<<30; nodes.push_back(d); }
	int add( int type, const U32& key){ Ev e; e.type=type; e.key=key; ev.push_back(e); return (int)ev.size()-1; }
	bool below( int d, int n) const { return d>0 && (n==0 || (nodes[n].open<nodes[d].open && nodes[d].open<nodes[n].close)); }   // after the document is complete
};
struct Pool { std::vector<U32> names, anames, values; };

inline U32 genName( pbt::Ctx& c, bool plain)
{
	static const uint32_t odd[]={'-','.','_',':','0','9',0xe4,0xfc,0x12a,0x12f,0x140,0x15b,0x22a,0x4e2a,0x20ac,0x2f40,0x1f600,0x3a3a,0x3a00,0x2a2a};
	U32 n; n.push_back( 'a'+c.draw(4)); if (plain) return n;
	unsigned k=c.draw(4); for (unsigned i=0;i<k;++i) n.push_back( c.chance(1,2)?c.of(odd):(uint32_t)('a'+c.draw(26)));
	for (size_t i=1;i<n.size();++i) if (n[i]==':'&&n[i-1]==':') n[i]='b';
	return n;
}
inline U32 genValue( pbt::Ctx& c)
{
	U32 v;
	switch (c.pick({6,2,3,2,1}))
	{
		case 0: v.push_back('1'+c.draw(3)); break;
		case 1: break;
		case 2: { static const char* w[]={"a b","x","AT&T"," 1","1 ","<x>","it's","a=\"b\"","x/y","1-2","[1]","a;b","&&","#65;","a,b","?!","a\tb"}; v=enc::u32(c.of(w)); break; }
		case 3: v=genName(c,false); break;
		default: { unsigned l=1000+c.draw(120); if (c.chance(1,3)) l*=3; for (unsigned i=0;i<l;++i) v.push_back('a'+i%7); v.push_back('1'+c.draw(2)); }
	}
	return v;
}
inline Pool genPool( pbt::Ctx& c, bool plain)
{
	Pool p; unsigned n=1+c.draw(3); for (unsigned i=0;i<n;++i) { U32 w=genName(c,plain); w[0]='a'+i; p.names.push_back(w); }
	n=1+c.draw(3); for (unsigned i=0;i<n;++i) { U32 w=genName(c,plain); w[0]='u'+i; p.anames.push_back(w); }
	if (c.chance(1,6)) p.anames.push_back( p.names[0]);
	n=1+c.draw(3); for (unsigned i=0;i<n;++i) p.values.push_back( genValue(c));
	if (c.chance(1,14)) // long names that differ only in what follows a common start
	{
		static const unsigned L[]={3,7,8,14,15,16,20,31,32,33,63,64,127,128,254,255,256,300,1023}; U32 stem; unsigned l=c.of(L); for (unsigned i=0;i<l;++i) stem.push_back( 'a'+i%5);
		for (U32& w: p.names) w.insert( w.begin(), stem.begin(), stem.end()); for (U32& w: p.anames) w.insert( w.begin(), stem.begin(), stem.end());
		if (c.flip()) for (U32& w: p.values) if (w.size()<100) w.insert( w.begin(), stem.begin(), stem.end());
	}
	return p;
}
inline void genAttrs( pbt::Ctx& c, Doc& d, const Pool& p, int owner, int tn, int tv)
{
	unsigned n=c.pick({4,4,2,1,1});
	for (unsigned i=0;i<n;++i) { pbt::Ctx::SpanGuard g(c); Attr a; a.owner=owner; a.name=c.of(p.anames); a.value=c.of(p.values); a.ntime=d.add(tn,a.name); a.vtime=d.add(tv,a.value); d.attrs.push_back(a); }
}
inline void genElement( pbt::Ctx& c, Doc& d, const Pool& p, int parent, int depth, unsigned& budget)
{
	pbt::Ctx::SpanGuard g(c);
	Node n; n.parent=parent; n.name=c.of(p.names); n.open=d.add( SB::OpenTag, n.name); n.close=-1; int id=d.nodes.size(); d.nodes.push_back(n); d.depth=std::max(d.depth,depth);
	genAttrs( c, d, p, id, SB::TagAttribName, SB::TagAttribValue);
	if (c.chance(1,5)) { d.nodes[id].close=d.add( SB::CloseTagIm, U32()); return; }
	unsigned k=c.pick({3,3,3,2,1,1}); bool text=false;
	if (budget>=8 && c.chance(1,60)) // many elements in a row, or one in the other
	{
		static const unsigned L[]={16,17,33,65,70,129,130,257,258,300}; unsigned m=c.of(L); budget=0;
		if (c.flip()) for (unsigned i=0;i<m;++i) { bool own=(i&3)!=3; int ow=id; Node e; e.parent=id; e.name=p.names[i%p.names.size()]; if (own) { e.open=d.add( SB::OpenTag, e.name); e.close=-1; ow=d.nodes.size(); d.nodes.push_back(e); } Text t; t.owner=ow; t.time=d.add( SB::Content, U32(1,'0'+i%10)); d.texts.push_back(t); if (own) { d.nodes[ow].close=d.add( SB::CloseTag, e.name); } else { Node q; q.parent=id; q.name=e.name; q.open=d.add( SB::OpenTag, q.name); q.close=d.add( SB::CloseTagIm, U32()); d.nodes.push_back(q); } }
		else
		{
			std::vector<int> st; int par=id; bool one=c.flip();
			for (unsigned i=0;i<m;++i) { Node e; e.parent=par; e.name=one&&i+2<m?p.names[0]:p.names[i%p.names.size()]; e.open=d.add( SB::OpenTag, e.name); e.close=-1; par=d.nodes.size(); st.push_back(par); d.nodes.push_back(e); if (i%16==0) genAttrs( c, d, p, par, SB::TagAttribName, SB::TagAttribValue); d.depth=std::max(d.depth,depth+1+(int)i); }
			Text t; t.owner=par; t.time=d.add( SB::Content, U32(1,'y')); d.texts.push_back(t);
			while (!st.empty()) { d.nodes[st.back()].close=d.add( SB::CloseTag, d.nodes[st.back()].name); st.pop_back(); }
		}
	}
	if (depth<4 && c.chance(1,3)) ++k;
	for (unsigned i=0;i<k;++i)
	{
		if (!text && c.chance(2,5)) { Text t; t.owner=id; t.time=d.add( SB::Content, c.chance(1,8)?c.of(p.values):U32(1,'0'+c.draw(10))); if (d.ev.back().key.empty()) d.ev.back().key.push_back('t'); d.texts.push_back(t); text=true; }
		else if (budget>0 && depth<10) { --budget; genElement( c, d, p, id, depth+1, budget); text=false; }
	}
	d.nodes[id].close=d.add( SB::CloseTag, d.nodes[id].name);
}
inline void genDoc( pbt::Ctx& c, Doc& d, const Pool& p, unsigned maxnodes)
{
	if (c.chance(1,2)) { d.hs=d.add( SB::HeaderStart, enc::u32("?xml")); genAttrs( c, d, p, 0, SB::HeaderAttribName, SB::HeaderAttribValue); d.he=d.add( SB::HeaderEnd, U32()); }
	if (c.chance(1,8)) { d.add( SB::DocAttribValue, enc::u32("DOCTYPE")); d.add( SB::DocAttribValue, c.of(p.names)); d.add( SB::DocAttribEnd, U32()); }
	unsigned budget=1+c.size(maxnodes); unsigned roots=c.chance(1,10)?2+c.draw(2):1;
	for (unsigned i=0;i<roots;++i) genElement( c, d, p, 0, 1, budget);
	d.add( SB::Exit, U32());
}
// the document as text
inline void esc( U32& o, const U32& s, uint32_t q){ for (uint32_t ch: s) { if (ch=='&') enc::cat(o,"&amp;"); else if (ch=='<') enc::cat(o,"&lt;"); else if (q && ch==q) enc::cat(o,q=='"'?"&quot;":"&apos;"); else o.push_back(ch); } }
inline U32 render( const Doc& d)
{
	U32 o; bool open=false, dtd=false;
	for (size_t i=0;i<d.ev.size();++i)
	{
		const Ev& e=d.ev[i];
		bool attr=e.type==SB::TagAttribName||e.type==SB::TagAttribValue;
		if (open && !attr && e.type!=SB::CloseTagIm) { o.push_back('>'); open=false; }
		switch (e.type)
		{
			case SB::HeaderStart: enc::cat(o,"<?xml"); break;
			case SB::HeaderAttribName: case SB::TagAttribName: o.push_back(' '); enc::cat(o,e.key); o.push_back('='); break;
			case SB::HeaderAttribValue: case SB::TagAttribValue: { uint32_t q=(i&1)?'"':'\''; o.push_back(q); esc(o,e.key,q); o.push_back(q); break; }
			case SB::HeaderEnd: enc::cat(o,"?>\n"); break;
			case SB::DocAttribValue: enc::cat(o,dtd?" ":"<!"); enc::cat(o,e.key); dtd=true; break;
			case SB::DocAttribEnd: enc::cat(o,">\n"); break;
			case SB::OpenTag: o.push_back('<'); enc::cat(o,e.key); open=true; break;
			case SB::CloseTagIm: enc::cat(o,"/>"); open=false; break;
			case SB::CloseTag: enc::cat(o,"</"); enc::cat(o,e.key); o.push_back('>'); break;
			case SB::Content: esc(o,e.key,0); break;
		}
	}
	return o;
}
inline std::string showDoc( const Doc& d){ return enc::show( render(d), 3000); }

// ---------------------------------------------------------------- expressions
enum StepKind {Tag,Cond,AttrCtx};
struct Step { int kind; bool follow, any; std::vector<U32> names; bool anyval; U32 value; Step():kind(Tag),follow(false),any(false),anyval(false){} };
enum OutKind {Trigger,AttrValue,Content,Close};
enum RangeKind {NoRange,To,From,FromTo,Index};
struct Rng { int kind, r1, r2; };
struct Expr
{
	std::vector<Step> steps; int out; bool ofollow, oany; std::vector<U32> onames; int range, r1, r2; unsigned rangepos; int type; std::vector<Rng> more;   // more: further ranges, all of them restrict
	Expr():out(Trigger),ofollow(false),oany(false),range(NoRange),r1(0),r2(0),rangepos(0),type(1){}
};
struct ExprOpt { bool text; bool alt; ExprOpt():text(false),alt(false){} };   // text: expressible in the textual syntax

inline U32 pickName( pbt::Ctx& c, const std::vector<U32>& v){ return c.of(v); }
inline Expr genExpr( pbt::Ctx& c, const Pool& p, const Doc& d, const ExprOpt& o)
{
	Expr e;
	std::vector<int> path;   // follow a path of the document in most cases
	if (c.chance(3,4)) { int n=1+c.draw(d.nodes.size()-1); while (n>0) { path.insert( path.begin(), n); n=d.nodes[n].parent; } }
	else { unsigned k=c.draw(4); while (k--) path.push_back( 1+c.draw(d.nodes.size()-1)); }
	unsigned lists=0; bool pending=false, big=false, longp=path.size()>6 && c.flip(); size_t maxsteps=longp?60:6;   // long paths are without descendant steps behind the first, because of the number of ways to match
	for (size_t i=0;i<path.size();++i)
	{
		pbt::Ctx::SpanGuard g(c);
		bool last=i+1==path.size();
		if (e.steps.size()>=maxsteps || (!longp && !last && c.chance(1,5))) { pending=true; continue; }
		Step s; s.follow=pending||((!longp||i==0) && c.chance(1,6)); pending=false; s.any=c.chance(1,5); 
		if (!s.any) { s.names.push_back( d.nodes[path[i]].name); if (o.alt && (!longp || lists<3) && c.chance(1,6))
			{
				++lists; bool many=!big && c.chance(1,12); unsigned k=many?12+c.draw(40):1+c.draw(2); big|=many;
				if (many) { unsigned at=c.draw(k); U32 own=s.names[0]; s.names.clear(); for (unsigned j=0;j<k;++j) { U32 nm=own; if (j!=at) nm=c.chance(1,4)?U32(c.of(p.names)):genName(c,true); s.names.push_back( nm); } }
				else while (k--) s.names.push_back( c.chance(3,4)?c.of(p.names):genName(c,true));
			} }
		e.steps.push_back(s);
		if (c.chance(1,5))
		{
			Step a; a.kind=Cond; a.follow=!longp&&c.chance(1,5); a.any=!o.text&&c.chance(1,5); a.anyval=!o.text&&c.chance(1,4);
			std::vector<const Attr*> own; for (const Attr& x: d.attrs) if (x.owner==path[i]) own.push_back(&x);
			const Attr* w= own.empty()||c.chance(1,4)?0:c.of(own);
			if (!a.any) a.names.push_back( w?w->name:c.of(p.anames));
			if (!a.anyval) a.value= w?w->value:c.of(p.values);
			e.steps.push_back(a);
			if (c.chance(1,5)) { a.names.clear(); a.any=false; a.names.push_back( c.of(p.anames)); a.anyval=false; a.value=c.of(p.values); a.follow=false; e.steps.push_back(a); }
		}
	}
	bool follow=pending||c.chance(1,5);
	switch (c.pick({4,4,4,2}))
	{
		case 0: e.out=Trigger; if (e.steps.empty() || pending) { e.out=AttrValue; e.onames.push_back( c.of(p.anames)); e.ofollow=follow; } break;
		case 1: e.out=AttrValue; e.ofollow=follow; e.oany=c.chance(1,5); if (!e.oany) { e.onames.push_back( c.of(p.anames)); if (o.alt && c.chance(1,6)) e.onames.push_back( c.of(p.anames)); } break;
		case 2:
			if (!o.text && c.chance(1,6)) { Step s; s.kind=AttrCtx; s.follow=c.chance(1,3); s.any=c.chance(1,5); if (!s.any) s.names.push_back( c.of(p.anames)); e.steps.push_back(s); }
			e.out=Content; e.ofollow=follow; e.range=c.pick({6,o.text?0u:1u,1,1,1}); e.r1=c.draw(5); e.r2=c.draw(5); if (d.texts.size()>10 && c.flip()) { e.r1=c.draw( d.texts.size()+2); e.r2=c.flip()?(int)c.draw( d.texts.size()+2):e.r1+(int)c.draw(20); } else if (c.chance(1,20)) { static const int R[]={65535,65536,65537,255,256,32767,32768,99999999,1000000}; e.r2=c.of(R); } if (e.range==FromTo && c.chance(2,3) && e.r2<e.r1) std::swap(e.r1,e.r2); e.rangepos=c.draw(3); if (!o.text && e.range==FromTo && c.chance(1,8)) e.r2=-1; if (e.range && c.chance(1,4)) { unsigned k=1+c.draw(2); while (k--) { Rng x={(int)c.range(o.text?2:1,4),(int)c.draw(6),(int)c.draw(6)}; if (x.kind==FromTo) { if (!o.text && c.chance(1,8)) x.r2=-1; else if (x.r2<x.r1 && c.chance(2,3)) std::swap( x.r1, x.r2); } e.more.push_back(x); } } break;
		default: e.out=Close; e.ofollow=!o.text&&follow; if (e.steps.empty() || (o.text&&pending)) { e.out=Content; e.ofollow=true; }
	}
	return e;
}
inline std::vector<Rng> ranges( const Expr& e){ std::vector<Rng> r; if (e.range) { Rng x={e.range,e.r1,e.r2}; r.push_back(x); } r.insert( r.end(), e.more.begin(), e.more.end()); return r; }
inline std::string showExpr( const Expr& e)
{
	std::ostringstream o; o << "(*atm)";
	auto nm=[&]( bool any, const std::vector<U32>& n){ std::string r; if (any) return std::string("0"); for (size_t i=0;i<n.size();++i) r+=(i?"|\"":"\"")+enc::show(n[i],60)+"\""; return r; };
	for (const Step& s: e.steps)
	{
		if (s.follow) o << "--";
		if (s.kind==Tag) o << "[" << nm(s.any,s.names) << "]";
		else if (s.kind==Cond) o << "(" << nm(s.any,s.names) << "," << (s.anyval?std::string("0"):"\""+enc::show(s.value,60)+"\"") << ")";
		else o << "(" << nm(s.any,s.names) << ")";
	}
	if (e.ofollow) o << "--";
	if (e.out==AttrValue) o << "(" << nm(e.oany,e.onames) << ")"; else if (e.out==Content) o << "()"; else if (e.out==Close) o << ".selectCloseTag()";
	for (const Rng& x: ranges(e)) switch (x.kind) { case To: o << ".TO(" << x.r1 << ")"; break; case From: o << ".FROM(" << x.r1 << ")"; break; case FromTo: o << ".RANGE(" << x.r1 << "," << x.r2 << ")"; break; case Index: o << ".INDEX(" << x.r1 << ")"; break; }
	o << "=" << e.type; return o.str();
}

// ---------------------------------------------------------------- reference model
typedef std::vector<std::vector<int> > Result;   // per event the sorted types selected
inline bool hit( bool any, const std::vector<U32>& names, const U32& n, unsigned& ways){ if (any) { ways=1; return true; } ways=0; for (const U32& x: names) if (x==n) ++ways; return ways>0; }
// 'cost': the contexts kept over all expressions; far too many of them (descendants of descendants in deep documents) are outside of what is explored
inline void select( const Doc& d, const Expr& e, Result& r, size_t& cost, size_t limit=400000, size_t ctxlimit=4000)
{
	typedef std::pair<int,int> C; std::vector<C> ctx( 1, C(0,-1)); unsigned w;
	for (const Step& s: e.steps)
	{
		std::vector<C> nx;
		for (const C& x: ctx)
		{
			if (s.kind==Tag)
			{
				for (size_t i=1;i<d.nodes.size();++i) { const Node& n=d.nodes[i]; if (n.open>x.second && (s.follow?d.below(i,x.first):n.parent==x.first) && hit(s.any,s.names,n.name,w)) while (w--) nx.push_back( C(i,n.open)); }
			}
			else for (const Attr& a: d.attrs) if (a.ntime>x.second && (a.owner==x.first || (s.follow && d.below(a.owner,x.first))) && hit(s.any,s.names,a.name,w))
			{
				if (s.kind==AttrCtx) while (w--) nx.push_back( C(a.owner,a.ntime));
				else if (s.anyval || s.value==a.value) while (w--) nx.push_back( C(a.owner,a.vtime));
			}
		}
		ctx.swap(nx);
		if (ctx.size()>ctxlimit) throw pbt::Discard();
		if (e.out!=Trigger || &s!=&e.steps.back()) { cost+=ctx.size(); if (cost*d.ev.size()>limit) throw pbt::Discard(); }
	}
	for (const C& x: ctx)
	{
		if (e.out==Trigger) { if (x.second>=0) r[x.second].push_back( e.type); }
		else if (e.out==AttrValue) { for (const Attr& a: d.attrs) if (a.ntime>x.second && (a.owner==x.first || (e.ofollow && d.below(a.owner,x.first))) && hit(e.oany,e.onames,a.name,w)) while (w--) r[a.vtime].push_back( e.type); }
		else if (e.out==Content)
		{
			long lo=0,hi=1L<<40; for (const Rng& x: ranges(e)) { long l=x.kind==To?0:x.r1, h=x.kind==From||(x.kind==FromTo&&x.r2<0)?1L<<40:x.kind==FromTo?(long)x.r2+1:(long)x.r1+1; lo=std::max(lo,l); hi=std::min(hi,h); }
			int k=0; for (const Text& t: d.texts) if (t.time>x.second && (t.owner==x.first || (e.ofollow && d.below(t.owner,x.first)))) { if (k>=lo && k<hi) r[t.time].push_back( e.type); ++k; }
		}
		else
		{
			for (size_t i=1;i<d.nodes.size();++i) { const Node& n=d.nodes[i]; if (n.close>x.second && ((int)i==x.first || (e.ofollow && d.below(i,x.first)))) r[n.close].push_back( e.type); }
			if (x.first==0 && d.he>x.second) r[d.he].push_back( e.type);
		}
	}
}
inline Result expected( const Doc& d, const std::vector<Expr>& ee, size_t limit=400000, size_t ctxlimit=4000){ Result r( d.ev.size()); size_t cost=0; for (const Expr& e: ee) select( d, e, r, cost, limit, ctxlimit); for (auto& x: r) std::sort( x.begin(), x.end()); return r; }
inline size_t total( const Result& r){ size_t n=0; for (auto& x: r) n+=x.size(); return n; }

// ---------------------------------------------------------------- the library, type erased
// key of the automaton: in its encoding, '&' and (by choice) other characters as numeric entities
inline std::string keyOf( int cs, const U32& s, unsigned refs)
{
	U32 o; unsigned i=0;
	for (uint32_t ch: s) { ++i; if (ch=='&' || !enc::representable(cs,1,ch) || (refs && (i*7+refs)%3==0)) { char b[32]; if ((i+refs)&1) std::snprintf(b,sizeof b,"&#x%x;",ch); else std::snprintf(b,sizeof b,"&#%u;",ch); enc::cat(o,b); } else o.push_back(ch); }
	o.push_back(0); std::string r; for (uint32_t ch: o) { if (ch) enc::put(cs,1,ch,r); else r.append( enc::unitSize(cs), '\0'); } return r;
}
inline std::string evKey( int cs, const U32& s){ return enc::encodeOrRef(cs,1,s); }

enum Read {ReadAll,ReadPost,ReadNone,ReadFirst,ReadCopy,ReadEndCmp};
struct Sel { virtual ~Sel(){} virtual void push( int type, const std::string& key, int mode, std::vector<int>& out)=0; virtual Sel* clone() const=0; virtual void assign( const Sel& o)=0; };
template <class S> struct SelT :Sel
{
	S s; unsigned nr; explicit SelT( const S& o):s(o),nr(0){} template <class A> SelT( const A* a, int):s(a),nr(0){}
	Sel* clone() const { return new SelT(*this); }
	void assign( const Sel& o){ s=static_cast<const SelT&>(o).s; }
	void push( int type, const std::string& key, int mode, std::vector<int>& out)
	{
		// key in memory of exact size, gone when the results have been read
		std::unique_ptr<char[]> k( new char[key.size()?key.size():1]); memcpy( k.get(), key.data(), key.size());
		typename S::iterator it=nr++%3==0?s.push( (SB::ElementType)type, key):s.push( (SB::ElementType)type, k.get(), (int)key.size()), end=s.end();
		switch (mode)
		{
			case ReadPost: for (;it!=end;it++) out.push_back(*it); break;
			case ReadNone: break;
			case ReadFirst: if (it!=end) out.push_back(*it); break;
			case ReadCopy: { std::vector<typename S::iterator> cp; for (;;) { cp.push_back(it); typename S::iterator n(it); if (n==end) break; out.push_back(*n); ++n; it=n; } break; }
			case ReadEndCmp: for (;!(it==end);++it) out.push_back( *it.operator->()); break;
			default: for (;it!=end;++it) out.push_back(*it);
		}
	}
};
struct Atm { virtual ~Atm(){} virtual void add( const Expr& e, unsigned refs)=0; virtual int addText( int type, const std::string& src)=0; virtual Sel* sel() const=0; virtual int cs() const=0; };

template <class P> inline void setRanges( P& p, const Expr& e){ for (const Rng& x: ranges(e)) switch (x.kind) { case To: p.TO(x.r1); break; case From: p.FROM(x.r1); break; case FromTo: p.RANGE(x.r1,x.r2); break; case Index: p.INDEX(x.r1); break; } }
template <class A> inline void compose( A& atm, int cs, const Expr& e, unsigned refs)
{
	// alternatives: all combinations
	std::vector<size_t> sizes, at; for (const Step& s: e.steps) sizes.push_back( s.any?1:s.names.size()); sizes.push_back( e.out==AttrValue&&!e.oany?e.onames.size():1); at.assign( sizes.size(), 0);
	for (;;)
	{
		typename A::PathElement p=*atm; unsigned step=0;
		auto range=[&]( unsigned where){ if (where!=(e.rangepos?e.steps.size():0)) return; setRanges( p, e); };
		bool alt=(refs&1)!=0;
		for (const Step& s: e.steps)
		{
			if (e.rangepos<2) range(step);
			if (s.follow) { if (alt) p.forAllDescendants(); else p--; }
			std::string k; const char* n=0; if (!s.any) { k=keyOf(cs,s.names[at[step]],refs); n=k.c_str(); }
			if (s.kind==Tag) { if (alt) p.selectTag(n); else p[n]; }
			else if (s.kind==AttrCtx) { if (alt) p.selectAttribute(n); else p(n); }
			else { std::string vk; const char* v=0; if (!s.anyval) { vk=keyOf(cs,s.value,refs); v=vk.c_str(); } if (alt) p.ifAttribute(n,v); else p(n,v); }
			++step;
		}
		if (e.rangepos<2) range(step);
		if (e.ofollow) { if (alt) p--; else p.forAllDescendants(); }
		if (e.out==AttrValue) { std::string k; const char* n=0; if (!e.oany) { k=keyOf(cs,e.onames[at[step]],refs); n=k.c_str(); } if (alt) p(n); else p.selectAttribute(n); }
		else if (e.out==Content) { if (alt) p.selectContent(); else p(); }
		else if (e.out==Close) p.selectCloseTag();
		if (e.rangepos>=2) setRanges( p, e);
		if (alt) p.assignType( e.type); else p=e.type;
		size_t i=0; while (i<at.size() && ++at[i]==sizes[i]) at[i++]=0;
		if (i==at.size()) break;
	}
}
template <class CS, class A, class S> struct AtmT :Atm
{
	A a; int c; explicit AtmT( int cs_):c(cs_){}
	void add( const Expr& e, unsigned refs){ compose( a, c, e, refs); }
	int addText( int, const std::string&){ return -1; }
	Sel* sel() const { return new SelT<S>( &a, 0); }
	int cs() const { return c; }
};
inline Result run( const Sel& s0, int cs, const Doc& d){ std::unique_ptr<Sel> s( s0.clone()); Result r( d.ev.size()); for (size_t i=0;i<d.ev.size();++i) { s->push( d.ev[i].type, evKey(cs,d.ev[i].key), ReadAll, r[i]); std::sort( r[i].begin(), r[i].end()); } return r; }
inline std::string showTypes( const std::vector<int>& v){ std::string o="{"; for (size_t i=0;i<v.size();++i) o+=(i?",":"")+pbt::str(v[i]); return o+"}"; }
inline std::string diff( const Doc& d, const Result& got, const Result& exp, const char* gn="selected", const char* en="expected")
{
	for (size_t i=0;i<exp.size();++i) if (got[i]!=exp[i]) return "at event "+pbt::str(i)+" "+SB::getElementTypeName((SB::ElementType)d.ev[i].type)+" '"+enc::show(d.ev[i].key,80)+"': "+gn+" "+showTypes(got[i])+", "+en+" "+showTypes(exp[i]);
	return "";
}
inline void noteCase( pbt::Ctx& c, const Doc& d, const std::vector<Expr>& ee, int cs)
{
	if (!c.verbose()) return;
	c.note( std::string("encoding ")+enc::csName(cs)); c.note( "document: "+showDoc(d)); for (const Expr& e: ee) c.note( "expression: "+showExpr(e));
}
inline std::string keyCase( const Doc& d, const std::vector<Expr>& ee){ std::string k=showDoc(d); for (const Expr& e: ee) k+="\n"+showExpr(e); return k; }
inline std::vector<Expr> genExprs( pbt::Ctx& c, const Pool& p, const Doc& d, unsigned max, const ExprOpt& o, bool samet)
{
	std::vector<Expr> ee; unsigned n=1+c.draw(max); if (max>1 && c.chance(1,60)) { static const unsigned L[]={9,16,17,32,33,40,64,66}; n=c.of(L); }
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); Expr e;
		if (i && c.chance(1,4)) { e=ee[c.draw(i)]; if (c.chance(1,2)) { Expr f=genExpr(c,p,d,o); e.out=f.out; e.ofollow=f.ofollow; e.oany=f.oany; e.onames=f.onames; e.range=f.range; e.r1=f.r1; e.r2=f.r2; e.rangepos=f.rangepos; e.more=f.more; if (e.steps.empty() && (e.out==Trigger||e.out==Close)) e=f; if (!e.steps.empty() && e.steps.back().kind==AttrCtx && e.out!=Content) e.steps.pop_back(); if (e.steps.empty() && e.out!=AttrValue) { e.out=Content; e.ofollow=true; } } }
		else e=genExpr(c,p,d,o);
		static const int odd[]={-1,2147483647,-2147483647-1,65536,256};
		e.type=samet&&i&&c.chance(1,8)?ee[c.draw(i)].type:c.chance(1,20)?c.of(odd):(int)i+1;
		ee.push_back(e);
	}
	return ee;
}
}//namespace
#endif
