#include "printlib.hpp"
using namespace enc;
PROPERTY(P01)

struct Combo { int io, app, page; };
static const Combo combos[]={{UTF8,UTF8,1},{UTF16BE,UTF8,1},{LATIN,UTF8,9},{UTF8,UTF16LE,1},{UCS4LE,UCS2BE,1},{LATIN,LATIN,1}};
static pl::Printer* make( unsigned k, bool sub)
{
	namespace tc=textwolf::charset;
	switch (k)
	{
		case 0: return pl::mk<tc::UTF8,tc::UTF8,pl::StrBuf>(1,sub,0); case 1: return pl::mk<tc::UTF16BE,tc::UTF8,pl::VecBuf>(1,sub,0); case 2: return pl::mk<tc::IsoLatin,tc::UTF8,pl::StrBuf>(9,sub,0);
		case 3: return pl::mk<tc::UTF8,tc::UTF16LE,pl::StmBuf>(1,sub,0); case 4: return pl::mk<tc::UCS4LE,tc::UCS2BE,pl::StrBuf>(1,sub,0); default: return pl::mk<tc::IsoLatin,tc::IsoLatin,pl::FixBuf>(1,sub,1<<20);
	}
}
struct Op { int kind; std::string a, b, c; bool ha, hb, hc; bool sub; Op():kind(0),ha(false),hb(false),hc(false),sub(false){} };
enum {Header,Doctype,Open,Attr,Value,Close,ExitTag,Reset};
static bool apply( pl::Printer& p, const Op& o)
{
	switch (o.kind)
	{
		case Header: return p.header( o.ha?o.a.c_str():0, o.hb?o.b.c_str():0);
		case Doctype: return p.doctype( o.a.c_str(), o.hb?o.b.c_str():0, o.hc?o.c.c_str():0);
		case Open: return p.open( o.a); case Attr: return p.attr( o.a); case Value: return p.value( o.a); case Close: return p.close(); case ExitTag: return p.exitTag();
		default: p.reset( o.sub); return true;
	}
}
// the protocol
struct Model
{
	int st; unsigned depth; bool root; std::vector<Op> accepted; bool sub0;
	bool step( const Op& o)
	{
		switch (o.kind)
		{
			case Header: if (st!=pl::Init) return false; st=pl::Content; return true;
			case Doctype: return st==pl::Content && depth==0 && !(o.hb && !o.hc);
			case Open: if (st!=pl::Content && st!=pl::TagElement) return false; st=pl::TagElement; ++depth; root=true; return true;
			case Attr: if (st!=pl::TagElement) return false; st=pl::TagAttribute; return true;
			case Value: if (st==pl::TagAttribute) { st=pl::TagElement; return true; } if (st==pl::Init) return false; st=pl::Content; return true;
			case Close: if (depth==0 || (st!=pl::TagElement && st!=pl::Content)) return false; --depth; st=pl::Content; return true;
			case ExitTag: if (st==pl::TagElement) { st=pl::Content; return true; } return st==pl::Content;
			default: st=o.sub?pl::Content:pl::Init; depth=0; root=false; return true;
		}
	}
};
static const char* opName( int k){ static const char* n[]={"printHeader","printDoctype","printOpenTag","printAttribute","printValue","printCloseTag","exitTagContext","reset"}; return n[k]; }

LAW(history, 750000, 8000000, "an operation was rejected and one accepted after it, or a printer was copied inside a tag")
{
	unsigned k=c.draw( sizeof(combos)/sizeof(combos[0])); int app=combos[k].app; c.note( std::string(csName(combos[k].io))+" from "+csName(app));
	std::vector<std::unique_ptr<pl::Printer> > v; std::vector<Model> m; v.reserve(8); m.reserve(8); std::string log=pbt::str(k); bool rejected=false, interesting=false; unsigned ntag=0;
	bool sub=c.flip(); v.emplace_back( make(k,sub)); { Model x; x.st=sub?pl::Content:pl::Init; x.depth=0; x.root=false; x.sub0=sub; m.push_back(x); }
	unsigned n=1+c.size(70);
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); size_t j=c.draw( v.size()); pl::Printer& p=*v[j]; Model& x=m[j]; Op o; o.ha=o.hb=o.hc=false; o.sub=false; std::ostringstream d; d << "#" << j << " ";
		unsigned what=c.pick({9,8,8,8,4,4,2,2,1,1});
		if (what==8)
		{
			if (v.size()<4) { v.emplace_back( p.clone()); Model y=x; m.push_back(y); d << "copy"; c.note(d.str()); if (x.depth) interesting=true;
				CHECK( v.back()->state()==v[j]->state(), "state of the copy is " << pl::stateName(v.back()->state())); const char* e1=v.back()->lasterror(), *e2=v[j]->lasterror(); CHECK( !e1==!e2 && (!e1||std::string(e1)==e2), "error text of the copy"); }
			continue;
		}
		if (what==9)
		{
			size_t f=c.draw(v.size()); p.assign( *v[f]); x=m[f]; d << "assign #" << f; c.note(d.str()); if (f!=j && x.depth) interesting=true;
			continue;
		}
		static const int K[]={Open,Value,Attr,Close,Header,ExitTag,Doctype,Reset}; o.kind=K[what];
		if (o.kind==Header) { o.ha=c.flip(); if (o.ha) o.a=c.flip()?"UTF-8":"ISO-8859-1"; o.hb=c.flip(); if (o.hb) o.b=c.flip()?"yes":"no"; }
		if (o.kind==Doctype) { o.ha=true; o.a="root"; o.hb=c.flip(); if (o.hb) o.b="public id"; o.hc=c.flip(); if (o.hc) o.c="a.dtd"; if (unitSize(app)!=1 || (x.root && x.st==pl::Content && x.depth==0)) continue; }
		if (o.kind==Open || o.kind==Attr) { std::string s; unsigned len=1+c.draw(4); if (c.chance(1,20)) len=1+c.draw(400); for (unsigned q=0;q<len;++q) s+=(char)('a'+(ntag+q)%26); ++ntag; o.ha=true; o.a=encode(app,1,u32(s)); d << opName(o.kind) << " " << s; }
		else if (o.kind==Value) { std::string s; unsigned len=c.size(20); static const char ch[]="ab<>&'\"\n\t\r =/]"; for (unsigned q=0;q<len;++q) s+=ch[c.draw(sizeof(ch)-1)]; o.ha=true; o.a=encode(app,1,u32(s)); d << "printValue " << pbt::quote(s); }
		else d << opName(o.kind);
		if (o.kind==Reset) o.sub=c.flip();
		std::string before=p.out(); int st=p.state(); Model y=x; bool want=y.step(o); bool got=apply( p, o);
		std::string after=p.out(); log+=d.str();
		d << (want?" -> accepted":" -> rejected"); c.note( d.str());
		CHECK( got==want, d.str() << " in state " << pl::stateName(x.st) << " with " << x.depth << " open tags, but the printer returns " << got);
		if (!want)
		{
			rejected=true; c.label( std::string(opName(o.kind))+" rejected"); const char* e=p.lasterror(); CHECK( e && *e, "no error text after: " << d.str() << " in state " << pl::stateName(x.st));
			CHECK( after==before, "a rejected operation printed " << pbt::quote(after.substr(before.size())) << ": " << d.str()); CHECK( p.state()==st, "a rejected operation changed the state: " << d.str());
		}
		else
		{
			if (rejected) interesting=true; CHECK( after.size()>=before.size() && after.compare(0,before.size(),before)==0, "previous output altered by " << d.str());
			if (o.kind==Reset) { CHECK( after==before, "reset printed something"); CHECK( !p.lasterror(), "error text after reset"); }
			else if (o.kind!=Value && !(o.kind==ExitTag && st==pl::Content)) CHECK( after.size()>before.size(), "nothing printed by " << d.str());
			x=y; x.accepted.push_back(o);
		}
		for (size_t q=0;q<v.size();++q) CHECK( v[q]->state()==m[q].st, "state of #" << q << " is " << pl::stateName(v[q]->state()) << " instead of " << pl::stateName(m[q].st) << " after " << d.str());
	}
	// rejected operations, copies and neighbours leave no trace: each output is the one of the accepted operations alone; then everything open can be closed
	for (size_t q=0;q<v.size();++q)
	{
		for (int rest=0;rest<2;++rest)
		{
			std::unique_ptr<pl::Printer> f( make( k, m[q].sub0)); for (auto& o: m[q].accepted) CHECK( apply( *f, o), "replay of an accepted operation fails: " << opName(o.kind));
			CHECK( f->out()==v[q]->out(), "output of #" << q << " differs from the output of the accepted operations alone: " << pbt::quote(v[q]->out()) << " and " << pbt::quote(f->out()));
			CHECK( f->state()==v[q]->state(), "state after replay");
			if (rest==0) { if (m[q].st==pl::TagAttribute) { Op o; o.kind=Value; o.ha=true; CHECK( apply(*v[q],o), "value"); m[q].step(o); m[q].accepted.push_back(o); } while (m[q].depth) { Op o; o.kind=Close; CHECK( apply(*v[q],o), "an open tag cannot be closed"); m[q].step(o); m[q].accepted.push_back(o); } CHECK( !v[q]->close(), "closing more tags than opened"); }
		}
	}
	c.key( log); if (interesting) c.nontrivial();
}

// all sequences of six operations
ENUM_LAW(sequences, 2*7*7*7*7*7*7, "an operation was rejected and one accepted after it")
{
	unsigned i=c.index(); bool sub=i%2; i/=2; std::unique_ptr<pl::Printer> p( make(0,sub)), r( make(0,sub)); Model x; x.st=sub?pl::Content:pl::Init; x.depth=0; x.root=false; x.sub0=sub; bool rejected=false;
	for (unsigned n=0;n<6;++n,i/=7)
	{
		Op o; o.kind=i%7; o.ha=o.hb=o.hc=o.sub=false; c.note( opName(o.kind));
		switch (o.kind) { case Doctype: if (x.root && x.depth==0) return; o.a="a"; break; case Open: o.a=std::string(1,(char)('a'+n)); break; case Attr: o.a="k"; break; case Value: o.a="v"; break; default: break; }
		Model y=x; bool want=y.step(o); std::string before=p->out(); bool got=apply( *p, o); CHECK( got==want, opName(o.kind) << " in state " << pl::stateName(x.st) << " with " << x.depth << " open tags is " << (got?"accepted":"rejected"));
		if (want) { x=y; CHECK( apply( *r, o), "replay"); if (rejected) c.nontrivial(); } else { rejected=true; CHECK( p->out()==before, "output of a rejected " << opName(o.kind)); CHECK( p->lasterror() && *p->lasterror(), "no error text of a rejected " << opName(o.kind)); }
		CHECK( p->state()==x.st, "state " << pl::stateName(p->state()) << " instead of " << pl::stateName(x.st) << " after " << opName(o.kind)); CHECK( p->out()==r->out(), "output differs from the one of the accepted operations alone");
	}
}
