// T01: separate objects of the library used in different threads at the same time, under the thread sanitizer
#include "scancheck.hpp"
#include "printlib.hpp"
#include "pathlib.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include <thread>
#include <atomic>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
using namespace enc;
namespace tw=textwolf;
PROPERTY(T01)

extern "C" const char* __tsan_default_options(){ return "halt_on_error=1:exitcode=97:report_signal_unsafe=0:atexit_sleep_ms=0:history_size=2"; }

typedef std::function<std::string()> Fn;
struct Job { Fn fn; std::string what; };

static std::string digest( const sl::Result& r){ std::ostringstream o; for (auto& e: r.ev) o << e.type << ':' << pbt::quote(e.value,100000) << '@' << e.tokpos << ',' << e.pos << '!' << e.err << e.errtext << '\n'; o << r.cause << r.endless; return o.str(); }
static std::string digest( const xp::Result& r){ std::ostringstream o; for (auto& e: r) o << xp::showTypes(e); return o.str(); }

static Job scanJob( pbt::Ctx& c, const sl::Entities& ents)
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); bool chunked=c.chance(1,4); if (chunked) cfg.src=sl::CHUNKED; else sc::genSource( c, cfg);
	bool well; std::string bytes=sc::genInput( c, cfg.in, cfg.page, well); if (cfg.src==sl::CHARPTR && (!well || bytes.find('\0')!=std::string::npos)) cfg.src=sl::CSTRING; if (c.flip()) { doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.maxElems=4; o.entities=true; bytes=encode( cfg.in, cfg.page, doc::generate(c,o).text); }
	cfg.ents=&ents; cfg.stepLimit=bytes.size()*8+2000; std::vector<size_t> cuts; if (chunked) cuts=sc::genCuts( c, bytes.size()); size_t lim=bytes.size()*4+100;
	Job j; j.what="scan "+cfg.show()+" "+pbt::quote(bytes,1500); if (chunked) cfg.iter=cfg.vec=false;
	j.fn=[=]()->std::string { return digest( chunked?sl::scanChunked( cfg, bytes, cuts, false, 1, 0, lim):sl::scanAll( cfg, bytes, 1, 0, lim)); };
	return j;
}
static Job printJob( pbt::Ctx& c)
{
	int io=c.draw(NofCs), page=io==LATIN?c.range(1,9):1, app=c.draw(NofCs), buf=c.draw(4); bool sub=c.flip(); struct O { int k; std::string v; }; std::vector<O> ops; unsigned n=1+c.size(20); std::string log;
	for (unsigned i=0;i<n;++i)
	{
		O o; o.k=c.pick({4,3,4,3,1,1}); U32 t; unsigned l=1+c.draw(o.k==2?12:3); while (l--) { uint32_t ch=o.k==2&&c.chance(1,3)?(uint32_t)"<>&\"'\n\r\t"[c.draw(8)]:c.chance(1,4)?cl::genChar(c,app,1):'a'+c.draw(26); t.push_back( representable(app,1,ch)?ch:'x'); } o.v=encode(app,1,t); ops.push_back(o); log+=" "+pbt::str(o.k)+" "+show(t);
	}
	Job j; j.what=std::string("print ")+csName(io)+" from "+csName(app)+log;
	j.fn=[=]()->std::string
	{
		std::unique_ptr<pl::Printer> p( pl::make( io, page, app, buf, sub, 300)); std::string r; if (!sub) p->header( "UTF-8", 0);
		for (auto& o: ops) { bool ok; switch (o.k) { case 0: ok=p->open(o.v); break; case 1: ok=p->attr(o.v); break; case 2: ok=p->value(o.v); break; case 3: ok=p->close(); break; case 4: ok=p->exitTag(); break; default: { std::unique_ptr<pl::Printer> q( p->clone()); p->assign(*q); ok=true; } } r+=ok?'+':'-'; if (!ok && p->lasterror()) r+=p->lasterror(); }
		return r+p->out();
	};
	return j;
}
typedef xp::AtmT<tw::charset::UTF8,tw::XMLPathSelectAutomaton<tw::charset::UTF8>,tw::XMLPathSelect<tw::charset::UTF8> > A8;
typedef tw::XMLPathSelectAutomatonParser<tw::charset::UTF8,tw::charset::UTF8> P8;
static Job selectJob( std::shared_ptr<xp::Atm> a, std::shared_ptr<xp::Doc> d, pbt::Ctx& c)
{
	// a selector made by the thread itself, or a copy made before
	std::shared_ptr<xp::Sel> s( c.flip()?a->sel():0); Job j; j.what="select from "+xp::showDoc(*d)+(s?" by a copy":"");
	j.fn=[=]()->std::string { if (s) return digest( xp::run( *s, UTF8, *d)); std::unique_ptr<xp::Sel> n( a->sel()); return digest( xp::run( *n, UTF8, *d)); };
	return j;
}
static Job buildJob( const std::vector<xp::Expr>& ee, std::shared_ptr<xp::Doc> d, unsigned refs)
{
	Job j; j.what="build an automaton and select"; for (auto& e: ee) j.what+=" "+xp::showExpr(e);
	j.fn=[=]()->std::string { A8 a( UTF8); for (auto& e: ee) a.add( e, refs); std::unique_ptr<xp::Sel> s( a.sel()); return digest( xp::run( *s, UTF8, *d)); };
	return j;
}
static Job parseJob( pbt::Ctx& c, const xp::Pool& p, std::shared_ptr<xp::Doc> d)
{
	static const char* T[]={"//","/","//@","[@u='1']","()","[1,2]()","*","~","{a,b}","[","&amp;"}; std::vector<std::string> ts; unsigned n=1+c.draw(4); for (unsigned i=0;i<n;++i) { std::string t; unsigned k=1+c.draw(4), follow=0; while (k--) { std::string x=c.of(T); if (x[0]=='/'&&x.size()>1 && ++follow>2) x="/"; t+=x; if (c.flip()) t+=encode(UTF8,1,c.of(p.names)); } ts.push_back(t); }
	Job j; j.what="parse"; for (auto& t: ts) j.what+=" '"+t+"'";
	j.fn=[=]()->std::string { P8 a; std::string r; for (size_t i=0;i<ts.size();++i) r+=pbt::str( a.addExpression( i+1, ts[i].c_str(), ts[i].size()))+","; tw::XMLPathSelect<tw::charset::UTF8> s( &a); for (auto& e: d->ev) { std::string k=xp::evKey(UTF8,e.key); auto it=s.push( (xp::SB::ElementType)e.type, k.c_str(), k.size()), end=s.end(); std::vector<int> v; for (;it!=end;++it) v.push_back(*it); std::sort( v.begin(), v.end()); r+=xp::showTypes(v); } return r; };
	return j;
}
static Job hdrJob( pbt::Ctx& c)
{
	static const char* H[]={"<?xml version='1.0' encoding=\"UTF-8\"?>","<?xml encoding='ISO-8859-1'?>\n","<doc>","<?xml version=1?>","<?xml standalone='no'?>","x","<?xml encoding='a"}; std::string b=c.of(H); unsigned k=1+c.draw(5); bool wide=c.flip(); if (wide) { std::string w; for (char ch: b) { w+='\0'; w+=ch; } b=w; }
	Job j; j.what="header "+pbt::quote(b);
	j.fn=[=]()->std::string { tw::XmlHdrParser p; std::string r; try { for (size_t i=0;i<b.size();i+=k) { p.putInput( b.data()+i, std::min<size_t>(k,b.size()-i)); if (p.parse()) { r+="end"; break; } if (p.lasterror()) { r+=p.lasterror(); break; } } } catch (const tw::exception& e) { r+=e.what(); } if (p.encoding()) r+=p.encoding(); return r+pbt::str(p.charsConsumed()); };
	return j;
}
// operations that fail by exception, and texts of codes
static Job errJob( pbt::Ctx& c)
{
	unsigned k=c.draw(5); Job j; j.what="error "+pbt::str(k);
	j.fn=[=]()->std::string
	{
		std::string r=xp::SB::getElementTypeName( (xp::SB::ElementType)(k+2)); r+=xp::SB::getErrorString( (xp::SB::Error)(k+1));
		try { switch (k) { case 0: { tw::StaticBuffer b(3); b.at(5); break; } case 1: { tw::charset::IsoLatin l(77); break; } case 2: { tw::XMLPathSelectAutomaton<> a; (*a)["a<"]=1; break; } case 3: { tw::XMLPathSelectAutomaton<> a; (*a)["a"]("b")["c"]=1; break; } default: { tw::charset::IsoLatin x(9), y(2); r+=tw::charset::IsoLatin::is_equal(x,y)?'e':'n'; std::string s; x.print( 0x20AC, s); y.print( 0x20AC, s); r+=s; } } } catch (const tw::exception& e) { r+=e.what(); }
		return r;
	};
	return j;
}

static std::string runThreads( const std::vector<std::vector<Job> >& jobs)
{
	unsigned nt=jobs.size(); alarm(120);
	std::atomic<unsigned> ready(0); std::vector<std::vector<std::string> > got( nt); std::vector<std::thread> th;
	auto once=[]( const Job& j)->std::string { try { return j.fn(); } catch (const std::exception& e) { return std::string("exception ")+e.what(); } catch (...) { return "exception"; } };
	for (unsigned t=0;t<nt;++t) th.emplace_back( [&,t](){ ++ready; while (ready.load()<nt) std::this_thread::yield(); for (auto& j: jobs[t]) got[t].push_back( once(j)); });
	for (auto& t: th) t.join();
	alarm(0);
	for (unsigned t=0;t<nt;++t) for (size_t i=0;i<jobs[t].size();++i) { std::string r=once(jobs[t][i]); if (got[t][i]!=r) return "thread "+pbt::str(t)+" got "+pbt::quote(got[t][i],600)+" and alone "+pbt::quote(r,600)+" from: "+jobs[t][i].what; }
	return "";
}

// the first use of the library in a process, by several threads: done in a child process, as this one shall never have used it
LAW(firstuse, 400, 20000, "all threads do the same kind of work at first, so that they meet in the same first use")
{
	sl::Entities ents; ents.push_back( std::make_pair( std::string("me"), 0x263Au));
	unsigned nt=2+c.draw(3), kind=c.pick({4,4,2,2,1}); xp::Pool p=xp::genPool( c, false); std::shared_ptr<xp::Doc> d=std::make_shared<xp::Doc>(); xp::genDoc( c, *d, p, 6); std::vector<xp::Expr> ee=xp::genExprs( c, p, *d, 2, xp::ExprOpt(), true); xp::expected( *d, ee);
	std::vector<std::vector<Job> > jobs( nt); std::string k; bool same=c.flip();
	for (unsigned t=0;t<nt;++t)
	{
		pbt::Ctx::SpanGuard g(c); Job j;
		if (same && t) j=jobs[0][0]; else switch (kind) { case 0: j=scanJob(c,ents); break; case 1: j=printJob(c); break; case 2: j=buildJob( ee, d, c.draw(3)); break; case 3: j=parseJob( c, p, d); break; default: j=errJob(c); }
		k+=j.what+"\n"; c.note( "thread "+pbt::str(t)+": "+j.what); jobs[t].push_back(j);
	}
	c.key(k); int fd[2]; CHECK( pipe(fd)==0, "harness: no pipe"); fflush(stdout); fflush(stderr);
	pid_t pid=fork(); CHECK( pid>=0, "harness: no process");
	if (!pid) { close(fd[0]); dup2( fd[1], 2); std::string err=runThreads( jobs); if (!err.empty()) { err="RESULT "+err; if (write( fd[1], err.data(), err.size())) {} _exit(3); } _exit(0); }
	close(fd[1]); std::string out; char b[4096]; ssize_t n; while ((n=read(fd[0],b,sizeof b))>0) out.append(b,n); close(fd[0]); int st=0; waitpid( pid, &st, 0);
	CHECK( WIFEXITED(st) && WEXITSTATUS(st)==0, "several threads using the library first: status " << st << " " << out.substr(0,3000));
	c.nontrivial(); c.label( std::string("first use by ")+(same?"the same":"different")+" jobs of kind "+pbt::str(kind));
}

LAW(parallel, 12000, 500000, "at least two threads with different kinds of work")
{
	xp::Pool p=xp::genPool( c, c.flip()); std::vector<std::shared_ptr<xp::Doc> > docs; unsigned nd=1+c.draw(2); for (unsigned i=0;i<nd;++i) { docs.push_back( std::make_shared<xp::Doc>()); xp::genDoc( c, *docs.back(), p, 6); }
	std::vector<xp::Expr> ee=xp::genExprs( c, p, *docs[0], 3, xp::ExprOpt(), true); for (auto& d: docs) xp::expected( *d, ee); std::shared_ptr<xp::Atm> shared( new A8( UTF8)); for (auto& e: ee) shared->add( e, 0);
	sl::Entities ents; ents.push_back( std::make_pair( std::string("me"), 0x263Au)); ents.push_back( std::make_pair( std::string("x.y"), (uint32_t)'z'));
	unsigned nt=2+c.draw(3); std::vector<std::vector<Job> > jobs( nt); std::set<unsigned> kinds; std::string k; bool same=c.chance(1,4);
	for (unsigned t=0;t<nt;++t)
	{
		if (same && t) { jobs[t]=jobs[0]; c.note( "thread "+pbt::str(t)+": the same"); continue; }
		unsigned n=1+c.draw(4);
		while (n--)
		{
			pbt::Ctx::SpanGuard g(c); unsigned kind=c.pick({5,4,3,2,2,1,1}); kinds.insert(kind); Job j;
			switch (kind) { case 0: j=scanJob(c,ents); break; case 1: j=selectJob( shared, docs[c.draw(nd)], c); break; case 2: j=printJob(c); break; case 3: j=buildJob( ee, docs[c.draw(nd)], c.draw(3)); break; case 4: j=parseJob( c, p, docs[c.draw(nd)]); break; case 5: j=hdrJob(c); break; default: j=errJob(c); }
			k+=j.what+"\n"; c.note( "thread "+pbt::str(t)+": "+j.what); jobs[t].push_back(j);
		}
	}
	c.key(k); std::string err=runThreads( jobs); CHECK( err.empty(), err);
	if (kinds.size()>=2 || same) c.nontrivial(); if (same) c.label("same work in all threads"); c.label( pbt::str(nt)+" threads");
}
