#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <fstream>
#include <iostream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define PBT_ASAN 1
#endif

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3500:detect_container_overflow=1:max_allocation_size_mb=1500:handle_abort=1:symbolize=1:print_legend=0:print_full_thread_history=0:malloc_context_size=6";
}
extern "C" const char* __ubsan_default_options()
{
	return "print_stacktrace=0:halt_on_error=1:exitcode=99";
}

namespace pbt {

static volatile long g_blocks = 0;
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks( void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void hookMalloc( const volatile void* p, size_t){ if (p) ++g_blocks; }
static void hookFree( const volatile void* p){ if (p) --g_blocks; }
static void installHooks(){ __sanitizer_install_malloc_and_free_hooks( hookMalloc, hookFree); }
#else
static void installHooks(){}
#endif
long allocatedBlocks(){ return g_blocks; }

Suite& suite(){ static Suite s; return s; }

std::string hex( const std::string& s)
{
	static const char* H="0123456789abcdef"; std::string r;
	for (size_t i=0;i<s.size();++i){ unsigned char c=s[i]; r+=H[c>>4]; r+=H[c&15]; }
	return r;
}
std::string quote( const std::string& s, size_t max)
{
	std::string r="\"";
	for (size_t i=0;i<s.size();++i)
	{
		if (i>=max){ r+="\"...("+str(s.size())+" bytes)"; return r; }
		unsigned char c=s[i];
		if (c=='"'||c=='\\'){ r+='\\'; r+=c; }
		else if (c=='\n') r+="\\n"; else if (c=='\r') r+="\\r"; else if (c=='\t') r+="\\t";
		else if (c<32||c>126){ char b[8]; std::snprintf(b,8,"\\x%02x",c); r+=b; if (i+1<s.size() && isxdigit((unsigned char)s[i+1])) r+="\"\""; }
		else r+=c;
	}
	return r+"\"";
}

static inline uint64_t splitmix( uint64_t& s)
{
	uint64_t z=(s+=0x9E3779B97F4A7C15ull);
	z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);
}

void Ctx::reset()
{
	m_pos=0; m_bpos=0; m_spans.clear(); m_spanstk.clear(); m_nontrivial=false; m_haskey=false; m_labels.clear(); m_notes.clear();
	*m_recsize=0;
}

uint32_t Ctx::draw( uint32_t n)
{
	uint32_t v=0;
	switch (m_mode)
	{
		case Random:
			if (n==1) v=0;
			else { uint64_t r=splitmix( m_rng)>>32; v = n ? (uint32_t)((r*(uint64_t)n)>>32) : (uint32_t)r; }
			break;
		case Replay:
			v = (m_pos<m_insize)?m_in[m_pos++]:0;
			if (n && v>=n) v%=n;
			break;
		case Bytes:
		{
			if (n==1) break;
			unsigned k = (n==0||n>65536)?4:(n>256)?2:1;
			while (k--) { v<<=8; if (m_bpos<m_nbytes) v|=m_bytes[m_bpos++]; }
			if (n) v%=n;
			break;
		}
	}
	uint32_t p=*m_recsize;
	if (p>=m_recmax) throw Discard();
	m_rec[p]=v; *m_recsize=p+1;
	return v;
}

unsigned Ctx::pick( std::initializer_list<unsigned> weights)
{
	unsigned tot=0; for (unsigned w: weights) tot+=w;
	unsigned v=draw(tot), i=0;
	for (unsigned w: weights){ if (v<w) return i; v-=w; ++i; }
	return 0;
}

unsigned Ctx::size( unsigned max)
{
	if (!max) return 0;
	switch (pick({6,3,1}))
	{
		case 0: return draw( std::min(max,4u)+1);
		case 1: return draw( std::min(max,24u)+1);
		default: return draw( max+1);
	}
}
void Ctx::spanBegin(){ m_spanstk.push_back(m_spans.size()); Span s={*m_recsize,*m_recsize}; m_spans.push_back(s); }
void Ctx::spanEnd(){ m_spans[m_spanstk.back()].to=*m_recsize; m_spanstk.pop_back(); }
void Ctx::key( const std::string& k)
{
	uint64_t h=m_haskey?m_key:1469598103934665603ull;
	for (size_t i=0;i<k.size();++i){ h^=(unsigned char)k[i]; h*=1099511628211ull; }
	h^=k.size(); h*=1099511628211ull; m_key=h; m_haskey=true;
}

// ---------------------------------------------------------------- driver
static const uint32_t RECMAX=1u<<20;
struct Shared
{
	volatile uint32_t recsize;
	volatile uint32_t law;
	volatile uint32_t active;      // a case is running
	volatile uint32_t failed;
	volatile uint64_t evaluations;
	volatile uint64_t discarded;
	volatile uint32_t timedout;
	char msg[4000];
	volatile uint32_t nspans; Span spans[4096];
	uint32_t rec[RECMAX];
};

static Shared* newShared()
{
	void* p=mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	if (p==MAP_FAILED){ perror("mmap"); _exit(70); }
	return (Shared*)p;
}

static Shared* g_cur=0;
static void onVtalrm(int){ if (g_cur){ g_cur->failed=2; std::strcpy(g_cur->msg,"HANG: the case used more than the CPU limit (does not terminate)"); } _exit(98); }

static unsigned g_cpulimit=20;
static void armTimer( unsigned sec)
{
	struct itimerval t; std::memset(&t,0,sizeof t); t.it_value.tv_sec=sec; setitimer(ITIMER_VIRTUAL,&t,0);
}

static bool g_slow=false;
void moreTime( unsigned sec){ g_slow=true; if (g_cur) armTimer( sec); }

static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

enum Outcome {Ok,Failed,Discarded};

static Outcome runCase( Ctx& c, const Law& law, Shared* sh, std::string* msg)
{
	try { if (law.enumerated) c.m_index=c.draw(0); law.fn(c); return Ok; }
	catch (const Failure& f)
	{
		if (msg) *msg=f.msg;
		std::strncpy( sh->msg,f.msg.c_str(),sizeof(sh->msg)-1); sh->msg[sizeof(sh->msg)-1]=0;
		return Failed;
	}
	catch (const Discard&){ return Discarded; }
	catch (const std::exception& e)
	{
		std::string m=std::string("unexpected exception escaped: ")+e.what();
		if (msg) *msg=m;
		std::strncpy( sh->msg,m.c_str(),sizeof(sh->msg)-1); sh->msg[sizeof(sh->msg)-1]=0;
		return Failed;
	}
}

static void bind( Ctx& c, Shared* sh){ c.m_rec=sh->rec; c.m_recsize=&sh->recsize; c.m_recmax=RECMAX; }

static void jsonStr( std::string& o, const std::string& s)
{
	o+='"';
	for (size_t i=0;i<s.size();++i)
	{
		unsigned char c=s[i];
		if (c=='"'||c=='\\'){ o+='\\'; o+=c; }
		else if (c=='\n') o+="\\n";
		else if (c<32||c>126){ char b[8]; std::snprintf(b,8,"\\u%04x",c); o+=b; }
		else o+=c;
	}
	o+='"';
}

// run one list of choices in a child. Returns true if it fails; msg gets the reason; actual = canonical choices
static bool attempt( const Law& law, unsigned lawidx, const std::vector<uint32_t>& choices, Shared* sh, std::string& msg, std::vector<uint32_t>& actual, std::vector<Span>& spans, std::string* notes, double* cpu=0)
{
	sh->recsize=0; sh->failed=0; sh->msg[0]=0; sh->nspans=0; sh->law=lawidx;
	int fd[2]; if (pipe(fd)!=0) _exit(70);
	int nfd[2]; if (pipe(nfd)!=0) _exit(70);
	fflush(0);
	pid_t pid=fork();
	if (pid==0)
	{
		close(fd[0]); close(nfd[0]); dup2(fd[1],2); close(fd[1]);
		signal(SIGVTALRM,onVtalrm); g_cur=sh; armTimer( g_cpulimit);
		Ctx c; bind(c,sh); c.m_mode=Ctx::Replay; c.m_in=choices.data(); c.m_insize=choices.size(); c.m_verbose=(notes!=0); c.reset();
		Outcome o=runCase(c,law,sh,0);
		if (notes)
		{
			size_t p=0; while (p<c.m_notes.size()){ ssize_t w=write(nfd[1],c.m_notes.data()+p,c.m_notes.size()-p); if (w<=0) break; p+=w; }
		}
		while (!c.m_spanstk.empty()) c.spanEnd();
		uint32_t n=std::min<size_t>(c.m_spans.size(),4096); for (uint32_t i=0;i<n;++i) sh->spans[i]=c.m_spans[i]; sh->nspans=n;
		sh->failed=(o==Failed)?1:0;
		_exit( o==Failed?3:0);
	}
	close(fd[1]); close(nfd[1]);
	std::string err, nt; bool e1=true,e2=true;
	while (e1||e2)
	{
		struct pollfd pf[2]={{e1?fd[0]:-1,POLLIN,0},{e2?nfd[0]:-1,POLLIN,0}};
		if (poll(pf,2,-1)<0) continue;
		char b[8192]; ssize_t n;
		if (e1 && pf[0].revents){ n=read(fd[0],b,sizeof b); if (n<=0) e1=false; else if (err.size()<20000) err.append(b,n); }
		if (e2 && pf[1].revents){ n=read(nfd[0],b,sizeof b); if (n<=0) e2=false; else if (nt.size()<100000) nt.append(b,n); }
	}
	close(fd[0]); close(nfd[0]);
	int st=0; struct rusage ru; wait4(pid,&st,0,&ru);
	actual.assign( sh->rec, sh->rec+sh->recsize);
	spans.assign( sh->spans, sh->spans+sh->nspans);
	if (notes) *notes=nt;
	bool ok = WIFEXITED(st) && WEXITSTATUS(st)==0;
	if (ok) return false;
	if (sh->failed) msg=sh->msg;
	else
	{
		msg="CRASH: ";
		if (WIFSIGNALED(st)) msg+="signal "+str(WTERMSIG(st))+" "; else msg+="exit "+str(WEXITSTATUS(st))+" ";
		size_t p=err.find("ERROR:"); if (p==std::string::npos) p=err.find("runtime error");
		if (p!=std::string::npos){ size_t b=err.rfind('\n',p); b=(b==std::string::npos)?0:b+1; size_t e=err.find("\n\n",p); msg+=err.substr(b,std::min<size_t>(1500,(e==std::string::npos?err.size():e)-b)); }
		else msg+=err.substr(0,600);
	}
	return true;
}

static bool simpler( const std::vector<uint32_t>& a, const std::vector<uint32_t>& b)
{
	if (a.size()!=b.size()) return a.size()<b.size();
	return a<b;
}

static void shrink( const Law& law, unsigned lawidx, std::vector<uint32_t>& best, std::string& msg, Shared* sh, double budget)
{
	double t0=now(); std::vector<Span> spans; std::vector<uint32_t> act; std::string m;
	if (law.enumerated) return;
	if (!attempt(law,lawidx,best,sh,m,act,spans,0)) return;
	msg=m; if (simpler(act,best)||act.size()<=best.size()) best=act;
	std::set<std::vector<uint32_t> > tried;
	auto tryit=[&]( std::vector<uint32_t> cand)->bool
	{
		if (now()-t0>budget) return false;
		if (!simpler(cand,best) || !tried.insert(cand).second) return false;
		std::vector<Span> sp; std::vector<uint32_t> a; std::string mm;
		if (!attempt(law,lawidx,cand,sh,mm,a,sp,0)) return false;
		if (!simpler(a,best)) { if (!simpler(cand,best)) return false; a=cand; }
		best=a; spans=sp; msg=mm; return true;
	};
	bool progress=true;
	while (progress && now()-t0<budget)
	{
		progress=false;
		// delete spans, longest first
		for (bool again=true; again && now()-t0<budget; )
		{
			again=false;
			std::vector<Span> sp=spans;
			std::sort(sp.begin(),sp.end(),[](const Span& x,const Span& y){return x.to-x.from>y.to-y.from;});
			for (auto& s: sp)
			{
				if (s.to<=s.from||s.to>best.size()) continue;
				std::vector<uint32_t> c2(best.begin(),best.begin()+s.from); c2.insert(c2.end(),best.begin()+s.to,best.end());
				if (tryit(c2)){ again=progress=true; break; }
				// zero span
				c2=best; bool any=false; for (uint32_t i=s.from;i<s.to;++i){ any|=c2[i]!=0; c2[i]=0; }
				if (any && tryit(c2)){ again=progress=true; break; }
			}
		}
		// delete chunks
		for (size_t k: {64,32,16,8,4,3,2,1})
		{
			for (size_t i=best.size(); i>0 && now()-t0<budget; )
			{
				--i; if (i+k>best.size()) continue;
				std::vector<uint32_t> c2(best.begin(),best.begin()+i); c2.insert(c2.end(),best.begin()+i+k,best.end());
				if (tryit(c2)) { progress=true; if (i>best.size()) i=best.size(); continue; }
				// delete and decrement a preceding choice (a length)
				if (i>0 && best[i-1]>0)
				{
					c2=best; c2[i-1]--; c2.erase(c2.begin()+i,c2.begin()+i+k);
					if (tryit(c2)) progress=true;
					if (i>best.size()) i=best.size();
				}
			}
		}
		// minimise values
		for (size_t i=0;i<best.size() && now()-t0<budget;++i)
		{
			if (!best[i]) continue;
			std::vector<uint32_t> c2=best; c2[i]=0;
			if (tryit(c2)){ progress=true; continue; }
			uint32_t lo=0, hi=i<best.size()?best[i]:0;
			while (hi-lo>1 && i<best.size() && now()-t0<budget)
			{
				uint32_t mid=lo+(hi-lo)/2; c2=best; if (i>=c2.size()) break; c2[i]=mid;
				if (tryit(c2)){ progress=true; hi=mid; if (i>=best.size()) break; } else lo=mid;
			}
		}
	}
}

static void writeReplay( const std::string& path, const Law& law, const std::vector<uint32_t>& ch, const std::string& msg, const std::string& notes)
{
	std::ofstream f(path.c_str());
	f << "property " << suite().property << "\nlaw " << law.name << "\nchoices";
	for (uint32_t v: ch) f << ' ' << v;
	f << "\n--- reason\n" << msg << "\n--- case\n" << notes << "\n";
}

static int findLaw( const std::string& n)
{
	for (size_t i=0;i<suite().laws.size();++i) if (n==suite().laws[i].name) return i;
	return -1;
}

struct Merge
{
	uint64_t evaluations=0, discarded=0; std::unordered_set<uint64_t> distinct; std::map<std::string,uint64_t> labels;
	std::map<std::string,uint64_t> lawEval, lawNontrivial; std::vector<std::pair<std::string,std::string> > samples; bool timedout=false;
};

static uint64_t mix( uint64_t a, uint64_t b){ uint64_t s=a*0x9E3779B97F4A7C15ull+b+0x1234567; return splitmix(s); }

static int worker( unsigned w, unsigned J, uint64_t seed, bool thorough, double scale, double deadline, Shared* sh, int outfd, const std::set<int>& sel)
{
	signal(SIGVTALRM,onVtalrm); g_cur=sh;
	prctl(PR_SET_PDEATHSIG,SIGKILL);
	Ctx c; bind(c,sh);
	std::unordered_set<uint64_t> distinct; std::map<std::string,uint64_t> labels, lawEval, lawNt;
	std::string samples; unsigned nsamples=0; uint64_t evals=0, disc=0; bool timedout=false;
	std::vector<Law>& laws=suite().laws;
	// round robin over the laws in slices, so that a deadline cuts all laws evenly
	std::vector<uint64_t> total(laws.size()), next(laws.size());
	for (size_t l=0;l<laws.size();++l)
	{
		double n=thorough?laws[l].thorough:laws[l].quick; if (!laws[l].enumerated) n*=scale;
		total[l]=(uint64_t)n; if (total[l]==0) total[l]=1; next[l]=w;
		if (!sel.empty() && !sel.count(l)) total[l]=0;
	}
	// enumerated laws first
	const unsigned SL=16;
	std::vector<unsigned> lawsamples( laws.size(),0);
	for (bool more=true; more && !timedout; )
	{
		more=false;
		for (size_t l=0;l<laws.size() && !timedout;++l)
		{
			uint64_t slice=std::max<uint64_t>(1,total[l]/(J*SL)+1);
			for (uint64_t k=0;k<slice && next[l]<total[l];++k)
			{
				uint64_t idx=next[l]; next[l]+=J;
				uint32_t first=idx;
				if (laws[l].enumerated) { c.m_mode=Ctx::Replay; c.m_in=&first; c.m_insize=1; c.m_index=idx; }
				else { c.m_mode=Ctx::Random; c.m_rng=mix(mix(seed,l*7919+13),idx); c.m_index=idx; }
				c.m_verbose=false; c.reset();
				sh->law=l; sh->active=1; g_slow=false; armTimer(g_cpulimit);
				Outcome o=runCase(c,laws[l],sh,0);
				sh->active=0; ++evals; sh->evaluations=evals;
				if (o==Failed){ sh->failed=1; return 3; }
				if (o==Discarded){ ++disc; continue; }
				lawEval[laws[l].name]++;
				for (auto& lb: c.m_labels) labels[std::string(laws[l].name)+": "+lb.first]+=lb.second;
				if (c.m_nontrivial)
				{
					lawNt[laws[l].name]++;
					uint64_t h;
					if (c.m_haskey) h=c.m_key; else { h=1469598103934665603ull; for (uint32_t i=0;i<sh->recsize;++i){ h^=sh->rec[i]; h*=1099511628211ull; h^=h>>29; } }
					distinct.insert( mix(h,l));
					if (w<3 && !g_slow && lawsamples[l]<1 && (lawNt[laws[l].name]>3 || total[l]<100))
					{
						// write out this case
						std::vector<uint32_t> ch( sh->rec, sh->rec+sh->recsize);
						Ctx v; bind(v,sh); v.m_mode=Ctx::Replay; v.m_in=ch.data(); v.m_insize=ch.size(); v.m_verbose=true; v.m_index=idx; v.reset();
						armTimer(g_cpulimit);
						runCase(v,laws[l],sh,0);
						if (v.m_notes.size()<1500 && !v.m_notes.empty())
						{
							samples+=laws[l].name; samples+='\1'; samples+=v.m_notes; samples+='\2'; ++nsamples; ++lawsamples[l];
						}
					}
				}
				if ((idx&15)==0 && now()>deadline){ timedout=true; break; }
			}
			if (next[l]<total[l]) more=true;
		}
	}
	armTimer(0);
	// serialise
	std::string o;
	auto put=[&](const std::string& s){ uint32_t n=s.size(); o.append((char*)&n,4); o+=s; };
	auto putmap=[&](const std::map<std::string,uint64_t>& m){ uint32_t n=m.size(); o.append((char*)&n,4); for (auto& e: m){ put(e.first); o.append((char*)&e.second,8);} };
	o.append((char*)&evals,8); o.append((char*)&disc,8); uint32_t to=timedout; o.append((char*)&to,4);
	putmap(labels); putmap(lawEval); putmap(lawNt); put(samples);
	uint64_t nd=distinct.size(); o.append((char*)&nd,8); for (uint64_t h: distinct) o.append((char*)&h,8);
	size_t p=0; while (p<o.size()){ ssize_t n=write(outfd,o.data()+p,o.size()-p); if (n<=0) return 71; p+=n; }
	return 0;
}

static bool parseResult( const std::string& s, Merge& m)
{
	size_t p=0; bool ok=true;
	auto get=[&](void* d,size_t n){ if (p+n>s.size()){ ok=false; std::memset(d,0,n); return; } std::memcpy(d,s.data()+p,n); p+=n; };
	auto gets=[&]()->std::string{ uint32_t n; get(&n,4); if (!ok||p+n>s.size()){ ok=false; return ""; } std::string r=s.substr(p,n); p+=n; return r; };
	auto getmap=[&](std::map<std::string,uint64_t>& mm){ uint32_t n; get(&n,4); while (ok&&n--){ std::string k=gets(); uint64_t v; get(&v,8); mm[k]+=v; } };
	uint64_t e,d; uint32_t to; get(&e,8); get(&d,8); get(&to,4); m.evaluations+=e; m.discarded+=d; m.timedout|=to!=0;
	getmap(m.labels); getmap(m.lawEval); getmap(m.lawNontrivial); std::string sm=gets();
	size_t q=0; while (q<sm.size()){ size_t a=sm.find('\1',q), b=sm.find('\2',q); if (a==std::string::npos||b==std::string::npos) break; m.samples.push_back(std::make_pair(sm.substr(q,a-q),sm.substr(a+1,b-a-1))); q=b+1; }
	uint64_t nd; get(&nd,8); while (ok&&nd--){ uint64_t h; get(&h,8); m.distinct.insert(h); }
	return ok;
}

static int reportViolation( unsigned law, std::vector<uint32_t> ch, const std::string& replaydir, Shared* sh, double budget)
{
	const Law& L=suite().laws[law]; std::string msg; std::vector<uint32_t> act; std::vector<Span> sp; std::string notes;
	int fails=0; for (int i=0;i<3;++i) if (attempt(L,law,ch,sh,msg,act,sp,0)) ++fails;
	if (fails<3){ std::printf("UNSTABLE law=%s fails=%d/3 (not reported)\n",L.name,fails); return 0; }
	std::printf("FOUND law=%s: %s\n",L.name,msg.c_str()); fflush(stdout);
	shrink(L,law,ch,msg,sh,budget);
	attempt(L,law,ch,sh,msg,act,sp,&notes);
	std::string path=replaydir+"/"+suite().property+"-"+L.name+".replay";
	writeReplay(path,L,ch,msg,notes);
	std::printf("REASON %s\n",msg.c_str());
	std::printf("CASE\n%s\n",notes.substr(0,4000).c_str());
	std::printf("VIOLATION property=%s replay=%s\n",suite().property,path.c_str());
	fflush(stdout);
	return 1;
}

struct History { unsigned w,J; uint64_t seed; bool thorough; double scale; std::set<int> sel; };

// re-run one whole worker: true if it fails; the failing case is left in sh
static bool rerunWorker( const History& h, Shared* sh)
{
	sh->failed=0; sh->active=0; sh->recsize=0; sh->msg[0]=0; fflush(0);
	pid_t pid=fork();
	if (!pid)
	{
		int nul=open("/dev/null",O_WRONLY); dup2(nul,2);
		_exit( worker(h.w,h.J,h.seed,h.thorough,h.scale,now()+600,sh,nul,h.sel));
	}
	int st; waitpid(pid,&st,0);
	return !(WIFEXITED(st)&&WEXITSTATUS(st)==0) && (sh->active||sh->failed);
}

static int reportHistory( const History& h, Shared* sh, unsigned law, const std::string& replaydir)
{
	for (int i=0;i<2;++i)
	{
		if (!rerunWorker(h,sh))   // (with state depending on addresses it may be another case that fails)
		{
			std::printf("NOT REPRODUCIBLE law=%s (not reported)\n",suite().laws[law].name); return 4;
		}
	}
	std::string path=replaydir+"/"+suite().property+"-"+suite().laws[law].name+".history.replay";
	std::ofstream f(path.c_str());
	f << "property " << suite().property << "\nhistory " << h.w << ' ' << h.J << ' ' << h.seed << ' ' << (h.thorough?1:0) << ' ' << h.scale << "\n";
	std::vector<uint32_t> at( sh->rec, sh->rec+sh->recsize); law=sh->law;
	f << "--- reason\nfails only after the preceding cases of the same worker (state kept between independent objects): " << sh->msg << "\n--- law " << suite().laws[law].name << " last choices";
	for (uint32_t v: at) f << ' ' << v;
	f << "\n";
	std::printf("REASON (depends on preceding cases) %s\n",sh->msg);
	std::printf("VIOLATION property=%s replay=%s\n",suite().property,path.c_str());
	return 1;
}

static bool loadHistory( const std::string& path, History& h)
{
	std::ifstream f(path.c_str()); std::string line,w;
	while (std::getline(f,line))
	{
		std::istringstream is(line); is >> w;
		if (w=="history"){ int t; is>>h.w>>h.J>>h.seed>>t>>h.scale; h.thorough=t; return true; }
	}
	return false;
}

static bool loadReplay( const std::string& path, int& law, std::vector<uint32_t>& ch)
{
	std::ifstream f(path.c_str()); std::string w; law=-1;
	std::string line;
	while (std::getline(f,line))
	{
		std::istringstream is(line); is >> w;
		if (w=="law"){ std::string n; is>>n; law=findLaw(n); }
		else if (w=="choices"){ uint32_t v; while (is>>v) ch.push_back(v); break; }
	}
	return law>=0;
}

}//namespace
using namespace pbt;

#ifndef PBT_FUZZ
int main( int argc, char** argv)
{
	std::string replaydir=".", stats, replay, bytes; bool thorough=false, probe=false; uint64_t seed=1; double scale=1.0; double cap=300; unsigned J=8; double shrinkbudget=40; std::set<int> sel; bool list=false;
	for (int i=1;i<argc;++i)
	{
		std::string a=argv[i];
		auto val=[&]()->std::string{ return i+1<argc?argv[++i]:""; };
		if (a=="--seed") seed=strtoull(val().c_str(),0,10);
		else if (a=="--tier") thorough=val()=="thorough";
		else if (a=="--jobs") J=atoi(val().c_str());
		else if (a=="--scale") scale=atof(val().c_str());
		else if (a=="--cap") cap=atof(val().c_str());
		else if (a=="--replaydir") replaydir=val();
		else if (a=="--stats") stats=val();
		else if (a=="--replay") replay=val();
		else if (a=="--bytes") bytes=val();
		else if (a=="--probe") probe=true;
		else if (a=="--law") { int l=findLaw(val()); if (l<0){ std::fprintf(stderr,"no such law\n"); return 2; } sel.insert(l); }
		else if (a=="--list") list=true;
		else if (a=="--shrink") shrinkbudget=atof(val().c_str());
		else { std::fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; }
	}
	if (list){ for (auto& l: suite().laws) std::printf("%s\t%u\t%u\t%s\n",l.name,l.quick,l.thorough,l.rule); return 0; }
	installHooks();
	Shared* asp=newShared();
	if (probe)
	{
		for (auto& p: suite().probes)
		{
			std::string what; bool present=p.fn(what);
			std::printf("PROBE %s %s %s\n",p.id,present?"present":"absent",what.c_str());
		}
		return 0;
	}
	if (!replay.empty())
	{
		int law; std::vector<uint32_t> ch; History h;
		if (loadHistory(replay,h))
		{
			bool f=rerunWorker(h,asp);
			std::printf("%s\n",f?(std::string("FAILS: ")+asp->msg).c_str():"passes");
			if (f) std::printf("VIOLATION property=%s replay=%s\n",suite().property,replay.c_str());
			return f?1:0;
		}
		if (!loadReplay(replay,law,ch)){ std::fprintf(stderr,"cannot load replay\n"); return 2; }
		std::string msg,notes; std::vector<uint32_t> act; std::vector<Span> sp;
		bool f=attempt(suite().laws[law],law,ch,asp,msg,act,sp,&notes);
		std::printf("%s\n--- case\n%s\n",f?("FAILS: "+msg).c_str():"passes",notes.c_str());
		if (f) std::printf("VIOLATION property=%s replay=%s\n",suite().property,replay.c_str());
		return f?1:0;
	}
	if (!bytes.empty())
	{
		std::ifstream f(bytes.c_str(),std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>());
		if (d.empty()) return 0;
		unsigned law=(unsigned char)d[0]%suite().laws.size();
		// canonicalise bytes to choices in a child (it may crash)
		asp->recsize=0; fflush(0);
		pid_t pid=fork();
		if (!pid)
		{
			int nul=open("/dev/null",O_WRONLY); dup2(nul,2);
			signal(SIGVTALRM,onVtalrm); g_cur=asp; armTimer(g_cpulimit);
			Ctx c; bind(c,asp); c.m_mode=Ctx::Bytes; c.m_bytes=(const uint8_t*)d.data()+1; c.m_nbytes=d.size()-1; c.reset();
			runCase(c,suite().laws[law],asp,0); _exit(0);
		}
		int st; waitpid(pid,&st,0);
		std::vector<uint32_t> ch(asp->rec,asp->rec+asp->recsize);
		int r=reportViolation(law,ch,replaydir,asp,shrinkbudget);
		return r;
	}
	double t0=now();
	struct W { pid_t pid; int fd; int efd; Shared* sh; std::string out,err; bool open, eopen; };
	std::vector<W> ws(J);
	for (unsigned w=0;w<J;++w)
	{
		int fd[2],ef[2]; if (pipe(fd)!=0||pipe(ef)!=0) return 70;
		ws[w].sh=newShared(); fflush(0);
		pid_t pid=fork();
		if (!pid)
		{
			close(fd[0]); close(ef[0]); dup2(ef[1],2); close(ef[1]);
			for (unsigned k=0;k<w;++k){ close(ws[k].fd); close(ws[k].efd); }
			_exit( worker(w,J,seed,thorough,scale,t0+cap,ws[w].sh,fd[1],sel));
		}
		close(fd[1]); close(ef[1]); ws[w].pid=pid; ws[w].fd=fd[0]; ws[w].efd=ef[0]; ws[w].open=ws[w].eopen=true;
	}
	int badw=-1; unsigned alive=J; Merge m;
	while (alive)
	{
		std::vector<struct pollfd> pf; std::vector<std::pair<unsigned,int> > who;
		for (unsigned w=0;w<J;++w)
		{
			if (ws[w].open){ struct pollfd p={ws[w].fd,POLLIN,0}; pf.push_back(p); who.push_back(std::make_pair(w,0)); }
			if (ws[w].eopen){ struct pollfd p={ws[w].efd,POLLIN,0}; pf.push_back(p); who.push_back(std::make_pair(w,1)); }
		}
		if (poll(pf.data(),pf.size(),-1)<0) continue;
		char b[65536];
		for (size_t i=0;i<pf.size();++i) if (pf[i].revents)
		{
			W& x=ws[who[i].first];
			ssize_t n=read(pf[i].fd,b,sizeof b);
			if (who[i].second==0){ if (n>0) x.out.append(b,n); else { x.open=false; close(x.fd); } }
			else { if (n>0){ if (x.err.size()<20000) x.err.append(b,n); } else { x.eopen=false; close(x.efd); } }
			if (!x.open && !x.eopen && x.pid)
			{
				int st; waitpid(x.pid,&st,0); x.pid=0; --alive;
				bool ok=WIFEXITED(st)&&WEXITSTATUS(st)==0&&parseResult(x.out,m);
				if (!ok && badw<0)
				{
					badw=who[i].first;
					for (auto& y: ws) if (y.pid) kill(y.pid,SIGKILL);
				}
			}
		}
	}
	int rc=0;
	if (badw>=0)
	{
		Shared* sh=ws[badw].sh; std::vector<uint32_t> ch(sh->rec,sh->rec+sh->recsize);
		if (!sh->active && !sh->failed){ std::printf("worker died outside of a case: %s\n",ws[badw].err.substr(0,2000).c_str()); rc=2; }
		else
		{
			for (auto& y: ws) m.evaluations += y.sh->evaluations;
			rc=reportViolation(sh->law,ch,replaydir,asp,shrinkbudget);
			if (!rc)
			{
				std::printf("worker err: %s\nmsg: %s\n",ws[badw].err.substr(0,2000).c_str(),sh->msg);
				History h; h.w=badw; h.J=J; h.seed=seed; h.thorough=thorough; h.scale=scale; h.sel=sel;
				rc=reportHistory(h,asp,sh->law,replaydir);
			}
		}
	}
	if (!stats.empty())
	{
		std::string o="{\n"; 
		o+=" \"evaluations\": "+str(m.evaluations)+",\n \"discarded\": "+str(m.discarded)+",\n \"distinct_nontrivial\": "+str(m.distinct.size())+",\n \"time_cap_hit\": "+(m.timedout?"true":"false")+",\n";
		o+=" \"laws\": {"; bool first=true;
		for (auto& l: suite().laws)
		{
			if (!first) o+=","; first=false; o+="\n  "; jsonStr(o,l.name); o+=": {\"cases\": "+str(m.lawEval[l.name])+", \"nontrivial\": "+str(m.lawNontrivial[l.name])+", \"enumerated\": "+(l.enumerated?"true":"false")+", \"rule\": "; jsonStr(o,l.rule); o+="}";
		}
		o+="\n },\n \"labels\": {"; first=true;
		for (auto& l: m.labels){ if (!first) o+=","; first=false; o+="\n  "; jsonStr(o,l.first); o+=": "+str(l.second); }
		o+="\n },\n \"samples\": ["; first=true;
		std::map<std::string,int> per;
		for (auto& s: m.samples){ if (per[s.first]++>=2) continue; if (!first) o+=","; first=false; o+="\n  {\"law\": "; jsonStr(o,s.first); o+=", \"case\": "; jsonStr(o,s.second); o+="}"; }
		o+="\n ],\n \"violations\": "+str(rc==1?1:0)+",\n \"search_wall_s\": "+str(now()-t0)+"\n}\n";
		std::ofstream f(stats.c_str()); f << o;
	}
	std::printf("property %s: %llu evaluations, %zu distinct non-trivial, %.1fs%s\n",suite().property,(unsigned long long)m.evaluations,m.distinct.size(),now()-t0,m.timedout?" (time cap hit)":"");
	return rc;
}
#else
extern "C" int LLVMFuzzerTestOneInput( const uint8_t* data, size_t size)
{
	static Shared* sh=newShared(); static Ctx* c=0;
	if (!c){ c=new Ctx; bind(*c,sh); installHooks(); }
	if (size<2) return 0;
	unsigned law=data[0]%suite().laws.size();
	const Law& L=suite().laws[law];
	if (L.enumerated) return 0;
	c->m_mode=Ctx::Bytes; c->m_bytes=data+1; c->m_nbytes=size-1; c->m_verbose=false; c->reset();
	std::string msg;
	if (runCase(*c,L,sh,&msg)==Failed)
	{
		std::fprintf(stderr,"PBT-FAILURE law=%s: %s\n",L.name,msg.c_str());
		std::abort();
	}
	return 0;
}
#endif
