// Compiled once per input encoding with -DSCANLIB_IN=<n>
#include "scanlib.hpp"
#include "charlib.hpp"
#include <sstream>
#include <cstring>
namespace tw=textwolf;
namespace sl {

static const std::string& asString( const std::string& s){ return s; }
static std::string asString( const std::vector<char>& v){ return std::string( v.begin(), v.end()); }

template <class It, class In, class Out, class Buf>
struct ScannerT :Scanner
{
	typedef tw::XMLScanner<It,In,Out,Buf> S;
	struct Shared
	{
		std::string doc; std::vector<char> z; typename S::EntityMap map; Entities ents;
		std::unique_ptr<ScriptStream> script; std::unique_ptr<std::istringstream> iss; std::unique_ptr<tw::StdInputStream> std_;
		size_t steps; jmp_buf eom;
		Shared():steps(0){}
	};
	std::shared_ptr<Shared> sh; std::unique_ptr<S> s; Cfg cfg; bool itstarted; std::unique_ptr<typename S::iterator> it;

	ScannerT( const Cfg& c, const std::shared_ptr<Shared>& sh_, const It& src):sh(sh_),cfg(c),itstarted(false)
	{
		if (c.ents && !c.ents->empty())
		{
			sh->ents=*c.ents; for (auto& e: sh->ents) sh->map[ e.first.c_str()]=e.second;
			if (c.ctor==2 && c.page==1) s.reset( new S( src, sh->map)); else s.reset( new S( cl::makeCs<In>(c.page), src, sh->map));
		}
		else if (c.ctor==1) { s.reset( new S( cl::makeCs<In>(c.page))); s->setSource( src); }
		else if (c.ctor==3 && c.page==1) { s.reset( new S()); s->setSource( src); }
		else if (c.ctor==2 && c.page==1) s.reset( new S( src));
		else s.reset( new S( cl::makeCs<In>(c.page), src));
		if (c.iter) it.reset( new typename S::iterator( s->begin(false)));
	}
	ScannerT( const ScannerT& o):sh(o.sh),s(new S(*o.s)),cfg(o.cfg),itstarted(false) { if (cfg.iter) it.reset( new typename S::iterator( s->begin(false))); }

	template <class I> static void putInput( I&, const char*, size_t, jmp_buf*){ throw std::runtime_error("no chunks"); }
	static void putInput( tw::SrcIterator& i, const char* p, size_t n, jmp_buf* e){ i.putInput( p, n, e); }
	template <class I> static void setSource( S&, I*, const char*, size_t, jmp_buf*){ throw std::runtime_error("no chunks"); }
	static void setSource( S& x, tw::SrcIterator*, const char* p, size_t n, jmp_buf* e){ x.setSource( tw::SrcIterator( p, n, e)); }
	void feed( const char* p, size_t n, bool last)
	{
		if (cfg.feed) setSource( *s, (It*)0, p, n, last?0:&sh->eom); else putInput( s->getIterator(), p, n, last?0:&sh->eom);
		if (cfg.feed==2 && it.get()) it.reset( new typename S::iterator( s->begin(false)));
	}

	bool step( unsigned short mask, int* type)
	{
		if (cfg.src==CHUNKED)
		{
			if (setjmp( sh->eom)!=0) return false;
		}
		*type = s->nextItem( mask);
		return true;
	}
	bool stepIt( int* type)
	{
		if (cfg.src==CHUNKED)
		{
			if (setjmp( sh->eom)!=0) return false;
		}
		++*it;
		*type = (*it)->type();
		return true;
	}
	bool next( unsigned short mask, Event& ev)
	{
		int type;
		if (it.get() && mask==0xFFFF)
		{
			if (!stepIt( &type)) return false;
			const typename S::iterator::Element& e=**it;
			ev.type=type; ev.value.clear();
			ev.err=0; ev.haserrtext=false; ev.errtext.clear();
			if (type==tw::XMLScannerBase::ErrorOccurred)
			{
				// the element of an error carries the error text
				const char* m=e.error(); ev.haserrtext=m!=0; if (m) ev.errtext=std::string(m);
				const char* str=0; ev.err=s->getError(&str);
				if (!m || !str || strcmp(m,str)!=0) ev.errtext+=" (iterator error text differs from the scanner's)";
			}
			else
			{
				ev.value.assign( e.content(), e.size());
				if (e.error()!=0) ev.errtext="error text without error";
				if (std::string(e.name())!=tw::XMLScannerBase::getElementTypeName((tw::XMLScannerBase::ElementType)type)) ev.errtext+="element name differs";
				if (e.valid()!=(type!=tw::XMLScannerBase::Exit)) ev.errtext+="element valid() wrong";
			}
		}
		else
		{
			if (!step( mask, &type)) return false;
			ev.type=type;
			ev.value.assign( s->getItemPtr(), s->getItemSize());
			if (asString( s->getItem())!=ev.value) ev.value+=" (getItem() differs from getItemPtr())";
			const char* str=0; ev.err=s->getError(&str); ev.haserrtext=str!=0; ev.errtext=str?std::string(str):std::string();
		}
		if (type==tw::XMLScannerBase::ErrorOccurred) ev.value.clear(); // an error has no value
		ev.tokpos=s->getTokenPosition(); ev.pos=s->getPosition();
		return true;
	}
	Scanner* clone() const { return new ScannerT(*this); }
	ScriptStream* stream() { return sh->script.get(); }
};

#define MK(IT,SRC) { typedef ScannerT<IT,In,Out,Buf> X; std::shared_ptr<typename X::Shared> sh(new typename X::Shared); sh->doc.assign(d.data(),d.size()); sh->z.assign(d.begin(),d.end()); SRC; }
// the further sources are instantiated for two output encodings only (see outFor)
template <class In, class Out, class Buf, bool ALL> struct Mk { static Scanner* mk( const Cfg&, const std::string&){ return 0; } };
template <class In, class Out, class Buf> struct Mk<In,Out,Buf,true> { static Scanner* mk( const Cfg& c, const std::string& d)
{
	switch (c.src)
	{
		case USERIT: MK( UserIterator, return new X( c, sh, UserIterator( sh->z.data(), sh->z.size(), &sh->steps, c.stepLimit)))
		case CHARPTR: MK( char*, for (unsigned i=0;i<enc::unitSize(c.in);++i) sh->z.push_back(0); return new X( c, sh, sh->z.data()))
		case ISTREAM: MK( tw::IStreamIterator, sh->script.reset( new ScriptStream(d)); sh->script->sizes=c.reads; sh->script->failAt=c.failAt; sh->script->failCode=c.failCode; sh->script->failData=c.failData; return new X( c, sh, tw::IStreamIterator( sh->script.get(), c.bufsize)))
		case STDSTREAM: MK( tw::IStreamIterator, sh->iss.reset( new std::istringstream(d)); sh->std_.reset( new tw::StdInputStream(*sh->iss)); return new X( c, sh, tw::IStreamIterator( sh->std_.get(), c.bufsize)))
	}
	return 0;
}};
template <class In, class Out, class Buf>
static Scanner* mk( const Cfg& c, const std::string& d)
{
	enum {OUT2=SCANLIB_IN==0?2:0};
	typedef typename cl::CsType<OUT2>::T O2;
	if (c.src==USERIT||c.src==CHARPTR||c.src==ISTREAM||c.src==STDSTREAM) return Mk<In,Out,Buf,std::is_same<In,Out>::value||std::is_same<Out,O2>::value>::mk( c, d);

	switch (c.src)
	{
		// heap copies of exactly the size of the document, so that any access beyond is seen
		case CSTRING: MK( tw::CStringIterator, return new X( c, sh, tw::CStringIterator( sh->z.data(), (unsigned)sh->z.size())))
		case SRCWHOLE: MK( tw::SrcIterator, return new X( c, sh, tw::SrcIterator( sh->z.data(), sh->z.size())))
		case CHUNKED: MK( tw::SrcIterator, return new X( c, sh, tw::SrcIterator( "", 0, &sh->eom)))
	}
	return 0;
}
template <class In, class Buf>
static Scanner* mkout( const Cfg& c, const std::string& d)
{
	switch (c.out)
	{
		case enc::UTF8: return mk<In,tw::charset::UTF8,Buf>( c, d);
		case enc::UTF16LE: return mk<In,tw::charset::UTF16LE,Buf>( c, d);
		case enc::UTF16BE: return mk<In,tw::charset::UTF16BE,Buf>( c, d);
		case enc::UCS2LE: return mk<In,tw::charset::UCS2LE,Buf>( c, d);
		case enc::UCS2BE: return mk<In,tw::charset::UCS2BE,Buf>( c, d);
		case enc::UCS4LE: return mk<In,tw::charset::UCS4LE,Buf>( c, d);
		case enc::UCS4BE: return mk<In,tw::charset::UCS4BE,Buf>( c, d);
		default: return mk<In,tw::charset::IsoLatin,Buf>( c, d);
	}
}
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
Scanner* CAT(make_,SCANLIB_IN)( const Cfg& c, const std::string& d)
{
	typedef cl::CsType<SCANLIB_IN>::T In;
	if (c.vec && c.out==SCANLIB_IN) return mk<In,In,std::vector<char> >( c, d);
	return mkout<In,std::string>( c, d);
}

#if SCANLIB_IN==0
std::unique_ptr<Scanner> make( const Cfg& c, const std::string& d)
{
	if (outFor(c.src,c.in,c.out)!=c.out) throw std::logic_error("output encoding not available for this source");
	switch (c.in)
	{
		case 0: return std::unique_ptr<Scanner>( make_0(c,d)); case 1: return std::unique_ptr<Scanner>( make_1(c,d)); case 2: return std::unique_ptr<Scanner>( make_2(c,d)); case 3: return std::unique_ptr<Scanner>( make_3(c,d));
		case 4: return std::unique_ptr<Scanner>( make_4(c,d)); case 5: return std::unique_ptr<Scanner>( make_5(c,d)); case 6: return std::unique_ptr<Scanner>( make_6(c,d)); default: return std::unique_ptr<Scanner>( make_7(c,d));
	}
}
static unsigned short maskOf( const std::vector<unsigned short>* m, size_t i){ return m&&!m->empty()?(*m)[i%m->size()]:0xFFFF; }

Result scanOn( Scanner& s, unsigned extra, const std::vector<unsigned short>* masks, size_t maxEvents)
{
	Result r;
	try
	{
		for (;;)
		{
			if (maxEvents && r.ev.size()>=maxEvents) { r.endless=true; return r; }
			Event e; if (!s.next( maskOf(masks,r.ev.size()), e)) return r;
			r.ev.push_back(e);
			if (e.type==tw::XMLScannerBase::Exit || e.type==tw::XMLScannerBase::ErrorOccurred) { if (extra==0) return r; --extra; }
		}
	}
	catch (const tw::exception& e) { r.cause=e.cause; }
	catch (const StepLimit&) { r.endless=true; }
	return r;
}
Result scanAll( const Cfg& cfg, const std::string& doc, unsigned extra, const std::vector<unsigned short>* masks, size_t maxEvents)
{
	Result r;
	try { std::unique_ptr<Scanner> s=make( cfg, doc); return scanOn( *s, extra, masks, maxEvents); }
	catch (const tw::exception& e) { r.cause=e.cause; }
	return r;
}
Result scanChunked( const Cfg& cfg_, const std::string& doc, const std::vector<size_t>& cuts, bool emptyEnd, unsigned extra, const std::vector<unsigned short>* masks, size_t maxEvents)
{
	Cfg cfg=cfg_; cfg.src=CHUNKED; Result r; std::unique_ptr<Scanner> s=make( cfg, std::string());
	std::unique_ptr<char[]> piece; size_t ci=0, at=0; bool last=false;
	try
	{
		for (;;)
		{
			if (maxEvents && r.ev.size()>=maxEvents) { r.endless=true; return r; }
			Event e;
			if (!s->next( maskOf(masks,r.ev.size()), e))
			{
				if (last) { r.endless=true; return r; }
				size_t to; 
				if (ci<cuts.size()) to=cuts[ci++]; else if (emptyEnd && at<doc.size()) to=doc.size(); else { to=doc.size(); last=true; }
				// the previous piece is gone when the next one is passed
				std::unique_ptr<char[]> np( new char[to-at+1]); memcpy( np.get(), doc.data()+at, to-at);
				std::unique_ptr<char[]> exact( new char[ to-at?to-at:1]); memcpy( exact.get(), np.get(), to-at);
				s->feed( exact.get(), to-at, last); piece.swap( exact); at=to;
				continue;
			}
			r.ev.push_back(e);
			if (e.type==tw::XMLScannerBase::Exit || e.type==tw::XMLScannerBase::ErrorOccurred) { if (extra==0) return r; --extra; }
		}
	}
	catch (const tw::exception& e) { r.cause=e.cause; }
	return r;
}
#endif
}//namespace
