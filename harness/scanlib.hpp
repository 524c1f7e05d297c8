// Type-erased access to the XML scanner over all sources, input and output encodings
#ifndef SCANLIB_HPP
#define SCANLIB_HPP
#include "enc.hpp"
#include "textwolf.hpp"
#include <memory>
#include <string>
#include <vector>
#include <setjmp.h>

namespace sl {
enum Src {CSTRING, SRCWHOLE, CHUNKED, USERIT, CHARPTR, ISTREAM, STDSTREAM, NofSrc};
// the output encodings available for a source: all for strings and chunks, the same and one other for the rest
static inline int outFor( int src, int in, int out){ if (src==CSTRING||src==SRCWHOLE||src==CHUNKED) return out; return out==in?in:in==enc::UTF8?(int)enc::UTF16BE:(int)enc::UTF8; }
static inline const char* srcName( int s){ static const char* n[]={"CStringIterator","SrcIterator","SrcIterator(chunks)","user iterator","char*","IStreamIterator","IStreamIterator(std::istream)"}; return n[s]; }

struct Event
{
	int type; std::string value; size_t tokpos, pos; int err; std::string errtext; bool haserrtext;
	Event():type(0),tokpos(0),pos(0),err(0),haserrtext(false){}
	bool same( const Event& o, bool positions=true) const
	{
		return type==o.type && value==o.value && err==o.err && haserrtext==o.haserrtext && errtext==o.errtext && (!positions || (tokpos==o.tokpos && pos==o.pos));
	}
	std::string show() const
	{
		std::ostringstream o; o << textwolf::XMLScannerBase::getElementTypeName((textwolf::XMLScannerBase::ElementType)type) << ' ' << pbt::quote(value,120) << " tokpos " << tokpos << " pos " << pos;
		if (err) o << " error " << err << " '" << errtext << "'";
		return o.str();
	}
};
typedef std::vector<std::pair<std::string,uint32_t> > Entities;

struct StepLimit { size_t steps; };

// stream with scripted read sizes and an optional failing read
class ScriptStream :public textwolf::IStream
{
public:
	std::string data; std::vector<unsigned> sizes; int failAt; int failCode; size_t pos; unsigned reads; int err; unsigned eofReads; bool failed; unsigned failData;
	ScriptStream( const std::string& d):data(d),failAt(-1),failCode(5),pos(0),reads(0),err(0),eofReads(0),failed(false),failData(0){}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		unsigned idx=reads++;
		if (failAt>=0 && (int)idx>=failAt) { err=failCode; failed=true; size_t k=failData; if (k>n) k=n; if (k>data.size()-pos) k=data.size()-pos; memcpy( buf, data.data()+pos, k); pos+=k; return k; }   // failData: bytes delivered by a read that reports an error
		err=0;
		size_t k=n; if (!sizes.empty()) { size_t s=sizes[idx%sizes.size()]; if (s<1) s=1; if (s<k) k=s; }
		if (k>data.size()-pos) k=data.size()-pos;
		if (k==0) ++eofReads;
		memcpy( buf, data.data()+pos, k); pos+=k; return k;
	}
	virtual int errorcode() const { return err; }
};

struct Cfg
{
	int in=enc::UTF8, out=enc::UTF8, page=1; int src=CSTRING; 
	bool vec=false;                       // std::vector<char> instead of std::string as output buffer
	bool iter=false;                      // read through XMLScanner::iterator
	int ctor=0;                           // 0: scanner(charset,source[,map]), 1: scanner(charset) + setSource, 2: without charset (page 1)
	int feed=0;                           // pieces by 0: putInput(), 1: setSource(), 2: setSource() and another iterator
	const Entities* ents=0;
	size_t bufsize=8192; std::vector<unsigned> reads; int failAt=-1; int failCode=5; unsigned failData=0;
	size_t stepLimit=0;
	std::string show() const
	{
		std::ostringstream o; o << enc::csName(in); if (in==enc::LATIN) o << "(page " << page << ")"; o << " -> " << enc::csName(out) << " via " << srcName(src); if (src==ISTREAM||src==STDSTREAM) { o << " bufsize " << bufsize << " reads"; for (auto r: reads) o << ' ' << r; if (failAt>=0) { o << " failing at read " << failAt; if (failData) o << " which delivers " << failData << " bytes"; } } if (iter) o << " by iterator"; if (vec) o << " vector buffer"; if (ctor) o << " ctor " << ctor; if (feed) o << " fed by setSource" << (feed==2?", iterators anew":""); return o.str();
	}
};

class Scanner
{
public:
	virtual ~Scanner(){}
	// false: more input needed (chunked source only)
	virtual bool next( unsigned short mask, Event& ev)=0;
	// chunked source: pass the next piece (must stay alive until the following feed); last: nothing follows
	virtual void feed( const char* p, size_t n, bool last)=0;
	virtual Scanner* clone() const=0;
	virtual ScriptStream* stream()=0;
};
std::unique_ptr<Scanner> make( const Cfg& cfg, const std::string& doc);

// scan everything at once until the end or an error (plus 'extra' further calls)
struct Result { std::vector<Event> ev; int cause; bool endless; Result():cause(0),endless(false){} };
Result scanAll( const Cfg& cfg, const std::string& doc, unsigned extra=0, const std::vector<unsigned short>* masks=0, size_t maxEvents=0);
Result scanOn( Scanner& s, unsigned extra, const std::vector<unsigned short>* masks, size_t maxEvents);
// scan in pieces cut at the given ascending offsets; emptyEnd: the last piece is an empty one marked as last
Result scanChunked( const Cfg& cfg, const std::string& doc, const std::vector<size_t>& cuts, bool emptyEnd, unsigned extra=0, const std::vector<unsigned short>* masks=0, size_t maxEvents=0);

Scanner* make_0( const Cfg&, const std::string&); Scanner* make_1( const Cfg&, const std::string&); Scanner* make_2( const Cfg&, const std::string&); Scanner* make_3( const Cfg&, const std::string&);
Scanner* make_4( const Cfg&, const std::string&); Scanner* make_5( const Cfg&, const std::string&); Scanner* make_6( const Cfg&, const std::string&); Scanner* make_7( const Cfg&, const std::string&);
}//namespace

// A source iterator as a user would write it (the library asks for a traits specialisation for the position)
struct UserIterator
{
	const char* p; size_t n,i; size_t* steps; size_t limit;
	UserIterator():p(0),n(0),i(0),steps(0),limit(0){}
	UserIterator( const char* p_, size_t n_, size_t* s, size_t l):p(p_),n(n_),i(0),steps(s),limit(l){}
	char operator*() { return i<n?p[i]:0; }
	UserIterator& operator++() { if (steps && limit && ++*steps>limit) { sl::StepLimit x={*steps}; throw x; } ++i; return *this; }
	size_t operator-( const UserIterator& o) const { return i-o.i; }
};
namespace textwolf {
template <> struct Traits<UserIterator> { static inline std::size_t getPosition( const UserIterator& s, const UserIterator& e){ return e.i-s.i; } };
}
#endif
