// Type-erased access to the XML printer over encodings and output buffers
#ifndef PRINTLIB_HPP
#define PRINTLIB_HPP
#include "charlib.hpp"
#include <sstream>

namespace pl {
namespace tw = textwolf;
enum State {Init,Content,TagAttribute,TagElement};
static inline const char* stateName( int s){ static const char* n[]={"Init","Content","TagAttribute","TagElement"}; return n[s]; }

struct Printer
{
	virtual ~Printer(){}
	virtual bool header( const char* encoding, const char* standalone)=0;
	virtual bool doctype( const char* root, const char* pub, const char* sys)=0;
	virtual bool exitTag()=0;
	virtual bool open( const std::string& s)=0;
	virtual bool attr( const std::string& s)=0;
	virtual bool value( const std::string& s)=0;
	virtual bool close()=0;
	virtual void reset( bool sub)=0;
	virtual void assign( const Printer& o)=0;    // the printer and its output
	virtual int state() const=0;
	virtual const char* lasterror() const=0;
	virtual std::string out() const=0;
	virtual bool overflow() const { return false; }
	virtual Printer* clone() const=0;
};
// output buffers
struct StrBuf { void assign( const StrBuf& o){ b=o.b; } typedef std::string B; B b; B& get(){return b;} std::string str() const { return b; } bool over() const { return false; } StrBuf( size_t){} };
struct VecBuf { void assign( const VecBuf& o){ b=o.b; } typedef std::vector<char> B; B b; B& get(){return b;} std::string str() const { return std::string(b.begin(),b.end()); } bool over() const { return false; } VecBuf( size_t){} };
struct StmBuf { void assign( const StmBuf& o){ if (this!=&o) { s->str(""); *s << o.s->str(); } } typedef tw::OstreamOutput B; std::shared_ptr<std::ostringstream> s; B b; B& get(){return b;} std::string str() const { return s->str(); } bool over() const { return false; } StmBuf( size_t):s(new std::ostringstream()),b(s.get()){} StmBuf( const StmBuf& o):s(new std::ostringstream()),b(s.get()){ *s << o.s->str(); } };
struct FixBuf { void assign( const FixBuf& o){ b=o.b; } typedef tw::StaticBuffer B; B b; B& get(){return b;} std::string str() const { return std::string(b.ptr(),b.size()); } bool over() const { return b.overflow(); } FixBuf( size_t n):b(n){} };

template <class IO, class App, class Buf> struct PrinterT :Printer
{
	typedef tw::XMLPrinter<IO,App,typename Buf::B> X; X x; Buf buf;
	PrinterT( const IO& io, bool sub, size_t n):x(io,sub),buf(n){}
	explicit PrinterT( bool sub, size_t n):x(sub),buf(n){}
	PrinterT( const PrinterT& o):x(o.x),buf(o.buf){}
	bool header( const char* e, const char* s){ return x.printHeader( e, s, buf.get()); }
	bool doctype( const char* r, const char* p, const char* s){ return x.printDoctype( r, p, s, buf.get()); }
	bool exitTag(){ return x.exitTagContext( buf.get()); }
	bool open( const std::string& s){ std::unique_ptr<char[]> m=tight(s); return x.printOpenTag( m.get(), s.size(), buf.get()); }
	bool attr( const std::string& s){ std::unique_ptr<char[]> m=tight(s); return x.printAttribute( m.get(), s.size(), buf.get()); }
	bool value( const std::string& s){ std::unique_ptr<char[]> m=tight(s); return x.printValue( m.get(), s.size(), buf.get()); }
	bool close(){ return x.printCloseTag( buf.get()); }
	void reset( bool sub){ x.reset( sub); }
	void assign( const Printer& o){ const PrinterT& f=static_cast<const PrinterT&>(o); x=f.x; buf.assign( f.buf); }
	int state() const { switch (x.state()) { case X::Init: return Init; case X::Content: return Content; case X::TagAttribute: return TagAttribute; case X::TagElement: return TagElement; } return -1; }
	const char* lasterror() const { return x.lasterror(); }
	std::string out() const { return buf.str(); }
	bool overflow() const { return buf.over(); }
	Printer* clone() const { return new PrinterT(*this); }
	static std::unique_ptr<char[]> tight( const std::string& s){ std::unique_ptr<char[]> m( new char[s.size()]); memcpy( m.get(), s.data(), s.size()); return m; }
};
template <class IO, class App, class Buf> static inline Printer* mk( int page, bool sub, size_t n){ if (page==1) return new PrinterT<IO,App,Buf>( sub, n); return new PrinterT<IO,App,Buf>( cl::makeCs<IO>(page), sub, n); }
// printer of any encodings and buffer (0: string, 1: vector, 2: output stream, 3: fixed size buffer of n bytes)
Printer* make( int io, int page, int app, int buf, bool sub, size_t n);
#define PL_DECL(I) Printer* make_##I( int page, int app, int buf, bool sub, size_t n);
PL_DECL(0) PL_DECL(1) PL_DECL(2) PL_DECL(3) PL_DECL(4) PL_DECL(5) PL_DECL(6) PL_DECL(7)
}//namespace
#endif
