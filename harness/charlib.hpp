// Type-erased access to the character set implementations of the library
#ifndef CHARLIB_HPP
#define CHARLIB_HPP
#include "enc.hpp"
#include "textwolf.hpp"
#include <memory>

namespace cl {
namespace tw = textwolf;

template <int CS> struct CsType;
template <> struct CsType<enc::UTF8>{ typedef tw::charset::UTF8 T; };
template <> struct CsType<enc::UTF16LE>{ typedef tw::charset::UTF16LE T; };
template <> struct CsType<enc::UTF16BE>{ typedef tw::charset::UTF16BE T; };
template <> struct CsType<enc::UCS2LE>{ typedef tw::charset::UCS2LE T; };
template <> struct CsType<enc::UCS2BE>{ typedef tw::charset::UCS2BE T; };
template <> struct CsType<enc::UCS4LE>{ typedef tw::charset::UCS4LE T; };
template <> struct CsType<enc::UCS4BE>{ typedef tw::charset::UCS4BE T; };
template <> struct CsType<enc::LATIN>{ typedef tw::charset::IsoLatin T; };

template <class T> inline T makeCs( int){ return T(); }
template <> inline tw::charset::IsoLatin makeCs<tw::charset::IsoLatin>( int page){ return tw::charset::IsoLatin(page); }

// printing
struct Printer
{
	virtual ~Printer(){}
	virtual void print( uint32_t ch, std::string& b) const=0;
	virtual void print( uint32_t ch, std::vector<char>& b) const=0;
	virtual void print( uint32_t ch, tw::StaticBuffer& b) const=0;
	virtual Printer* copy() const=0;
};
template <class T> struct PrinterT :Printer
{
	T cs;
	explicit PrinterT( const T& c):cs(c){}
	void print( uint32_t ch, std::string& b) const { cs.print( ch, b); }
	void print( uint32_t ch, std::vector<char>& b) const { cs.print( ch, b); }
	void print( uint32_t ch, tw::StaticBuffer& b) const { cs.print( ch, b); }
	Printer* copy() const { return new PrinterT( cs); }
};
// reading
struct Reader
{
	virtual ~Reader(){}
	virtual uint32_t chr()=0;
	virtual uint32_t deref()=0;
	virtual unsigned ascii()=0;
	virtual int control()=0;
	virtual void inc()=0;
	virtual uint32_t postinc()=0;   // value of the returned copy
	virtual size_t pos() const=0;
	virtual Reader* copy() const=0;
	virtual void copychar( int page, std::string& out)=0;
};
template <class T, class It> struct ReaderT :Reader
{
	tw::TextScanner<It,T> ts;
	ReaderT( const T& cs, const It& it):ts(cs,it){}
	ReaderT( const ReaderT& o):ts(o.ts){}
	uint32_t chr(){ return ts.chr(); }
	uint32_t deref(){ return *ts; }
	unsigned ascii(){ return ts.ascii(); }
	int control(){ return ts.control(); }
	void inc(){ ++ts; }
	uint32_t postinc(){ tw::TextScanner<It,T> old( ts++); return *old; }
	size_t pos() const { return ts.getPosition(); }
	Reader* copy() const { return new ReaderT(*this); }
	void copychar( int page, std::string& out){ T cs( makeCs<T>(page)); ts.copychar( cs, out); }
};

template <class T> inline Printer* mkP( int page){ return new PrinterT<T>( makeCs<T>(page)); }
template <class T> inline Reader* mkR( int page, const std::string& s, int src)
{
	switch (src)
	{
		case 1: return new ReaderT<T,tw::SrcIterator>( makeCs<T>(page), tw::SrcIterator( s.data(), s.size()));
		default: return new ReaderT<T,tw::CStringIterator>( makeCs<T>(page), tw::CStringIterator( s.data(), (unsigned)s.size()));
	}
}
#define CL_DISPATCH(CS,EXPR) switch (CS) { \
	case enc::UTF8: { typedef tw::charset::UTF8 T; EXPR; } break; \
	case enc::UTF16LE: { typedef tw::charset::UTF16LE T; EXPR; } break; \
	case enc::UTF16BE: { typedef tw::charset::UTF16BE T; EXPR; } break; \
	case enc::UCS2LE: { typedef tw::charset::UCS2LE T; EXPR; } break; \
	case enc::UCS2BE: { typedef tw::charset::UCS2BE T; EXPR; } break; \
	case enc::UCS4LE: { typedef tw::charset::UCS4LE T; EXPR; } break; \
	case enc::UCS4BE: { typedef tw::charset::UCS4BE T; EXPR; } break; \
	default: { typedef tw::charset::IsoLatin T; EXPR; } break; }

inline std::unique_ptr<Printer> printer( int cs, int page=1){ Printer* p=0; CL_DISPATCH(cs,p=mkP<T>(page)); return std::unique_ptr<Printer>(p); }
inline std::unique_ptr<Reader> reader( int cs, int page, const std::string& s, int src=0){ Reader* p=0; CL_DISPATCH(cs,p=mkR<T>(page,s,src)); return std::unique_ptr<Reader>(p); }

// documented control character classes of ASCII (-1: any class tolerated)
inline int controlClass( uint32_t ch)
{
	using namespace tw;
	switch (ch)
	{
		case 0: return EndOfText; case '\t': case '\r': case ' ': return Space; case '\n': return EndOfLine; case '&': return Amp; case '<': return Lt;
		case '=': return Equal; case '>': return Gt; case '/': return Slash; case '-': return Dash; case '!': return Exclam; case '?': return Questm;
		case '\'': return Sq; case '"': return Dq; case '[': return Osb; case ']': return Csb;
	}
	if (ch<32) return ch==5?-1:(int)Cntrl;
	if (ch<128) return Any;
	return Undef;
}

// a character of the repertoire of an encoding, simple ones first
inline uint32_t genChar( pbt::Ctx& c, int cs, int page, bool xmlonly=false)
{
	for (int tries=0;;++tries)
	{
		uint32_t ch;
		unsigned k=c.pick({6,3,3,3,2,1,2});
		switch (k)
		{
			case 0: ch=97+c.draw(26); break;
			case 1: ch=c.range(32,126); break;
			case 2: ch=c.range(128,0x7ff); break;
			case 3: ch=c.range(0x800,0xffff); break;
			case 4: ch=c.range(0x10000,0x10ffff); break;
			case 5: ch=c.range(0x10ffff,0x7fffffff); break;
			default:
			{
				static const uint32_t edge[]={1,9,10,13,31,0x7e,0x7f,0x80,0x81,0x9f,0xa0,0xff,0x100,0x101,0x17f,0x7ff,0x800,0xfff,0x1000,0xd7ff,0xe000,0xfffd,0xfffe,0xffff,0x10000,0x10001,0x103ff,0x10400,0x1ffff,0x20000,0xffff0,0x10fc00,0x10ffff,0x110000,0x1fffff,0x200000,0x3ffffff,0x4000000,0x7ffffffe,0x7fffffff,0x2028,0x2029,0x85,0xad,0xfeff,0xfffe,0xfffc,0x200b,0x20ac,0x12a,0x12f,0x13c,0x126,0x23e,0x3c3c,0x3c00,0x003c,0x2600,0x0d0a,0x0a0d,0x3e00,0x2f00,0x2200,0x2700,0x3d00,0x2000};
				ch=c.of(edge);
			}
		}
		if (cs==enc::LATIN && ch>127 && (k==2||k==3)) ch=enc::latinUpper[page-1][ch%128];
		if (tries>20) ch='a';
		if (xmlonly && (ch==0xfffe||ch==0xffff||ch>0x10ffff||(ch<32&&ch!=9&&ch!=10&&ch!=13))) continue;
		if (enc::representable(cs,page,ch)) return ch;
	}
}
}//namespace
#endif
