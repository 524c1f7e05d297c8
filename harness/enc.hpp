// Independent reference encoders and decoders (written from the encoding definitions, no code shared with the library)
#ifndef ENC_HPP
#define ENC_HPP
#include "engine.hpp"
#include <string>
#include <vector>
#include <cstdio>

namespace enc {
typedef std::vector<uint32_t> U32;

enum Cs {UTF8,UTF16LE,UTF16BE,UCS2LE,UCS2BE,UCS4LE,UCS4BE,LATIN,NofCs};
static inline const char* csName( int cs){ static const char* n[]={"UTF-8","UTF-16LE","UTF-16BE","UCS-2LE","UCS-2BE","UCS-4LE","UCS-4BE","IsoLatin"}; return n[cs]; }
static inline unsigned unitSize( int cs){ return cs==UTF8||cs==LATIN?1:(cs==UCS4LE||cs==UCS4BE?4:2); }

#include "latin_tables.inc"

static inline bool isSurrogate( uint32_t c){ return c>=0xD800 && c<=0xDFFF; }

// byte of a character in a Latin page, -1 if not in the page
static inline int latinByte( int page, uint32_t ch)
{
	if (ch<128) return ch;
	for (int i=0;i<128;++i) if (latinUpper[page-1][i] && latinUpper[page-1][i]==ch) return i+128;
	return -1;
}
static inline uint32_t latinChar( int page, unsigned char b){ return b<128?b:latinUpper[page-1][b-128]; }

static inline void putUnit( int cs, uint32_t v, std::string& o)
{
	switch (cs)
	{
		case UTF16LE: case UCS2LE: o+=(char)(v&255); o+=(char)((v>>8)&255); break;
		case UTF16BE: case UCS2BE: o+=(char)((v>>8)&255); o+=(char)(v&255); break;
		case UCS4LE: for (int i=0;i<4;++i) o+=(char)((v>>(8*i))&255); break;
		case UCS4BE: for (int i=3;i>=0;--i) o+=(char)((v>>(8*i))&255); break;
		default: o+=(char)v;
	}
}
static inline bool representable( int cs, int page, uint32_t ch)
{
	if (ch==0||isSurrogate(ch)) return false;
	switch (cs)
	{
		case UTF8: return ch<=0x7FFFFFFFu;
		case UTF16LE: case UTF16BE: return ch<=0x10FFFF;
		case UCS2LE: case UCS2BE: return ch<=0xFFFF;
		case UCS4LE: case UCS4BE: return true;
		default: return latinByte(page,ch)>=0;
	}
}
static inline void put( int cs, int page, uint32_t ch, std::string& o)
{
	switch (cs)
	{
		case UTF8:
			if (ch<0x80) o+=(char)ch;
			else if (ch<0x800){ o+=(char)(0xC0+ch/64); o+=(char)(0x80+ch%64); }
			else if (ch<0x10000){ o+=(char)(0xE0+ch/4096); o+=(char)(0x80+ch/64%64); o+=(char)(0x80+ch%64); }
			else if (ch<0x200000){ o+=(char)(0xF0+ch/262144); o+=(char)(0x80+ch/4096%64); o+=(char)(0x80+ch/64%64); o+=(char)(0x80+ch%64); }
			else if (ch<0x4000000){ o+=(char)(0xF8+ch/16777216); o+=(char)(0x80+ch/262144%64); o+=(char)(0x80+ch/4096%64); o+=(char)(0x80+ch/64%64); o+=(char)(0x80+ch%64); }
			else { o+=(char)(0xFC+ch/1073741824); o+=(char)(0x80+ch/16777216%64); o+=(char)(0x80+ch/262144%64); o+=(char)(0x80+ch/4096%64); o+=(char)(0x80+ch/64%64); o+=(char)(0x80+ch%64); }
			break;
		case UTF16LE: case UTF16BE:
			if (ch<0x10000) putUnit(cs,ch,o);
			else { uint32_t v=ch-0x10000; putUnit(cs,0xD800+v/1024,o); putUnit(cs,0xDC00+v%1024,o); }
			break;
		case LATIN: o+=(char)latinByte(page,ch); break;
		default: putUnit(cs,ch,o);
	}
}
static inline std::string charRef( uint32_t ch){ char b[32]; std::snprintf(b,sizeof b,"&#x%x;",ch); return b; }
// a character as it has to appear in an output: itself or its reference
static inline void putOrRef( int cs, int page, uint32_t ch, std::string& o)
{
	if (representable(cs,page,ch)) put(cs,page,ch,o);
	else { std::string r=charRef(ch); for (size_t i=0;i<r.size();++i) put(cs,page,(unsigned char)r[i],o); }
}
static inline std::string encode( int cs, int page, const U32& s){ std::string o; for (uint32_t c: s) put(cs,page,c,o); return o; }
static inline std::string encodeOrRef( int cs, int page, const U32& s){ std::string o; for (uint32_t c: s) putOrRef(cs,page,c,o); return o; }
static inline unsigned length( int cs, int page, uint32_t ch){ std::string o; put(cs,page,ch,o); return o.size(); }
static inline bool allRepresentable( int cs, int page, const U32& s){ for (uint32_t c: s) if (!representable(cs,page,c)) return false; return true; }

// strict decoder: false if the bytes are not well-formed in the encoding
static inline bool decode( int cs, int page, const std::string& b, U32& out)
{
	size_t i=0,n=b.size(); out.clear();
	#define B(k) ((uint32_t)(unsigned char)b[k])
	while (i<n)
	{
		switch (cs)
		{
			case UTF8:
			{
				uint32_t c=B(i); unsigned k= c<0x80?0:c<0xC0?9:c<0xE0?1:c<0xF0?2:c<0xF8?3:c<0xFC?4:c<0xFE?5:9;
				if (k==9||i+k>=n) return false;
				if (k) c &= (0x3F>>k);
				for (unsigned j=1;j<=k;++j){ if ((B(i+j)&0xC0)!=0x80) return false; c=c*64+(B(i+j)&0x3F); }
				std::string chk; put(UTF8,0,c,chk); if (chk.size()!=k+1) return false; // overlong
				out.push_back(c); i+=k+1; break;
			}
			case UTF16LE: case UTF16BE: case UCS2LE: case UCS2BE:
			{
				if (i+1>=n) return false;
				bool le=cs==UTF16LE||cs==UCS2LE;
				uint32_t c= le?B(i)+256*B(i+1):B(i+1)+256*B(i); i+=2;
				if ((cs==UTF16LE||cs==UTF16BE) && isSurrogate(c))
				{
					if (c>=0xDC00||i+1>=n) return false;
					uint32_t d= le?B(i)+256*B(i+1):B(i+1)+256*B(i); i+=2;
					if (d<0xDC00||d>0xDFFF) return false;
					c=0x10000+(c-0xD800)*1024+(d-0xDC00);
				}
				out.push_back(c); break;
			}
			case UCS4LE: case UCS4BE:
				if (i+3>=n) return false;
				out.push_back( cs==UCS4LE? B(i)+256*B(i+1)+65536*B(i+2)+16777216u*B(i+3) : B(i+3)+256*B(i+2)+65536*B(i+1)+16777216u*B(i)); i+=4; break;
			default:
				out.push_back( latinChar(page,B(i))); ++i;
		}
	}
	#undef B
	return true;
}
static inline std::string show( const U32& s, size_t max=300)
{
	std::string o;
	for (size_t i=0;i<s.size();++i)
	{
		if (o.size()>max){ o+="...("+pbt::str(s.size())+" chars)"; break; }
		uint32_t c=s[i];
		if (c=='\n') o+="\\n"; else if (c=='\r') o+="\\r"; else if (c=='\t') o+="\\t"; else if (c=='\\') o+="\\\\";
		else if (c>=32&&c<127) o+=(char)c; else { char b[16]; std::snprintf(b,sizeof b,"\\u{%x}",c); o+=b; }
	}
	return o;
}
static inline U32 u32( const std::string& ascii){ U32 r; for (size_t i=0;i<ascii.size();++i) r.push_back((unsigned char)ascii[i]); return r; }
static inline void cat( U32& a, const U32& b){ a.insert(a.end(),b.begin(),b.end()); }
static inline void cat( U32& a, const char* s){ for (;*s;++s) a.push_back((unsigned char)*s); }

}//namespace
#endif
