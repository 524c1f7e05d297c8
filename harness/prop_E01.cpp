#include "charlib.hpp"
using namespace enc;
PROPERTY(E01)

static std::string libPrint( pbt::Ctx& c, int cs, uint32_t ch, int how)
{
	std::unique_ptr<cl::Printer> p=cl::printer( cs);
	std::string s;
	switch (how)
	{
		case 1: { std::vector<char> v; p->print( ch, v); s.assign( v.begin(), v.end()); break; }
		case 2: { char b[64]; textwolf::StaticBuffer sb( b, sizeof b); p->print( ch, sb); CHECK(!sb.overflow(),"overflow of a 64 byte buffer by one character"); s.assign( sb.ptr(), sb.size()); break; }
		default: p->print( ch, s);
	}
	return s;
}

static void readAll( pbt::Ctx& c, int cs, const U32& text, const std::string& bytes, bool patterns, int src)
{
	std::unique_ptr<cl::Reader> r=cl::reader( cs, 1, bytes, src);
	size_t off=0;
	for (size_t i=0;i<=text.size();++i)
	{
		uint32_t ch=i<text.size()?text[i]:0;
		#define WHERE csName(cs) << " char #" << i << " of " << text.size() << " U+" << std::hex << ch << std::dec << " at byte " << off << ": "
		CHECK( r->pos()==off, WHERE << "position " << r->pos());
		unsigned n = patterns ? c.draw(4) : 1;
		bool usepost=false;
		while (n--)
		{
			unsigned op = patterns ? c.draw(7) : 0;
			switch (op)
			{
				case 0: { uint32_t v=r->chr(); CHECK( v==ch, WHERE << "read as U+" << std::hex << v); break; }
				case 1: { uint32_t v=r->deref(); CHECK( v==ch, WHERE << "dereferenced as U+" << std::hex << v); break; }
				case 2: { unsigned v=r->ascii(); CHECK( v==(ch<128?ch:0), WHERE << "ASCII value " << v); break; }
				case 3: { int v=r->control(), e=cl::controlClass(ch); CHECK( e<0||v==e, WHERE << "control class " << v << " expected " << e); break; }
				case 4: r.reset( r->copy()); break;
				case 5: { std::string e,g; put( cs, 1, ch, e); r->copychar( 1, g); CHECK( g==e, WHERE << "copied as " << pbt::hex(g) << " instead of " << pbt::hex(e)); break; }
				default: usepost=true;
			}
			CHECK( r->pos()==off, WHERE << "position after access " << r->pos());
		}
		if (!patterns)
		{
			unsigned v=r->ascii(); CHECK( v==(ch<128?ch:0), WHERE << "ASCII value " << v);
			int k=r->control(), e=cl::controlClass(ch); CHECK( e<0||k==e, WHERE << "control class " << k << " expected " << e);
		}
		if (i==text.size()) break;
		if (usepost) { uint32_t v=r->postinc(); CHECK( v==ch, WHERE << "value of the post increment result U+" << std::hex << v); }
		else r->inc();
		off += length( cs, 1, ch);
	}
	CHECK( r->chr()==0 && r->control()==textwolf::EndOfText, "no end of text after the last character");
}

// exhaustive: all code points up to 0x10FFFF in blocks of 2048 for all 7 encodings
ENUM_LAW(all_characters, 544*7, "every character of the block representable in the encoding is printed and read back (blocks without any are trivial)")
{
	int cs=c.index()%7; uint32_t from=(c.index()/7)*2048, to=from+2047;
	U32 text; std::string bytes;
	std::unique_ptr<cl::Printer> p=cl::printer( cs);
	for (uint32_t ch=from;ch<=to;++ch)
	{
		if (!representable(cs,1,ch)) continue;
		std::string e,g; put(cs,1,ch,e); p->print(ch,g);
		CHECK( e==g, csName(cs) << " prints U+" << std::hex << ch << " as " << pbt::hex(g) << " instead of " << pbt::hex(e));
		text.push_back(ch); bytes+=e;
	}
	c.note( std::string(csName(cs))+" block U+"+pbt::hex(std::string(1,(char)(from>>16)))+"... "+pbt::str(from)+".."+pbt::str(to)+" chars "+pbt::str(text.size()));
	if (!text.empty()) c.nontrivial();
	readAll( c, cs, text, bytes, false, 0);
}

LAW(sequences, 960000, 18000000, "at least one non-ASCII character in the sequence")
{
	int cs=c.draw(7); int how=c.draw(3); int src=c.draw(2);
	unsigned n=1+c.size(40);
	U32 text; std::string bytes; bool na=false;
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c);
		uint32_t ch;
		if (cs>=UCS4LE && c.chance(1,8)) { ch=c.draw(0); if (!ch||isSurrogate(ch)) ch=1; }
		else ch=cl::genChar( c, cs, 1);
		na|=ch>127;
		std::string e; put(cs,1,ch,e);
		std::string l=libPrint( c, cs, ch, how);
		CHECK( e==l, csName(cs) << " prints U+" << std::hex << ch << " as " << pbt::hex(l) << " instead of " << pbt::hex(e));
		text.push_back(ch); bytes+=e;
	}
	c.note( std::string(csName(cs))+": "+show(text)+" = "+pbt::hex(bytes));
	c.label( csName(cs));
	if (na) c.nontrivial();
	readAll( c, cs, text, bytes, true, src);
}
