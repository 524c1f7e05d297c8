#include "charlib.hpp"
using namespace enc;
PROPERTY(E02)

ENUM_LAW(bytes, 9, "all defined bytes of the page are read and printed")
{
	int page=c.index()+1; c.nontrivial(); c.note("page "+pbt::str(page));
	std::unique_ptr<cl::Printer> p=cl::printer( LATIN, page);
	std::unique_ptr<cl::Printer> p2( p->copy());
	std::string all; U32 exp;
	for (int b=1;b<256;++b)
	{
		uint32_t ch=latinChar(page,b); if (!ch) continue;
		all+=(char)b; exp.push_back(ch);
		std::string o,o2; p->print(ch,o); p2->print(ch,o2);
		CHECK( o==std::string(1,(char)b), "page " << page << " U+" << std::hex << ch << " printed as " << pbt::quote(o) << " instead of byte " << b);
		CHECK( o==o2, "copy of the page prints differently");
	}
	std::unique_ptr<cl::Reader> r=cl::reader( LATIN, page, all, 0);
	for (size_t i=0;i<exp.size();++i)
	{
		uint32_t v=r->chr();
		CHECK( v==exp[i], "page " << page << " byte 0x" << std::hex << (int)(unsigned char)all[i] << " read as U+" << v << " instead of U+" << exp[i]);
		CHECK( r->ascii()==(exp[i]<128?exp[i]:0), "ASCII value of byte 0x" << std::hex << (int)(unsigned char)all[i]);
		int k=cl::controlClass(exp[i]); CHECK( k<0||r->control()==k, "control class of byte 0x" << std::hex << (int)(unsigned char)all[i]);
		CHECK( r->pos()==i, "position");
		r->inc();
	}
}

// all BMP characters x 9 pages in blocks of 4096: one byte iff in the page, and then the right one
ENUM_LAW(characters, 9*16, "all characters of the block printed")
{
	int page=c.index()%9+1; uint32_t from=c.index()/9*4096; c.nontrivial();
	c.note("page "+pbt::str(page)+" characters "+pbt::str(from)+"...");
	std::unique_ptr<cl::Printer> p=cl::printer( LATIN, page);
	for (uint32_t ch=from?from:1;ch<from+4096;++ch)
	{
		std::string o; p->print(ch,o); int b=latinByte(page,ch);
		if (b>=0) CHECK( o==std::string(1,(char)b), "page " << page << " U+" << std::hex << ch << " printed as " << pbt::quote(o) << " instead of byte 0x" << b);
		else CHECK( o.size()>1, "page " << page << " U+" << std::hex << ch << " (not in the page) printed as byte " << pbt::quote(o));
	}
}

LAW(texts, 192000, 3000000, "at least two non-ASCII characters")
{
	int page=c.range(1,9); unsigned n=1+c.size(60); std::string bytes, out; U32 text; unsigned na=0; int src=c.draw(2);
	// several pages used alternately
	int page2=c.range(1,9);
	std::unique_ptr<cl::Printer> p=cl::printer( LATIN, page), q=cl::printer( LATIN, page2);
	for (unsigned i=0;i<n;++i)
	{
		uint32_t ch=cl::genChar( c, LATIN, page); na+=ch>127;
		text.push_back(ch); put(LATIN,page,ch,bytes); p->print(ch,out);
		std::string o2; q->print(ch,o2); int b2=latinByte(page2,ch);
		CHECK( b2<0 ? o2.size()>1 : o2==std::string(1,(char)b2), "page " << page2 << " U+" << std::hex << ch << " printed as " << pbt::quote(o2));
	}
	c.note("page "+pbt::str(page)+": "+show(text));
	if (na>1) c.nontrivial();
	CHECK( out==bytes, "page " << page << " printed " << pbt::quote(out) << " instead of " << pbt::quote(bytes));
	std::unique_ptr<cl::Reader> r=cl::reader( LATIN, page, bytes, src), r2=cl::reader( LATIN, page2, bytes, src);
	for (size_t i=0;i<n;++i)
	{
		CHECK( r->chr()==text[i], "page " << page << " byte " << (int)(unsigned char)bytes[i] << " read as U+" << std::hex << r->chr());
		uint32_t e2=latinChar(page2,bytes[i]);
		if (e2) CHECK( r2->chr()==e2, "page " << page2 << " byte " << (int)(unsigned char)bytes[i] << " read as U+" << std::hex << r2->chr());
		if (c.flip()) { r.reset( r->copy()); }
		if (c.chance(1,3)) { std::string o; r->copychar( page2, o); int b2=latinByte(page2,text[i]); CHECK( b2<0 ? o.size()>1 : o==std::string(1,(char)b2), "U+" << std::hex << text[i] << " copied from page " << page << " to page " << page2 << " as " << pbt::quote(o)); }
		r->inc(); r2->inc();
	}
}

LAW(index, 96000, 600000, "an index outside 1..9")
{
	uint32_t idx;
	switch (c.draw(3)) { case 0: idx=c.draw(16); break; case 1: idx=c.draw(300); break; default: idx=c.draw(0); }
	c.note("index "+pbt::str(idx));
	bool ok; int cause=-1;
	try { textwolf::charset::IsoLatin x(idx); ok=true; std::string o; x.print('a',o); }
	catch (const textwolf::exception& e) { ok=false; cause=e.cause; }
	bool valid=idx>=1&&idx<=9;
	if (!valid) c.nontrivial();
	CHECK( ok==valid, "code page index " << idx << (ok?" accepted":" refused"));
	if (!ok) CHECK( cause==textwolf::throws_exception::CodePageIndexNotSupported, "wrong cause " << cause);
}
