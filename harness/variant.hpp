// Interface between prop_C01.cpp and the builds of variant.cpp (C++98, no textwolf types)
#ifndef VARIANT_HPP
#define VARIANT_HPP
#include <string>
#include <vector>
#include <cstddef>
// what crosses the border between the builds (they may have different standard containers)
struct RawRequest { int kind, in, out, page, src; const char* const* s; const std::size_t* sn; std::size_t ns; const unsigned* n; std::size_t nn; };
typedef void (*RawOut)( void* ctx, const char* p, std::size_t n);
typedef void (*VariantRun)( const RawRequest* rq, RawOut out, void* ctx);
typedef void (*VariantEarly)( RawOut out, void* ctx);
typedef void (*VariantAtEnd)( RawOut out, void* ctx);
namespace textwolf { namespace var {
enum Kind {Scan,Print,Path,Header,Chars,Containers,Texts,NofKinds};
struct Request
{
	int kind, in, out, page, src; std::vector<std::string> s; std::vector<unsigned> n;
	Request():kind(0),in(0),out(0),page(1),src(0){}
};
// requests of every kind, fixed: what a static object of a program does before main and after it
inline void fixedRequests( std::vector<Request>& r)
{
	Request q;
	q.kind=Scan; q.s.push_back( "<?xml version='1.0' encoding=\"UTF-8\"?>\n<!DOCTYPE d SYSTEM \"x.dtd\">\n<d a='1' b=\"&lt;&#233;&#x20AC;\"><!-- c --><?pi x?>t\xc3\xa9xt &amp; &ent;\r\nz<e/><f>\xf0\x9f\x98\x80</f></d>\n");
	for (q.src=0; q.src<4; ++q.src) for (q.out=0; q.out<8; ++q.out) r.push_back(q);
	q.src=0; q.out=0; q.in=7; q.page=5; q.s[0]="<d \xe9='\xff\x80'>\xa4\xdf</d>"; r.push_back(q); q.s[0]="<d>&und;</d>"; r.push_back(q); q.s[0]="<d a></d>"; r.push_back(q);
	q=Request(); q.kind=Print; for (int i=0;i<8;++i) { q.n.push_back( "\0\2\3\4\2\4\5\5"[i]); q.s.push_back( i==0?"UTF-8":"n\xc3\xa9<>&\"'\n"); } for (q.in=0;q.in<8;++q.in) r.push_back(q);
	q=Request(); q.kind=Path; q.s.push_back( "<a x='1'>p<b y='2'>q</b><b>r</b></a>"); q.s.push_back("//b()"); q.s.push_back("/a@x"); q.s.push_back("/a/b[1]()"); q.s.push_back("//b[@y='2']~"); q.s.push_back("/a["); r.push_back(q);
	q=Request(); q.kind=Header; q.s.push_back( "<?xml version='1.0' encoding='ISO-8859-1'?>"); q.n.push_back(7); r.push_back(q);
	q=Request(); q.kind=Chars; q.s.push_back( "a\xe9\xc3\xa9\xff\x80\xf0\x9f\x98\x80z"); q.n.push_back(0x20AC); q.n.push_back(0xff); q.n.push_back(0x1F600); for (q.in=0;q.in<8;++q.in) r.push_back(q);
	q=Request(); q.kind=Containers; for (int i=0;i<40;++i) q.n.push_back( i*7); r.push_back(q);
	q=Request(); q.kind=Texts; r.push_back(q);
}
} }
#endif
