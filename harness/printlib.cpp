// XML printers of one output encoding (PRINTLIB_IO) for all application encodings and buffers
#include "printlib.hpp"
namespace pl {
template <class IO, class App> static Printer* mkBuf( int page, int buf, bool sub, size_t n)
{
	switch (buf)
	{
		case 1: return mk<IO,App,VecBuf>( page, sub, n);
		case 2: return mk<IO,App,StmBuf>( page, sub, n);
		case 3: return mk<IO,App,FixBuf>( page, sub, n);
		default: return mk<IO,App,StrBuf>( page, sub, n);
	}
}
#define CAT2(A,B) A##B
#define CAT(A,B) CAT2(A,B)
Printer* CAT(make_,PRINTLIB_IO)( int page, int app, int buf, bool sub, size_t n)
{
	typedef cl::CsType<PRINTLIB_IO>::T IO; Printer* p=0;
	CL_DISPATCH( app, return (mkBuf<IO,T>( page, buf, sub, n)));
	return p;
}
#if PRINTLIB_IO==0
Printer* make( int io, int page, int app, int buf, bool sub, size_t n)
{
	typedef Printer* (*F)(int,int,int,bool,size_t); static const F f[]={make_0,make_1,make_2,make_3,make_4,make_5,make_6,make_7};
	return f[io]( page, app, buf, sub, n);
}
#endif
}
