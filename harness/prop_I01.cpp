#include "scancheck.hpp"
#include <streambuf>
#include <istream>
#include <fstream>
#include <cerrno>
using namespace enc;
namespace tw=textwolf;
typedef tw::XMLScannerBase SB;
PROPERTY(I01)

// bytes one by one through the iterator; 'calls' after the end
LAW(bytes, 240000, 4000000, "more than one read and (failing read or at least 20 bytes)")
{
	unsigned n=c.size(200); std::string data; for (unsigned i=0;i<n;++i) data+=(char)c.range(0,255);
	sl::ScriptStream s( data); s.sizes=sc::genReads(c); size_t bufsize=sc::genBufsize(c); bool fail=c.flip(); static const int codes[]={5,1,-1,21,2147483647}; s.failCode=c.of(codes);
	if (fail) s.failAt=c.chance(1,2)?c.draw(4):c.draw(40);
	if (c.chance(1,3)) { static const unsigned D[]={1,2,5,16,8192}; s.failData=c.of(D); c.note( "bytes delivered by the failing read "+pbt::str(s.failData)); }
	c.note("bufsize "+pbt::str(bufsize)+" failing read "+pbt::str(s.failAt)+" data "+pbt::quote(data)); for (auto r: s.sizes) c.note("read size "+pbt::str(r));
	c.key( data+"/"+pbt::str(bufsize)+"/"+pbt::str(s.failAt)+"/"+pbt::str(s.failCode)+"/"+pbt::str(s.failData)+(s.sizes.empty()?std::string():std::string((const char*)&s.sizes[0],s.sizes.size()*4)));
	int cause=0; size_t at=0; long blocks=pbt::allocatedBlocks();
	{
		try
		{
			tw::IStreamIterator it( &s, bufsize); CHECK( !s.failed, "the first read failed and nothing was raised");
			unsigned mode=c.draw(3); bool copies=false;
			for (;at<data.size();++at)
			{
				CHECK( it.position()==(tw::PositionIndex)at, "position " << it.position() << " of byte #" << at);
				CHECK( *it==data[at], "byte #" << at << " is " << (int)(unsigned char)*it << " instead of " << (int)(unsigned char)data[at]);
				if (mode==1) CHECK( *it==data[at], "second access of byte #" << at << " differs");
				if (mode==2 && c.chance(1,8)) { tw::IStreamIterator cp( it); CHECK( *cp==data[at] && cp.position()==it.position(), "copy at byte #" << at << " differs"); it=cp; copies=true; }
				++it; CHECK( !s.failed, "read #" << s.reads-1 << " failed at byte #" << at+1 << " and nothing was raised");
			}
			for (unsigned k=c.draw(4);k;--k) { CHECK( *it==0, "byte behind the end"); CHECK( it.position()==(tw::PositionIndex)data.size(), "position " << it.position() << " at the end"); ++it; CHECK( !s.failed, "the read behind the end failed and nothing was raised"); }
		}
		catch (const tw::exception& e) { cause=e.cause; }
	}
	CHECK( (cause!=0)==s.failed, (s.failed?"a read failed but no error was raised":"an error was raised but no read failed") << ", cause " << cause << " at byte " << at);
	CHECK( cause==0 || cause==tw::throws_exception::FileReadError, "cause " << cause << " instead of the file read error");
	if (s.reads>1 && (s.failed||n>=20)) c.nontrivial();
	if (s.failed) c.label( at==0?"failed at the start":"failed later");
}

static std::string prefix( const sl::Result& r, const sl::Result& ref, bool failed, size_t nbytes)
{
	std::ostringstream o;
	if (r.endless) return "the scan does not end";
	if (failed != (r.cause!=0)) { o << (failed?"a read failed but no error was raised":"an error was raised but no read failed") << " (cause " << r.cause << ", last event " << (r.ev.empty()?std::string("none"):r.ev.back().show()) << ")"; return o.str(); }
	if (r.cause && r.cause!=tw::throws_exception::FileReadError) { o << "cause " << r.cause << " instead of the file read error"; return o.str(); }
	if (r.ev.size()>ref.ev.size()) { o << "too many events, last " << r.ev.back().show(); return o.str(); }
	for (size_t i=0;i<r.ev.size();++i)
		if (r.ev[i].type!=ref.ev[i].type || r.ev[i].value!=ref.ev[i].value || (sc::hasToken(r.ev[i].type) && ref.ev[i].tokpos+8<nbytes && r.ev[i].tokpos!=ref.ev[i].tokpos)) { o << "event #" << i << ": " << r.ev[i].show() << " instead of " << ref.ev[i].show(); return o.str(); }
	if (!r.cause && r.ev.size()!=ref.ev.size()) { o << r.ev.size() << " events instead of " << ref.ev.size(); return o.str(); }
	return "";
}
static std::string genDoc( pbt::Ctx& c, sl::Cfg& cfg)
{
	cfg.in=sc::genIn(c,&cfg.page); cfg.out=sl::outFor( sl::ISTREAM, cfg.in, sc::genOut(c,cfg.in));
	if (c.chance(1,6)) { bool well; return sc::genInput(c,cfg.in,cfg.page,well); }
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; o.big=c.chance(1,30); o.maxElems=1+c.draw(8); return encode( cfg.in, cfg.page, doc::generate(c,o).text);
}

// the library's stream interface failing at some read
LAW(own_stream, 120000, 2000000, "a read failed after at least one event")
{
	sl::Cfg cfg; std::string bytes=genDoc(c,cfg); cfg.src=sl::ISTREAM; size_t lim=4*bytes.size()+100; cfg.stepLimit=bytes.size()*8+2000;
	sl::Cfg str=cfg; str.src=sl::CSTRING; sl::Result ref=sl::scanAll( str, bytes, 0, 0, lim);
	cfg.bufsize=sc::genBufsize(c); if (c.flip()) cfg.bufsize=1+c.draw(40); cfg.reads=sc::genReads(c); cfg.iter=c.chance(1,4); cfg.ctor=c.pick({3,1});
	static const int codes[]={5,1,-1,21,2147483647}; cfg.failCode=c.of(codes);
	size_t unit=std::min<size_t>( cfg.bufsize, cfg.reads.empty()?cfg.bufsize:cfg.reads[0]), reads=bytes.size()/unit+2;
	cfg.failAt=c.chance(1,5)?-1:(int)c.draw( reads+2);
	if (c.chance(1,3)) { static const unsigned D[]={1,2,5,16,8192}; cfg.failData=c.of(D); }
	c.note( cfg.show()+" error code "+pbt::str(cfg.failCode)); c.note("input "+pbt::quote(bytes,3000)); c.key( cfg.show()+bytes);
	sl::Result r; bool failed=false;
	try
	{
		std::unique_ptr<sl::Scanner> s=sl::make( cfg, bytes); CHECK( !s->stream()->failed, "the first read failed and nothing was raised");
		for (;;)
		{
			if (r.ev.size()>lim) { r.endless=true; break; }
			sl::Event e; try { s->next( 0xFFFF, e); } catch (const tw::exception& x) { r.cause=x.cause; failed=s->stream()->failed; CHECK( failed, "exception " << r.cause << " without failing read"); break; }
			CHECK( !s->stream()->failed, "read #" << s->stream()->reads-1 << " failed but an event was delivered: " << e.show());
			r.ev.push_back(e); if (e.type==SB::Exit||e.type==SB::ErrorOccurred) break;
		}
	}
	catch (const tw::exception& e) { r.cause=e.cause; failed=true; CHECK( cfg.failAt==0, "exception " << e.cause << " on construction without failing read"); }
	if (failed && !r.ev.empty()) c.nontrivial();
	c.label( failed?"failed":"not failed");
	std::string m=prefix( r, ref, failed, bytes.size()); CHECK( m.empty(), m);
}

// standard streams: the stream buffer fails by exception after some bytes
struct TestBuf :std::streambuf
{
	std::string data; size_t pos, chunk, failPos; int kind, err; bool failed; std::vector<char> buf;
	TestBuf( const std::string& d, size_t ch, size_t fp, int k, int e):data(d),pos(0),chunk(ch),failPos(fp),kind(k),err(e),failed(false),buf(ch){}
	int_type underflow()
	{
		if (failPos!=(size_t)-1 && pos>=failPos) { failed=true; errno=err; switch (kind) { case 0: throw std::runtime_error("device"); case 1: throw std::ios_base::failure("device"); case 2: throw 17; default: throw std::bad_alloc(); } }
		size_t n=data.size()-pos; if (n>chunk) n=chunk; if (failPos!=(size_t)-1 && n>failPos-pos) n=failPos-pos;
		if (n==0) return traits_type::eof();
		memcpy( &buf[0], data.data()+pos, n); pos+=n; setg( &buf[0], &buf[0], &buf[0]+n); return traits_type::to_int_type(buf[0]);
	}
};
template <class In, class Out> static void runStd( pbt::Ctx& c, const sl::Cfg& cfg, std::istream& is, const bool& failed, sl::Result& r, size_t lim)
{
	try
	{
		tw::StdInputStream ss( is); tw::StdInputStream copy( ss); tw::IStream* use= c.flip()?&ss:&copy;
		tw::XMLScanner<tw::IStreamIterator,In,Out,std::string> x( cl::makeCs<In>(cfg.page), tw::IStreamIterator( use, cfg.bufsize));
		CHECK( !failed, "the first read failed and nothing was raised");
		for (;;)
		{
			if (r.ev.size()>lim) { r.endless=true; break; }
			sl::Event e; e.type=x.nextItem(); e.value.assign( x.getItemPtr(), x.getItemSize()); const char* t; e.err=x.getError(&t); e.tokpos=x.getTokenPosition(); if (e.type==SB::ErrorOccurred) e.value.clear();
			CHECK( !failed, "the stream failed but an event was delivered: " << e.show());
			r.ev.push_back(e); if (e.type==SB::Exit||e.type==SB::ErrorOccurred) break;
		}
	}
	catch (const tw::exception& e) { r.cause=e.cause; }
}
LAW(std_stream, 120000, 2000000, "the stream failed after at least one event")
{
	sl::Cfg cfg; std::string bytes=genDoc(c,cfg); if (cfg.in!=UTF8&&cfg.in!=UTF16BE&&cfg.in!=LATIN) { cfg.in=UTF8; doc::Opt o; o.css.push_back(UTF8); o.maxElems=4; bytes=encode( UTF8, 1, doc::generate(c,o).text); }
	cfg.out=sl::outFor( sl::ISTREAM, cfg.in, cfg.in); cfg.src=sl::CSTRING; size_t lim=4*bytes.size()+100;
	sl::Result ref=sl::scanAll( cfg, bytes, 0, 0, lim); cfg.bufsize=c.flip()?1+c.draw(40):sc::genBufsize(c);
	bool fail=c.chance(4,5); size_t fp=fail?c.draw(bytes.size()+1):(size_t)-1; int kind=c.draw(4); static const int E[]={EIO,0,EISDIR,EINTR,0}; int err=c.of(E); static const size_t CH[]={16,1,3,7,64,4096}; size_t chunk=c.of(CH);
	c.note( std::string(csName(cfg.in))+" bufsize "+pbt::str(cfg.bufsize)+" stream buffer of "+pbt::str(chunk)+(fail?" failing at byte "+pbt::str(fp)+" kind "+pbt::str(kind)+" errno "+pbt::str(err):std::string(" not failing"))); c.note("input "+pbt::quote(bytes,3000));
	c.key( bytes+pbt::str(cfg.bufsize)+"/"+pbt::str(fp)+"/"+pbt::str(kind*8+err)+"/"+pbt::str(chunk));
	TestBuf b( bytes, chunk, fp, kind, err); std::istream is( &b); errno=0; sl::Result r;
	if (cfg.in==UTF8) runStd<tw::charset::UTF8,tw::charset::UTF8>( c, cfg, is, b.failed, r, lim);
	else if (cfg.in==UTF16BE) runStd<tw::charset::UTF16BE,tw::charset::UTF16BE>( c, cfg, is, b.failed, r, lim);
	else runStd<tw::charset::IsoLatin,tw::charset::IsoLatin>( c, cfg, is, b.failed, r, lim);
	if (b.failed && !r.ev.empty()) c.nontrivial();
	c.label( b.failed?"failed":"not failed");
	std::string m=prefix( r, ref, b.failed, bytes.size()); CHECK( m.empty(), m);
}
// a file that cannot be read (a directory) and streams already in a failed state
LAW(unreadable, 400, 2000, "every case")
{
	size_t bufsize=sc::genBufsize(c); int how=c.draw(4); c.nontrivial(); c.key(pbt::str(bufsize)+"/"+pbt::str(how)); c.note("bufsize "+pbt::str(bufsize)+" kind "+pbt::str(how));
	bool raised=false; errno=0;
	try
	{
		std::ifstream f; std::istringstream s("<a>b</a>"); std::istream* is=&s;
		if (how==0) { f.open("/"); is=&f; if (!f.is_open()) throw pbt::Discard(); }
		tw::StdInputStream ss( *is);
		if (how==1) { try { s.setstate( std::ios::badbit); } catch (const std::ios_base::failure&) {} }
		if (how==2) { try { s.setstate( std::ios::failbit); } catch (const std::ios_base::failure&) {} }
		if (how==3) { try { s.setstate( std::ios::badbit|std::ios::eofbit); } catch (const std::ios_base::failure&) {} }
		errno=0;
		tw::XMLScanner<tw::IStreamIterator,tw::charset::UTF8,tw::charset::UTF8,std::string> x( tw::IStreamIterator( &ss, bufsize));
		int t=x.nextItem(); CHECK( false, "no error raised, event " << SB::getElementTypeName((SB::ElementType)t));
	}
	catch (const tw::exception& e) { raised=true; CHECK( e.cause==tw::throws_exception::FileReadError, "cause " << e.cause); }
	CHECK( raised, "no error raised");
}

// streams and buffers beyond the sizes that fit into a short number
LAW(big_buffers, 3200, 40000, "a buffer or a read of more than 65535 bytes")
{
	static const size_t B[]={65535,65536,65537,32767,32768,131072,8192,4096}; size_t n=c.chance(1,3)?c.of(B)*(1+c.draw(3))+c.draw(3):c.draw(200000), bufsize=c.flip()?c.of(B)+c.draw(2):1+c.draw(200000); uint32_t s=c.draw(1000000);
	std::string data( n, 0); for (size_t i=0;i<n;++i) { s=s*1664525u+1013904223u; data[i]=(char)(s>>24); }
	bool fail=c.chance(1,3); size_t fp=fail?c.draw(n+1):(size_t)-1; bool own=c.flip(); size_t chunk=c.flip()?bufsize:1+c.draw(150000); int kind=c.draw(4);
	std::string d=std::string(own?"own":"standard")+" stream of "+pbt::str(n)+" bytes, buffer of "+pbt::str(bufsize)+", reads of "+pbt::str(chunk)+(fail?" failing at "+pbt::str(fp):std::string()); c.note(d); c.key(d+pbt::str(s)); if (std::min( bufsize, n)>65535) c.nontrivial(); c.label( own?"own stream":"standard stream");
	struct Own :tw::IStream { const std::string& d; size_t pos, chunk, fp; bool failed; Own( const std::string& d_, size_t c_, size_t f):d(d_),pos(0),chunk(c_),fp(f),failed(false){} std::size_t read( void* b, std::size_t m){ if (fp!=(size_t)-1 && pos>=fp) { failed=true; return 0; } m=std::min( std::min( m, chunk), (fp!=(size_t)-1?fp:d.size())-pos); memcpy( b, d.data()+pos, m); pos+=m; return m; } int errorcode() const { return failed?5:0; } };
	TestBuf tb( data, chunk, fp, kind, EIO); std::istream is( &tb); Own os( data, chunk, fp); std::unique_ptr<tw::StdInputStream> ss; if (!own) ss.reset( new tw::StdInputStream( is)); tw::IStream* in= own?(tw::IStream*)&os:(tw::IStream*)ss.get(); const bool& failed= own?os.failed:tb.failed;
	int cause=0; size_t at=0;
	try
	{
		tw::IStreamIterator it( in, bufsize); CHECK( !failed, "the first read failed and nothing was raised");
		for (;at<n;++at)
		{
			if (*it!=data[at]) CHECK( false, "byte #" << at << " is " << (int)(unsigned char)*it << " instead of " << (int)(unsigned char)data[at]);
			if (at%4093==0 || at+1==n) CHECK( it.position()==(tw::PositionIndex)at, "position " << it.position() << " of byte #" << at);
			++it; if (failed) CHECK( false, "a read failed behind byte #" << at << " and nothing was raised");
		}
		for (unsigned k=2;k;--k) { CHECK( *it==0, "byte behind the end"); CHECK( it.position()==(tw::PositionIndex)n, "position " << it.position() << " at the end"); ++it; CHECK( !failed, "the read behind the end failed and nothing was raised"); }
	}
	catch (const tw::exception& e) { cause=e.cause; }
	CHECK( (cause!=0)==failed, (failed?"a read failed but no error was raised":"an error was raised but no read failed") << ", cause " << cause << " at byte " << at);
	CHECK( cause==0 || cause==tw::throws_exception::FileReadError, "cause " << cause << " instead of the file read error");
	if (failed && own) CHECK( at+1>=fp || fp==0, "error at byte " << at << " though the stream failed at " << fp);
}
