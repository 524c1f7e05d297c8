// B01: what is delivered does not depend on the buffers, stacks and iterators plugged into the templates
#include "pathlib.hpp"
#include "scancheck.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <deque>
using namespace xp; using namespace enc;
PROPERTY(B01)

// ---- output buffers of a scanner
static size_t g_fixed=0;
struct Fixed :public tw::StaticBuffer { Fixed():tw::StaticBuffer(g_fixed){} };
struct Own   // as a user would write it: own memory of exactly the size of the content, other memory after each change
{
	char* p; size_t n; Own():p(0),n(0){} ~Own(){ delete[] p; } Own( const Own& o):p(0),n(0){ set( o.p, o.n); } Own& operator=( const Own& o){ if (this!=&o) set( o.p, o.n); return *this; }
	void set( const char* q, size_t k){ char* x=k?new char[k]:0; if (k) memcpy( x, q, k); delete[] p; p=x; n=k; }
	void clear(){ delete[] p; p=0; n=0; } void push_back( char c){ char* x=new char[n+1]; if (n) memcpy( x, p, n); x[n]=c; delete[] p; p=x; ++n; } size_t size() const { return n; }
	void resize( size_t k){ char* x=k?new char[k]:0; for (size_t i=0;i<k;++i) x[i]=i<n?p[i]:0; delete[] p; p=x; n=k; }
	void append( const char* q, size_t k){ while (k--) push_back(*q++); } void resize( size_t k, char c){ size_t o=n; resize(k); for (;o<k;++o) p[o]=c; } void reserve( size_t){} void swap( Own& o){ std::swap( p, o.p); std::swap( n, o.n); } const char& back() const { return at(n-1); } const char* data() const { return p; } const char* ptr() const { return p; } void pop_back(){ resize(n-1); }
	const char& at( size_t i) const { if (i>=n) throw std::out_of_range("at"); return p[i]; } char& at( size_t i){ if (i>=n) throw std::out_of_range("at"); return p[i]; } const char& operator[]( size_t i) const { return at(i); } char& operator[]( size_t i){ return at(i); }
	typedef char value_type; typedef const char* const_iterator; const char* begin() const { return p; } const char* end() const { return p+n; } bool empty() const { return n==0; }
};
// iterator with bytes as unsigned numbers
struct UByte { const unsigned char* p; size_t n,i; UByte():p(0),n(0),i(0){} UByte( const std::string& s):p((const unsigned char*)s.data()),n(s.size()),i(0){} unsigned char operator*() const { return i<n?p[i]:0; } UByte& operator++(){ ++i; return *this; } size_t operator-( const UByte& o) const { return i-o.i; } };
namespace textwolf { template <> struct Traits<UByte> { static inline std::size_t getPosition( const UByte& s, const UByte& e){ return e.i-s.i; } }; }

struct Out { int type, err; std::string val; bool over; size_t pos; };
template <class B> static std::string bytes( const B& b){ std::string s; for (size_t i=0;i<b.size();++i) s.push_back( b[i]); return s; }
template <class B> static bool over( const B&){ return false; }
static bool over( const Fixed& b){ return b.overflow(); }
template <class B> struct ByPtr { enum {yes=1}; }; template <> struct ByPtr<std::deque<char> > { enum {yes=0}; };
template <class S, bool> struct Item { static std::string get( S& s){ return std::string( s.getItemPtr(), s.getItemSize()); } };
template <class S> struct Item<S,false> { static std::string get( S& s){ return bytes( s.getItem()); } };
template <class S, bool> struct Walk { static bool run( pbt::Ctx&, S& s, std::vector<Out>& r, size_t lim){ typename S::iterator it=s.begin(), end=s.end(); for (;it!=end && r.size()<=lim;++it) { Out o={it->type(),0,std::string(it->content(),it->size()),over(s.getItem()),s.getTokenPosition()}; if (o.type==SB::ErrorOccurred) return true; r.push_back(o); } return true; } };
template <class S> struct Walk<S,false> { static bool run( pbt::Ctx&, S&, std::vector<Out>&, size_t){ return false; } };

// how: 0 nextItem, 1 by the iterator, 2 continued with a copy before each event, 3 piece by piece
template <class In, class Out_, class B> static std::vector<Out> scan( pbt::Ctx& c, const std::string& b, int how, const std::vector<unsigned>& pieces, bool ubyte)
{
	std::vector<Out> r; size_t lim=2*b.size()+20;
	auto done=[&]( int t){ return t==SB::Exit||t==SB::ErrorOccurred||r.size()>lim; };
	if (how==3)
	{
		typedef tw::XMLScanner<tw::SrcIterator,In,Out_,B> S; S s; size_t at=0, pi=0; std::unique_ptr<char[]> keep; jmp_buf eom;
		// the source is announced as interrupted by longjmp; nothing with a destructor may live in the part that is left that way
		struct Step { static int next( S& s, jmp_buf& e){ volatile int rt=-1; if (setjmp(e)==0) rt=s.nextItem(); return rt; } };
		auto feed=[&](){ size_t k=std::min<size_t>( b.size()-at, pieces[pi++%pieces.size()]); std::unique_ptr<char[]> m( new char[k]); memcpy( m.get(), b.data()+at, k); at+=k; s.setSource( tw::SrcIterator( m.get(), k, at==b.size()?0:&eom)); keep.swap(m); };
		feed(); for (;;) { int t=Step::next( s, eom); if (t<0) { feed(); continue; } Out o={t,0,"",false,0}; if (t==SB::ErrorOccurred) o.err=s.getError(); else { o.val=Item<S,ByPtr<B>::yes>::get(s); o.over=over(s.getItem()); } r.push_back(o); if (done(t)) return r; }
	}
	if (ubyte)
	{
		typedef tw::XMLScanner<UByte,In,Out_,B> S; S s( (UByte(b)));
		for (;;) { int t=s.nextItem(); Out o={t,0,"",false,s.getTokenPosition()}; if (t==SB::ErrorOccurred) o.err=s.getError(); else { o.val=Item<S,ByPtr<B>::yes>::get(s); o.over=over(s.getItem()); } r.push_back(o); if (done(t)) return r; }
	}
	typedef tw::XMLScanner<tw::CStringIterator,In,Out_,B> S; std::unique_ptr<S> s( new S( tw::CStringIterator( b.data(), b.size())));
	if (how==1 && Walk<S,ByPtr<B>::yes>::run( c, *s, r, lim)) return r;
	for (;;)
	{
		if (how==2) { std::unique_ptr<S> n( new S( *s)); CHECK( bytes( n->getItem())==bytes( s->getItem()), "the value in the copied scanner differs"); s.swap(n); }
		int t=s->nextItem(); Out o={t,0,"",false,s->getTokenPosition()}; if (t==SB::ErrorOccurred) o.err=s->getError(); else { o.val=Item<S,ByPtr<B>::yes>::get(*s); o.over=over(s->getItem()); CHECK( o.val==bytes( s->getItem()) && o.val.size()==s->getItemSize(), "item pointer and buffer differ"); } r.push_back(o); if (done(t)) return r;
	}
}
static const char* bufName( int k){ static const char* n[]={"std::string","std::vector<char>","fixed size","user-written","std::deque<char>"}; return n[k]; }
template <class In, class Out_> static std::vector<Out> scanB( pbt::Ctx& c, int kind, const std::string& b, int how, const std::vector<unsigned>& pieces, bool ubyte)
{
	switch (kind) { case 1: return scan<In,Out_,std::vector<char> >( c, b, how, pieces, ubyte); case 2: return scan<In,Out_,Fixed>( c, b, how, pieces, ubyte); case 3: return scan<In,Out_,Own>( c, b, how, pieces, ubyte); case 4: return scan<In,Out_,std::deque<char> >( c, b, how, pieces, ubyte); default: return scan<In,Out_,std::string>( c, b, how, pieces, ubyte); }
}
LAW(scanner_buffers, 100000, 3000000, "at least two values are longer than the fixed size buffer, or at least 5 values in another kind of buffer")
{
	static const int ins[]={UTF8,UTF8,LATIN,UTF16BE,UCS4LE}, outs[]={UTF8,UTF16BE,UTF8,UTF16BE,LATIN}; unsigned combo=c.draw(5); int in=ins[combo], out=outs[combo];
	doc::Opt o; o.css.push_back(in); o.maxElems=1+c.draw(8); o.big=c.chance(1,80); doc::Doc d=doc::generate(c,o); std::string b=encode( in, 1, d.text); if (c.chance(1,8)) b.resize( c.draw( b.size()+1));
	int kind=c.pick({1,2,6,3,2}), how=c.draw(4); bool ub=how!=3 && how!=1 && how!=2 && c.flip(); g_fixed=c.flip()?c.draw(8):c.draw(40); std::vector<unsigned> pieces; if (how==3) { unsigned n=1+c.draw(3); while (n--) pieces.push_back( 1+c.draw(c.flip()?4:50)); }
	static const char* hown[]={"nextItem","the iterator","copies","pieces"}; std::string cfg=std::string(csName(in))+" -> "+csName(out)+" into "+bufName(kind)+(kind==2?" of "+pbt::str(g_fixed):"")+" by "+hown[how]+(ub?" from unsigned bytes":""); c.note( cfg); c.note( d.describe()); c.note( "input "+pbt::quote( b, 400)); c.key( cfg+b);
	sl::Cfg rc; rc.in=in; rc.out=out; rc.src=sl::CSTRING; sl::Result ref=sl::scanAll( rc, b); std::vector<Out> got;
	switch (combo) { case 0: got=scanB<tw::charset::UTF8,tw::charset::UTF8>( c, kind, b, how, pieces, ub); break; case 1: got=scanB<tw::charset::UTF8,tw::charset::UTF16BE>( c, kind, b, how, pieces, ub); break; case 2: got=scanB<tw::charset::IsoLatin,tw::charset::UTF8>( c, kind, b, how, pieces, ub); break; case 3: got=scanB<tw::charset::UTF16BE,tw::charset::UTF16BE>( c, kind, b, how, pieces, ub); break; default: got=scanB<tw::charset::UCS4LE,tw::charset::IsoLatin>( c, kind, b, how, pieces, ub); }
	bool it=how==1 && kind!=4; size_t n=ref.ev.size(); if (it && n) --n;   // the iterator ends before the end event or the error
	unsigned cut=0, vals=0; CHECK( got.size()==n, got.size() << " events instead of " << n);
	for (size_t i=0;i<n;++i)
	{
		const sl::Event& e=ref.ev[i]; const Out& g=got[i]; CHECK( g.type==e.type && g.err==e.err, "event #" << i << " is " << SB::getElementTypeName((SB::ElementType)g.type) << " error " << g.err << " instead of " << e.show());
		if (e.type==SB::ErrorOccurred) continue; if (how!=3) CHECK( g.pos==e.tokpos, "event #" << i << ": token position " << g.pos << " instead of " << e.tokpos);
		std::string v=e.value; bool ov=false; if (kind==2 && v.size()>g_fixed) { v.resize( g_fixed); ov=true; ++cut; } if (!v.empty()) ++vals;
		CHECK( g.val==v, "event #" << i << ": value " << pbt::quote( g.val, 100) << " instead of " << pbt::quote( v, 100)); CHECK( g.over==ov, "event #" << i << ": overflow " << g.over << " instead of " << ov);
	}
	if (kind==2?cut>=2:kind&&vals>=5) c.nontrivial(); c.label( bufName(kind));
}

// ---- an encoding as a user would write it: three bytes per character, high byte first, those beyond ASCII moved by a number that belongs to the object
struct Own3
{
	enum {MaxChar=0xFFFFFF,UnitSize=3}; unsigned key; Own3( unsigned k=0):key(k){}
	template <class I> static void skip( char*, unsigned int& p, I& it){ for (;p<3;++p) ++it; }
	template <class I> static void fetchbytes( char* b, unsigned int& p, I& it){ for (;p<3;++p) { b[p]=*it; ++it; } }
	static unsigned raw( const char* b){ return ((unsigned)(unsigned char)b[0]<<16)|((unsigned)(unsigned char)b[1]<<8)|(unsigned char)b[2]; }
	template <class I> static signed char asciichar( char* b, unsigned int& p, I& it){ fetchbytes( b, p, it); unsigned v=raw(b); return v>127?-1:(signed char)v; }
	template <class I> tw::UChar value( char* b, unsigned int& p, I& it) const { fetchbytes( b, p, it); unsigned v=raw(b); return v>127?v-key:v; }
	template <class B> void print( tw::UChar ch, B& b) const { unsigned v=ch>127?ch+key:ch; b.push_back( (char)(v>>16)); b.push_back( (char)(v>>8)); b.push_back( (char)v); }
	static bool is_equal( const Own3& x, const Own3& y){ return x.key==y.key; }
	std::string encode( const U32& s) const { std::string r; for (uint32_t ch: s) print( ch, r); return r; }
	std::string convert( const std::string& utf8) const { U32 u; enc::decode( UTF8, 1, utf8, u); return encode(u); }
};
template <class Scanner> static std::vector<Out> walk( Scanner& s, size_t lim){ std::vector<Out> r; for (;;) { int t=s.nextItem(); Out o={t,0,"",false,s.getTokenPosition()}; if (t==SB::ErrorOccurred) o.err=s.getError(); else o.val.assign( s.getItemPtr(), s.getItemSize()); r.push_back(o); if (t==SB::Exit||t==SB::ErrorOccurred||r.size()>lim) return r; } }
LAW(own_encoding_scanned, 60000, 2000000, "at least 5 values, one of them with a character that is not ASCII")
{
	doc::Opt o; o.css.push_back(UTF8); o.css.push_back(UTF16BE); o.maxElems=1+c.draw(8); doc::Doc d=doc::generate(c,o); U32 text=d.text; if (c.chance(1,8)) text.resize( c.draw( text.size()+1));
	Own3 k( c.flip()?0:1+c.draw(0xFFFFF)), k0; int how=c.draw(4); c.note( "own encoding with "+pbt::str(k.key)+" variant "+pbt::str(how)); c.note( d.describe()); c.key( pbt::str(k.key)+pbt::str(how)+show(text,100000));
	std::string u8=encode( UTF8, 1, text), mine=k.encode( text); sl::Cfg rc; rc.in=UTF8; rc.out=UTF8; rc.src=sl::CSTRING; sl::Result ref=sl::scanAll( rc, u8); size_t lim=2*u8.size()+20;
	// position of each UTF-8 byte in characters
	std::vector<size_t> chr( u8.size()+5, 0); size_t n=0; for (size_t i=0;i<u8.size();++i) { chr[i]=n; if (i+1==u8.size() || (u8[i+1]&0xC0)!=0x80) ++n; } for (size_t i=u8.size();i<chr.size();++i) chr[i]=n;
	std::vector<Out> got;
	switch (how)
	{
		case 0: { tw::XMLScanner<tw::CStringIterator,Own3,tw::charset::UTF8,std::string> s( k, tw::CStringIterator( mine.data(), mine.size())); got=walk( s, lim); break; }
		case 1: { tw::XMLScanner<tw::CStringIterator,Own3,Own3,std::string> s( k, tw::CStringIterator( mine.data(), mine.size())); got=walk( s, lim); break; }
		case 2: { tw::XMLScanner<tw::CStringIterator,tw::charset::UTF8,Own3,std::string> s( tw::CStringIterator( u8.data(), u8.size())); got=walk( s, lim); break; }
		default: { tw::XMLScanner<tw::SrcIterator,Own3,Own3,std::vector<char> > s( k); s.setSource( tw::SrcIterator( mine.data(), mine.size())); got=walk( s, lim); }
	}
	CHECK( got.size()==ref.ev.size(), got.size() << " events instead of " << ref.ev.size()); unsigned vals=0; bool wide=false;
	for (size_t i=0;i<got.size();++i)
	{
		const sl::Event& e=ref.ev[i]; const Out& g=got[i]; CHECK( g.type==e.type && g.err==e.err, "event #" << i << " is " << SB::getElementTypeName((SB::ElementType)g.type) << " error " << g.err << " instead of " << e.show()); if (e.type==SB::ErrorOccurred) continue;
		std::string v=how==0?e.value:k0.convert( e.value); CHECK( g.val==v, "event #" << i << ": value " << pbt::quote( g.val, 100) << " instead of " << pbt::quote( v, 100)); vals+=!v.empty(); for (char x: e.value) if (x&0x80) wide=true;
		if ((how==0 || how==1) && sc::hasToken(e.type)) CHECK( e.tokpos<chr.size() && g.pos==3*chr[e.tokpos], "event #" << i << ": token position " << g.pos << " instead of character " << chr[e.tokpos]);
	}
	if (vals>=5 && wide) c.nontrivial(); static const char* hn[]={"to UTF-8","to another of its kind","from UTF-8","from a chunk"}; c.label( hn[how]);
}
LAW(own_encoding_printed, 40000, 1000000, "at least four operations are accepted and a character that is not ASCII is printed")
{
	Own3 k( c.flip()?0:1+c.draw(0xFFFFF)), k0; bool app=c.flip(), sub=c.flip(); tw::XMLPrinter<tw::charset::UTF8,tw::charset::UTF8,std::string> p(sub); tw::XMLPrinter<Own3,tw::charset::UTF8,std::string> q( k, sub); tw::XMLPrinter<Own3,Own3,std::string> r( k, sub);
	std::string a, b; unsigned ok=0, n=2+c.draw(16); bool wide=false; std::string ops;
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); U32 v; unsigned op=i==0&&!sub?0:1+c.draw(5), l=op==3?c.draw( c.chance(1,20)?300:10):1+c.draw(6); while (l--) { static const unsigned x[]={'a','<','&','"','\n','\r','\t',0xE9,0x20AC,0x1F600,'b'}; v.push_back( op==3?c.of(x):c.chance(1,4)?0x100+c.draw(100):'a'+c.draw(26)); }
		std::string v8=encode( UTF8, 1, v), vm=k0.encode( v); bool x,y;
		#define OPERATION(NAME,...) { x=p.NAME( __VA_ARGS__ v8.data(), v8.size(), a); y=app?r.NAME( __VA_ARGS__ vm.data(), vm.size(), b):q.NAME( __VA_ARGS__ v8.data(), v8.size(), b); }
		switch (op)
		{
			case 0: x=p.printHeader( "X", 0, a); y=app?r.printHeader( "X", 0, b):q.printHeader( "X", 0, b); break;
			case 1: OPERATION(printOpenTag) break; case 2: OPERATION(printAttribute) break; case 3: OPERATION(printValue) break;
			case 4: x=p.printCloseTag( a); y=app?r.printCloseTag( b):q.printCloseTag( b); break; default: x=p.exitTagContext( a); y=app?r.exitTagContext( b):q.exitTagContext( b);
		}
		if (x && op>0 && op<4) for (uint32_t ch: v) wide=wide||ch>127; ops+=pbt::str(op)+v8+" "; ok+=x; CHECK( x==y, "operation " << op << " accepted " << x << ", in the own encoding " << y);
		CHECK( b==k.convert( a), "the output differs after operation " << op << ": " << pbt::quote( b, 300) << " instead of " << pbt::quote( k.convert(a), 300));
	}
	c.note( "own encoding with "+pbt::str(k.key)+(app?" on both sides: ":": ")+pbt::quote(ops,500)); c.key( pbt::str(k.key)+ops); if (ok>=4 && wide) c.nontrivial(); c.label( app?"both sides":"output only");
}
LAW(own_encoding_selecting, 40000, 1000000, "the expressions select at least one event of the document")
{
	Pool p=genPool( c, true); Doc d; genDoc( c, d, p, 12); typedef tw::XMLPathSelectAutomatonParser<tw::charset::UTF8,tw::charset::UTF8> PA; typedef tw::XMLPathSelectAutomatonParser<Own3,Own3> PB; PA a; PB b; Own3 k0; unsigned n=1+c.draw(3); std::string all;
	for (unsigned i=0;i<n;++i)
	{
		U32 t; unsigned l=1+c.draw(5); while (l--) { static const char* const sep[]={"/","//","/","@","//@","[@"}; enc::cat( t, c.of(sep)); bool at=t.back()=='@', cond=t.size()>1 && t[t.size()-2]=='['; if (!cond && c.chance(1,5)) t.push_back('*'); else { const std::vector<U32>& pool=at&&p.anames.size()?p.anames:p.names; U32 nm=pool[c.draw(pool.size())]; t.insert( t.end(), nm.begin(), nm.end()); } if (cond) { t.push_back('='); t.push_back('\''); if (p.values.size()) { const U32& v=p.values[c.draw(p.values.size())]; t.insert( t.end(), v.begin(), v.end()); } t.push_back('\''); t.push_back(']'); } }
		static const char* const tail[]={"","()","~"," ","[1]","[0,1]()",":"}; enc::cat( t, c.of(tail)); std::string u8=encode( UTF8, 1, t), m=k0.encode( t); bool ascii=true; for (uint32_t ch: t) ascii=ascii&&ch<128; all+=u8+"\n";
		int x=0, y=0; bool tx=false, ty=false; try { x=a.addExpression( i+1, u8.data(), u8.size()); } catch (const tw::exception&) { tx=true; } try { y=b.addExpression( i+1, m.data(), m.size()); } catch (const tw::exception&) { ty=true; }
		CHECK( tx==ty && (x==0)==(y==0), "expression " << u8 << ": " << x << (tx?" exception":"") << " against " << y << (ty?" exception":"")); if (ascii && x>0) CHECK( (y+2)/3==x || y/3==x || y==3*x || y==3*(x-1)+1, "expression " << u8 << " refused at " << x << " and in three bytes per character at " << y);
	}
	tw::XMLPathSelect<tw::charset::UTF8> sa( &a); tw::XMLPathSelect<Own3> sb( &b); size_t sel=0;
	for (size_t i=0;i<d.ev.size();++i)
	{
		std::vector<int> ra, rb; std::string ka=encode( UTF8, 1, d.ev[i].key), kb=k0.encode( d.ev[i].key); SB::ElementType ty=(SB::ElementType)d.ev[i].type;
		{ tw::XMLPathSelect<tw::charset::UTF8>::iterator it=sa.push( ty, ka), e=sa.end(); for (;it!=e;++it) ra.push_back(*it); } { tw::XMLPathSelect<Own3>::iterator it=sb.push( ty, kb), e=sb.end(); for (;it!=e;++it) rb.push_back(*it); }
		std::sort( ra.begin(), ra.end()); std::sort( rb.begin(), rb.end()); sel+=ra.size(); CHECK( ra==rb, "at event " << i << " selected " << showTypes(ra) << ", in the own encoding " << showTypes(rb) << " by\n" << all);
	}
	c.note( "expressions:\n"+all); c.note( showDoc(d)); c.key( all+showDoc(d)); if (sel) c.nontrivial();
}

// ---- stacks of a selector: elements in other memory after each push, or never moved
template <typename E> struct Moving
{
	typedef E value_type; typedef E& reference; typedef const E& const_reference; typedef std::size_t size_type; typedef E* iterator; typedef const E* const_iterator; E** dummy; std::unique_ptr<std::vector<E> > v;
	Moving():dummy(0),v(new std::vector<E>()){} Moving( const Moving& o):dummy(0),v(new std::vector<E>(*o.v)){} Moving& operator=( const Moving& o){ v.reset( new std::vector<E>(*o.v)); return *this; }
	void move( size_t cap){ std::unique_ptr<std::vector<E> > n( new std::vector<E>()); n->reserve( cap); n->assign( v->begin(), v->end()); v.swap(n); }
	void push_back( const E& e){ E x(e); move( v->size()+1); v->push_back(x); } void pop_back(){ v->pop_back(); move( v->size()); }
	E& back(){ return v->back(); } const E& back() const { return v->back(); } E& front(){ return v->front(); } E& operator[]( size_t i){ return (*v)[i]; } const E& operator[]( size_t i) const { return (*v)[i]; } E& at( size_t i){ return v->at(i); } const E& at( size_t i) const { return v->at(i); }
	size_t size() const { return v->size(); } bool empty() const { return v->empty(); } void resize( size_t n){ while (v->size()>n) v->pop_back(); while (v->size()<n) v->push_back(E()); move(n); } void clear(){ v->clear(); move(0); } void reserve( size_t){} void swap( Moving& o){ v.swap( o.v); }
	E* begin(){ return v->data(); } E* end(){ return v->data()+v->size(); } const E* begin() const { return v->data(); } const E* end() const { return v->data()+v->size(); }
};
template <typename E> struct Deque :public std::deque<E> { Deque(){} Deque( const Deque& o):std::deque<E>(o){} Deque& operator=( const Deque& o){ std::deque<E>::operator=(o); return *this; } void reserve( size_t){} };
typedef tw::XMLPathSelectAutomaton<tw::charset::UTF8> A8;
LAW(selector_stacks, 120000, 3000000, "the expressions select at least one event of the document")
{
	Pool p=genPool( c, true); Doc d; genDoc( c, d, p, 18); std::vector<Expr> ee=genExprs( c, p, d, 6, ExprOpt(), true); noteCase( c, d, ee, UTF8); c.key( keyCase(d,ee)); Result exp=expected( d, ee);
	AtmT<tw::charset::UTF8,A8,tw::XMLPathSelect<tw::charset::UTF8,Moving> > a(UTF8); AtmT<tw::charset::UTF8,A8,tw::XMLPathSelect<tw::charset::UTF8,Deque> > b(UTF8); bool dq=c.chance(1,3); Atm& m=dq?(Atm&)b:(Atm&)a;
	for (Expr& e: ee) m.add( e, 0); std::unique_ptr<Sel> s( m.sel()); size_t sel=0; unsigned copies=0;
	for (size_t i=0;i<d.ev.size();++i)
	{
		switch (c.pick({12,1,1})) { case 1: { std::unique_ptr<Sel> n( s->clone()); s.swap(n); ++copies; break; } case 2: { std::unique_ptr<Sel> n( m.sel()); n->assign( *s); s.swap(n); ++copies; break; } default: break; }
		std::vector<int> out; s->push( d.ev[i].type, evKey( UTF8, d.ev[i].key), ReadAll, out); std::sort( out.begin(), out.end()); sel+=out.size();
		CHECK( out==exp[i], "with " << (dq?"a deque":"moving elements") << " at event " << i << " " << SB::getElementTypeName((SB::ElementType)d.ev[i].type) << " '" << show(d.ev[i].key,60) << "': selected " << showTypes(out) << ", expected " << showTypes(exp[i]));
	}
	if (sel) c.nontrivial(); c.label( dq?"deque":"moving");
}

// ---- output of a printer: anything with push_back
struct Sink { std::deque<char> d; void push_back( char c){ d.push_back(c); } };
template <class IO, class App> static void prints( pbt::Ctx& c, int io, int app)
{
	typedef tw::XMLPrinter<IO,App,std::string> PS; typedef tw::XMLPrinter<IO,App,Sink> PK; typedef tw::XMLPrinter<IO,App,Own> PO; PS ps; PK pk; PO po; std::string bs; Sink bk; Own bo; unsigned n=2+c.draw(20), ok=0; std::string ops;
	auto txt=[&](){ std::string r; unsigned l=c.draw( c.chance(1,20)?300:10); while (l--) { static const unsigned x[]={'a','<','&','"','\n','\r','\t',0xE9,0x20AC,0x1F600}; unsigned ch=c.of(x); if (representable( app, 1, ch)) put( app, 1, ch, r); } return r; };
	auto nam=[&](){ std::string r; unsigned l=1+c.draw(8); while (l--) put( app, 1, 'a'+c.draw(26), r); return r; };
	for (unsigned i=0;i<n;++i)
	{
		pbt::Ctx::SpanGuard g(c); bool a=false,b=false,d=false; std::string v; unsigned k=i==0?0:1+c.draw(5);
		switch (k)
		{
			case 0: { const char* e=c.flip()?"UTF-8":0; const char* st=c.flip()?"yes":0; a=ps.printHeader( e, st, bs); b=pk.printHeader( e, st, bk); d=po.printHeader( e, st, bo); break; }
			case 1: v=nam(); a=ps.printOpenTag( v.data(), v.size(), bs); b=pk.printOpenTag( v.data(), v.size(), bk); d=po.printOpenTag( v.data(), v.size(), bo); break;
			case 2: v=nam(); a=ps.printAttribute( v.data(), v.size(), bs); b=pk.printAttribute( v.data(), v.size(), bk); d=po.printAttribute( v.data(), v.size(), bo); break;
			case 3: v=txt(); a=ps.printValue( v.data(), v.size(), bs); b=pk.printValue( v.data(), v.size(), bk); d=po.printValue( v.data(), v.size(), bo); break;
			case 4: a=ps.printCloseTag( bs); b=pk.printCloseTag( bk); d=po.printCloseTag( bo); break;
			default: a=ps.exitTagContext( bs); b=pk.exitTagContext( bk); d=po.exitTagContext( bo);
		}
		ops+=pbt::str(k)+v+" "; ok+=a; CHECK( a==b && a==d, "operation " << k << ": accepted " << a << ", " << b << ", " << d);
		CHECK( bs.size()==bk.d.size() && std::equal( bs.begin(), bs.end(), bk.d.begin()) && bs==bytes(bo), "the outputs differ: " << pbt::quote(bs,200) << " / " << pbt::quote( std::string( bk.d.begin(), bk.d.end()), 200) << " / " << pbt::quote( bytes(bo), 200));
	}
	c.note( std::string(csName(io))+" "+csName(app)+" "+pbt::quote(ops,500)); c.key( csName(io)+ops); if (ok>=4) c.nontrivial();
}
LAW(printer_buffers, 60000, 1500000, "at least four operations are accepted")
{
	switch (c.draw(4)) { case 0: prints<tw::charset::UTF8,tw::charset::UTF8>( c, UTF8, UTF8); break; case 1: prints<tw::charset::UTF16LE,tw::charset::UTF8>( c, UTF16LE, UTF8); break; case 2: prints<tw::charset::IsoLatin,tw::charset::UTF16BE>( c, LATIN, UTF16BE); break; default: prints<tw::charset::UCS2BE,tw::charset::UCS4LE>( c, UCS2BE, UCS4LE); }
}
