#include "engine.hpp"
#include "charlib.hpp"
#include "textwolf.hpp"
#include <memory>
#include <set>
namespace tw=textwolf;
using namespace enc;
PROPERTY(R01)
typedef tw::throws_exception TE;
typedef tw::XMLScannerBase SB;

// the names the enumerators have in the documentation
#define V(X) { #X, TE::X }
static const struct { const char* name; TE::Cause v; } causes[]={V(Unknown),V(DimOutOfRange),V(StateNumbersNotAscending),V(InvalidParamState),V(InvalidParamChar),V(DuplicateStateTransition),V(InvalidState),V(IllegalParam),V(IllegalAttributeName),V(OutOfMem),V(ArrayBoundsReadWrite),V(NotAllowedOperation),V(FileReadError),V(IllegalXmlHeader),V(InvalidTagOffset),V(CorruptTagStack),V(CodePageIndexNotSupported)};
#undef V
static const unsigned NC=sizeof(causes)/sizeof(causes[0]);
#define V(X) { #X, SB::X }
static const struct { const char* name; SB::ElementType v; } events[]={V(None),V(ErrorOccurred),V(HeaderStart),V(HeaderAttribName),V(HeaderAttribValue),V(HeaderEnd),V(DocAttribValue),V(DocAttribEnd),V(TagAttribName),V(TagAttribValue),V(OpenTag),V(CloseTag),V(CloseTagIm),V(Content),V(Exit)};
static const struct { const char* name; SB::STMState v; } states[]={V(START),V(STARTTAG),V(XTAG),V(PITAG),V(PITAGEND),V(XTAGEND),V(XTAGDONE),V(XTAGAISK),V(XTAGANAM),V(XTAGAESK),V(XTAGAVSK),V(XTAGAVID),V(XTAGAVSQ),V(XTAGAVDQ),V(XTAGAVQE),V(DOCSTART),V(CONTENT),V(TOKEN),V(SEEKTOK),V(XMLTAG),V(OPENTAG),V(CLOSETAG),V(TAGCLSK),V(TAGAISK),V(TAGANAM),V(TAGAESK),V(TAGAVSK),V(TAGAVID),V(TAGAVSQ),V(TAGAVDQ),V(TAGAVQE),V(TAGCLIM),V(ENTITYSL),V(ENTITY),V(ENTITYE),V(ENTITYID),V(ENTITYSQ),V(ENTITYDQ),V(ENTITYLC),V(COMDASH2),V(COMSEEKE),V(COMENDD2),V(COMENDCL),V(CDATA),V(CDATA1),V(CDATA2),V(CDATA3),V(EXIT)};
static const struct { const char* name; SB::STMAction v; } actions[]={V(Return),V(ReturnWord),V(ReturnContent),V(ReturnIdentifier),V(ReturnSQString),V(ReturnDQString),V(ExpectIdentifierXML),V(ExpectIdentifierCDATA),V(ReturnEOF)};
#undef V
typedef tw::XMLPathSelectAutomaton<> Atm;
#define V(X) { #X, Atm::X }
static const struct { const char* name; Atm::Operation v; } ops[]={V(Content),V(OpenTag),V(CloseTag),V(Attribute),V(ThisAttributeValue),V(AttributeValue),V(ContentStart)};
#undef V
static const char* clName( int cc){ static const char* n[]={"Undef","EndOfText","EndOfLine","Cntrl","Space","Amp","Lt","Equal","Gt","Slash","Dash","Exclam","Questm","Sq","Dq","Osb","Csb","Any"}; return n[cc]; }
// what each scanner error text has to speak of
static const struct { SB::Error e; const char* words[4]; } errors[]={
	{SB::ErrIllegalDocumentAttributeDef,{"document","attribute"}},{SB::ErrExpectedOpenTag,{"expected","open","tag"}},{SB::ErrExpectedXMLTag,{"expected","xml","tag"}},
	{SB::ErrUnexpectedEndOfText,{"unexpected","end","text"}},{SB::ErrSyntaxToken,{"syntax","token"}},{SB::ErrStringNotTerminated,{"string","terminated"}},
	{SB::ErrUndefinedCharacterEntity,{"undefined","entity"}},{SB::ErrExpectedTagEnd,{"expected","tag","end"}},{SB::ErrExpectedEqual,{"expected","equal"}},
	{SB::ErrExpectedTagAttribute,{"expected","tag","attribute"}},{SB::ErrExpectedCDATATag,{"expected","cdata"}},{SB::ErrInternal,{"internal"}},
	{SB::ErrUnexpectedEndOfInput,{"unexpected","end","input"}},{SB::ErrExpectedEndOfLine,{"expected","end","line"}},{SB::ErrExpectedDash2,{"expected","-"}}};
static std::string lower( const std::string& s){ std::string r; for (char ch: s) r+=(char)tolower((unsigned char)ch); return r; }

ENUM_LAW(names,17+15+15+48+9+7+18,"every code")
{
	c.nontrivial(); unsigned i=c.index();
	if (i<17)
	{
		tw::exception e( causes[i].v); c.note(causes[i].name); CHECK( e.what() && std::string(e.what())==causes[i].name, "what() of " << causes[i].name << " is " << (e.what()?e.what():"NULL"));
		for (unsigned k=0;k<NC;++k)
		{
			tw::exception o( causes[k].v); CHECK( k==i || std::string(o.what())!=e.what(), "same text of " << causes[i].name << " and " << causes[k].name);
			tw::exception cp( e); CHECK( cp.cause==e.cause && std::string(cp.what())==e.what(), "copy of " << causes[i].name);
			o=e; CHECK( o.cause==causes[i].v && std::string(o.what())==causes[i].name, "assignment of " << causes[i].name << " to " << causes[k].name << " gives " << o.what());
			o=o; CHECK( o.cause==causes[i].v, "self assignment");
			bool caught=false; try { try { throw tw::exception( causes[i].v); } catch (const std::runtime_error& x) { CHECK( std::string(x.what())==causes[i].name, "caught as standard exception: " << x.what()); throw; } } catch (const tw::exception& x) { caught=true; CHECK( x.cause==causes[i].v, "rethrown cause"); } CHECK( caught, "lost");
		}
		return;
	}
	i-=17;
	if (i<15)
	{
		const char* s=SB::getErrorString( errors[i].e); CHECK( s && *s, "no text for error " << errors[i].e); c.note(s);
		for (const char* w: errors[i].words) if (w) CHECK( lower(s).find(w)!=std::string::npos, "text '" << s << "' of error " << errors[i].e << " does not speak of '" << w << "'");
		for (auto& o: errors) if (o.e!=errors[i].e) CHECK( std::string(s)!=SB::getErrorString(o.e), "same text of errors " << o.e << " and " << errors[i].e);
		CHECK( SB::getErrorString( SB::Ok)==0, "text for no error");
		return;
	}
	i-=15;
	#define NAME(TAB,N,FN) if (i<N) { CHECK( std::string(FN(TAB[i].v))==TAB[i].name, "name of " << TAB[i].name << " is " << FN(TAB[i].v)); c.note(TAB[i].name); return; } i-=N;
	NAME(events,15,SB::getElementTypeName) NAME(states,48,SB::getStateString) NAME(actions,9,SB::getActionString) NAME(ops,7,Atm::operationName)
	#undef NAME
	CHECK( std::string(tw::ControlCharacterM::name( (tw::ControlCharacter)i))==clName(i), "name of control character class " << i << " is " << tw::ControlCharacterM::name((tw::ControlCharacter)i));
	c.note( clName(i));
}

// each syntax error has the code documented for it
static std::string name( pbt::Ctx& c){ std::string s; unsigned n=1+c.draw(5); for (unsigned i=0;i<n;++i) s+=(char)('a'+c.draw(26)); return s; }
static std::string sp( pbt::Ctx& c, bool atleast=false){ std::string s; unsigned n=(atleast?1:0)+c.draw(2); for (unsigned i=0;i<n;++i) s+=" \n\t\r"[c.draw(4)]; return s; }
template <class CS> static void scanErr( pbt::Ctx& c, const std::string& bytes, int code, const std::string& shown)
{
	typedef tw::XMLScanner<tw::CStringIterator,CS,CS,std::string> S; S sc( tw::CStringIterator( bytes.data(), (unsigned)bytes.size()));
	for (size_t n=0;;++n)
	{
		CHECK( n<bytes.size()+10, "no end");
		SB::ElementType t=sc.nextItem(); const char* txt="untouched"; 
		if (t!=SB::ErrorOccurred) { SB::Error e=sc.getError(&txt); CHECK( e==SB::Ok && txt==0, "error " << e << " pending after the event " << SB::getElementTypeName(t)); CHECK( t!=SB::Exit, "no error in " << shown << ", expected error " << code); continue; }
		SB::Error e=sc.getError( c.flip()?&txt:0); if (std::string(txt?txt:"")!="untouched") CHECK( txt && txt==SB::getErrorString(e) , "text returned with error " << e << " is not its text");
		CHECK( (int)e==code, "error " << e << " (" << (SB::getErrorString(e)?SB::getErrorString(e):"NULL") << ") instead of " << code << " (" << SB::getErrorString((SB::Error)code) << ") for " << shown);
		txt="untouched"; e=sc.getError(&txt); CHECK( e==SB::Ok && txt==0, "the error is reported again");
		break;
	}
}
LAW(syntax, 800000, 8000000, "the error is inside the root element or behind at least one event")
{
	std::string pre, post; bool hdr=c.flip(); if (hdr) pre="<?xml version='1.0'"+sp(c)+"?>"+sp(c);
	std::string root; unsigned depth=1+c.draw(3); for (unsigned i=0;i<depth;++i) { root+="<"+name(c)+(c.flip()?" k='v'":"")+">"; if (c.flip()) root+=name(c); }
	std::string bad; int code; bool inroot=true; 
	switch (c.draw(25))
	{
		case 0: pre=""; hdr=false; inroot=false; bad=sp(c)+name(c); code=SB::ErrExpectedOpenTag; break;
		case 1: pre=""; hdr=false; inroot=false; { static const char* C[]={"xyz","abc","xm","XML","xmx"}; bad=std::string("<?")+c.of(C); code=SB::ErrSyntaxToken; if (bad=="<?xm") bad+=" "; } break;
		case 2: pre=""; hdr=false; inroot=false; { static const char* C[]={"=","'","<","/","!"}; bad=std::string("<?xml")+c.of(C); code=SB::ErrExpectedXMLTag; } break;
		case 3: bad="<"+name(c)+" "+name(c)+sp(c); { static const char* C[]={">","'","<","!"}; bad+=c.of(C); } code=SB::ErrExpectedEqual; break;
		case 4: bad="<"+name(c)+" "+name(c)+" "+name(c)+"='x'>"; code=SB::ErrExpectedEqual; break;
		case 5: bad="<"+name(c)+" "+name(c)+"="+sp(c)+(c.flip()?"'":"\"")+name(c); code=SB::ErrStringNotTerminated; post=""; pre+=root; c.nontrivial(); root=""; inroot=false; break;
		case 6: bad="<"+name(c)+" "+name(c)+"=\"x\""+(c.flip()?name(c):"<"); code=SB::ErrExpectedTagAttribute; break;
		case 7: { static const char* C[]={"\"","'","<","=","!","?","[","]"}; bad="<"+name(c)+c.of(C); code=SB::ErrExpectedTagAttribute; break; }
		case 8: { static const char* C[]={" b","/","<","=","\""}; bad="</"+name(c)+c.of(C); code=SB::ErrExpectedTagEnd; break; }
		case 9: { static const char* C[]={"b","/","<","=","'"}; bad="<"+name(c)+(c.flip()?" a='b'":"")+"/"+c.of(C); code=SB::ErrExpectedTagEnd; break; }
		case 10: pre=""; hdr=false; inroot=false; bad="<?xml version='1.0'?"+sp(c)+(c.flip()?"x":"<"); code=SB::ErrExpectedTagEnd; c.nontrivial(); break;
		case 11: { static const char* C[]={"x"," ",">","<","'"}; bad=std::string("<!-")+c.of(C); code=SB::ErrExpectedDash2; break; }
		case 12: { static const char* C[]={" ","]","<","x"}; bad=std::string("<![CDATA")+c.of(C); code=SB::ErrExpectedCDATATag; break; }
		case 13: { static const char* C[]={"CDAT[","cdata[","CDATX[","INCLUDE[","["}; bad=std::string("<![")+c.of(C); code=SB::ErrSyntaxToken; break; }
		case 14: bad=(c.flip()?"x":"")+std::string("&un")+name(c)+";"; code=SB::ErrUndefinedCharacterEntity; break;
		case 15: bad="<a b='&un"+name(c)+";'/>"; code=SB::ErrUndefinedCharacterEntity; break;
		case 16: inroot=false; { static const char* C[]={"=","/","!","<"}; bad="<!DOCTYPE "+name(c)+c.of(C); code=SB::ErrIllegalDocumentAttributeDef; c.nontrivial(); } break;
		case 17: inroot=false; bad="<!DOCTYPE "+name(c)+" SYSTEM "+(c.flip()?"'":"\"")+name(c); code=SB::ErrStringNotTerminated; c.nontrivial(); break;
		case 18: bad="<!--"+sp(c)+name(c); bad+=c.flip()?"-":c.flip()?"--":""; code=SB::ErrUnexpectedEndOfText; pre+=root; root=""; inroot=false; c.nontrivial(); post=""; break;
		case 19: bad="<?"+name(c)+(c.flip()?"?":" "); code=SB::ErrUnexpectedEndOfText; pre+=root; root=""; inroot=false; c.nontrivial(); break;
		case 20: bad="<![CDATA["+name(c)+(c.flip()?"]":c.flip()?"]]":""); code=SB::ErrUnexpectedEndOfText; pre+=root; root=""; inroot=false; c.nontrivial(); break;
		case 21: inroot=false; bad="<!DOCTYPE "+name(c)+" [ <!ENTITY x 'y'>"; code=SB::ErrUnexpectedEndOfText; c.nontrivial(); break;
		case 22: pre=""; hdr=false; inroot=false; bad="<?xml version"+sp(c,true)+"'1.0'?>"; code=SB::ErrExpectedEqual; c.nontrivial(); break;
		case 23: pre=""; hdr=false; inroot=false; bad="<?xml version='1.0'standalone='yes'?>"; code=SB::ErrExpectedTagAttribute; c.nontrivial(); break;
		default: pre=""; hdr=false; inroot=false; bad="<?xml version="+sp(c)+"'1.0?>"; code=SB::ErrStringNotTerminated; c.nontrivial(); break;
	}
	if (inroot) { c.nontrivial(); pre+=root; if (c.flip()) { static const char* P[]={" ","x","</a>","<b/>"}; if (code!=SB::ErrStringNotTerminated) post=c.of(P); } }
	std::string text=pre+bad+post; int cs=c.draw(enc::NofCs); std::string bytes=encode( cs, 1, u32(text)); c.key( text+csName(cs)); c.note( std::string(csName(cs))+": "+pbt::quote(text)); c.label( SB::getErrorString((SB::Error)code));
	CL_DISPATCH( cs, scanErr<T>( c, bytes, code, pbt::quote(text)));
}

template <class F> static int causeOf( F f){ try { f(); } catch (const tw::exception& e) { return e.cause; } return -1; }
static const char* cname( int x){ return x<0?"no exception":x<(int)NC?causes[x].name:"?"; }
#define RAISES(STMT,CAUSE,WHAT) do { int pbt_c=causeOf([&](){ STMT; }); CHECK( pbt_c==(int)(CAUSE), WHAT << " raises " << cname(pbt_c) << " instead of " << cname(CAUSE)); } while(0)

// building an automaton: each rule violation has its cause, everything else is accepted
LAW(statemachine, 500000, 6000000, "at least one operation is refused and the machine has states")
{
	std::unique_ptr<tw::ScannerStatemachine> m( new tw::ScannerStatemachine()); unsigned n=0; struct St { std::map<int,int> next; bool other=false, action=false, miss=false, fall=false; int actop=0, actarg=0, misserr=0, falls=0; unsigned cnt=0; }; std::vector<St> st; bool refused=false; std::string log;
	unsigned nops=1+c.size(90); if (c.chance(1,4)) for (;n<62;++n) { (*m)[n]; st.push_back(St()); }
	for (unsigned i=0;i<nops;++i)
	{
		pbt::Ctx::SpanGuard g(c); int want=-1, got; std::ostringstream d; St* s=n?&st.back():0;
		switch (c.pick({8,6,2,2,2,2,1}))
		{
			case 0: { int idx=c.chance(1,5)?(int)c.draw(70)-2:(int)n; d << "[" << idx << "]"; want=idx!=(int)n?TE::StateNumbersNotAscending:n>=64?TE::DimOutOfRange:-1; got=causeOf([&](){ (*m)[idx]; }); if (want<0) { ++n; st.push_back(St()); } break; }
			case 1:
			{
				int ch=c.chance(1,10)?(int)tw::NofControlCharacter+(int)c.draw(3):(int)c.draw(tw::NofControlCharacter); int ns=c.chance(1,8)?(c.flip()?-1-(int)c.draw(3):65+(int)c.draw(9)):(int)c.draw(64); bool self=c.chance(1,5)&&n; if (self) ns=n-1;
				d << "(" << (ch<(int)tw::NofControlCharacter?clName(ch):"invalid class") << "," << ns << ")";
				want=!n?TE::InvalidState:ch>=(int)tw::NofControlCharacter?TE::InvalidParamChar:(ns<0||ns>64)?TE::InvalidParamState:(s->next.count(ch))?TE::DuplicateStateTransition:-1;
				if (self) got=causeOf([&](){ (*m)( (tw::ControlCharacter)ch); }); else got=causeOf([&](){ (*m)( (tw::ControlCharacter)ch, ns); });
				if (want<0) s->next[ch]=ns; break;
			}
			case 2: { int ns=c.chance(1,6)?(c.flip()?-1:65):(int)c.draw(64); d << ".other(" << ns << ")"; want=!n?TE::InvalidState:(ns<0||ns>64)?TE::InvalidParamState:-1; got=causeOf([&](){ m->other(ns); }); if (want<0) for (int k=0;k<(int)tw::NofControlCharacter;++k) if (k!=(int)tw::EndOfText && !s->next.count(k)) s->next[k]=ns; break; }
			case 3: { int op=c.draw(9), arg=c.draw(15); d << ".action(" << op << "," << arg << ")"; want=!n||s->action?TE::InvalidState:-1; got=causeOf([&](){ m->action(op,arg); }); if (want<0) { s->action=true; s->actop=op; s->actarg=arg; } break; }
			case 4: { int e=c.draw(16); d << ".miss(" << e << ")"; want=!n||s->miss?TE::InvalidState:-1; got=causeOf([&](){ m->miss(e); }); if (want<0) { s->miss=true; s->misserr=e; } break; }
			case 5: { int ns=c.chance(1,6)?(c.flip()?-1:65):(int)c.draw(64); d << ".fallback(" << ns << ")"; bool badarg=ns<0||ns>64; bool badstate=!n||s->fall; got=causeOf([&](){ m->fallback(ns); }); want=badstate?TE::InvalidState:badarg?TE::InvalidParamState:-1; if (badstate&&badarg&&n&&got==TE::InvalidParamState) want=got; if (want<0) { s->fall=true; s->falls=ns; } break; }
			default: { int idx=c.chance(1,3)?(int)n+1+(int)c.draw(9):n?(int)c.draw(n):-1; if (c.chance(1,8)) idx=-1; d << ".get(" << idx << ")"; want=idx<0||idx>(int)n?TE::InvalidState:-1; tw::ScannerStatemachine::Element* e=0; got=causeOf([&](){ e=m->get(idx); });
				if (want<0 && got<0) for (int k=0;k<(int)tw::NofControlCharacter;++k) { int x=st[idx].next.count(k)?st[idx].next[k]:-1; CHECK( e->next[k]==x, "transition of state " << idx << " on " << clName(k) << " is " << (int)e->next[k] << " instead of " << x); CHECK( (e->fallbackState!=-1)==st[idx].fall && (!st[idx].fall||e->fallbackState==st[idx].falls), "fallback of state " << idx); CHECK( (e->missError!=-1)==st[idx].miss && (!st[idx].miss||e->missError==st[idx].misserr), "miss of state " << idx); CHECK( (e->action.op!=-1)==st[idx].action && (!st[idx].action||(e->action.op==st[idx].actop&&e->action.arg==st[idx].actarg)), "action of state " << idx); } }
		}
		c.note( d.str()+(want<0?"":std::string(" -> ")+cname(want))); log+=d.str();
		CHECK( got==want, d.str() << " with " << n << " states raises " << cname(got) << " instead of " << cname(want)); if (want>=0) { refused=true; c.label( cname(want)); }
	}
	if (refused && n) c.nontrivial(); c.key(log);
}

struct FailStream :public tw::IStream { unsigned n, failAt; FailStream( unsigned f):n(0),failAt(f){} virtual std::size_t read( void* b, std::size_t k){ if (n++>=failAt) return 0; memset(b,'<',k); return k; } virtual int errorcode() const { return n>failAt?5:0; } };
struct BadBuf :public std::streambuf { virtual int_type underflow(){ throw std::runtime_error("x"); } };
LAW(operations, 200000, 2000000, "every case")
{
	c.nontrivial(); unsigned k=c.draw(9); c.label(pbt::str(k)); std::ostringstream key; key << k;
	switch (k)
	{
		case 0: { unsigned n=c.draw(50), f=n?c.draw(n+1):0, at=f+c.draw(100); tw::StaticBuffer b(n); for (unsigned i=0;i<f;++i) b.push_back('x'); const tw::StaticBuffer& cb=b; key << "/" << n << "/" << f << "/" << at; RAISES( b.at(at), TE::DimOutOfRange, "StaticBuffer::at(" << at << ") of " << f); RAISES( cb[at], TE::DimOutOfRange, "StaticBuffer[" << at << "] of " << f); if (f) RAISES( b.at(f-1), -1, "StaticBuffer::at in range"); break; }
		case 1: { unsigned idx=c.flip()?c.draw(40):c.draw(0); key << "/" << idx; int want=idx>=1&&idx<=9?-1:(int)TE::CodePageIndexNotSupported; RAISES( tw::charset::IsoLatin x(idx), want, "code page " << idx); break; }
		case 2: { unsigned at=c.draw(4), sz=1+c.draw(9); key << "/" << at << "/" << sz; FailStream s(at); RAISES( tw::IStreamIterator it( &s, sz); for (unsigned i=0;i<200;++i) { *it; ++it; }, TE::FileReadError, "reading from a failing stream"); break; }
		case 3: { BadBuf bb; std::istream is(&bb); tw::StdInputStream s( is); unsigned sz=1+c.draw(99); key << "/" << sz; RAISES( tw::IStreamIterator it( &s, sz); *it; ++it; *it, TE::FileReadError, "reading from a failing std::istream"); break; }
		case 4: { unsigned z=5+c.draw(20), before=c.draw(12); std::string h=std::string("<?xml version=").substr(0,before)+std::string(z,'\0')+"<"; tw::XmlHdrParser p; unsigned cut=c.draw(h.size()+1); key << "/" << z << "/" << before << "/" << cut; RAISES( p.putInput(h.data(),cut); if (!p.parse()&&!p.lasterror()) { p.putInput(h.data()+cut,h.size()-cut); p.parse(); }, TE::IllegalXmlHeader, "header with " << z << " zero bytes"); break; }
		case 5: { unsigned z=c.draw(4); std::string h=std::string("<?xml ")+std::string(z,'\0')+"version='1.0'?>"; key << "/" << z; tw::XmlHdrParser p; p.putInput(h.data(),h.size()); RAISES( p.parse(), -1, "header with " << z << " zero bytes"); break; }
		case 6: { unsigned a=c.draw(20), b=c.draw(20), n=20; std::string s(40,'x'); key << "/" << a << "/" << b; tw::SrcIterator i( s.data(), n), j( s.data(), n), o( s.data(), n+10); for (unsigned x=0;x<a;++x) ++i; for (unsigned x=0;x<b;++x) ++j; RAISES( CHECK( i-j==a-b, "difference " << (i-j)), a>=b?-1:(int)TE::IllegalParam, "difference of source iterators at " << a << " and " << b); RAISES( o-j, TE::IllegalParam, "difference of iterators on different sources"); break; }
		case 7:
		{
			// names of path expressions that cannot be taken as they are passed, in every position where a name is passed
			static const char* E[]={"&x;","&nosuch;","a&b","&#12a;","&#xg;","&#;","&#x;","&#0;","&#x0;","&#4294967295;","&#xFFFFFFFF;","&#x1ffffffff;","&#99999999999999999999;","&#x123456789abcdef01;","&#65","&#x41","&","&#","&;","&#65 ;","&#-1;","&#X41;","a&#6 5;","&#18446744073709551681;"};
			static const char* W[]={"a b","x/y","[","a]","k=v","a>","\"a\"","!","<a","a?","'"}; static const char* G[]={"a","tag-2","x_1","p:q","A.b","&#65;","&#x41;","&#0065;b","a&#x2F;b","&#x7f;","&#60;","&#x7FFFFFFF;","&#xaBc;"};
			bool bad=c.chance(2,3); bool ent=bad&&c.flip(); std::string n=ent?c.of(E):bad?c.of(W):c.of(G); if (c.flip()) n=name(c)+n; if (c.chance(1,4)) n+=bad&&n[n.size()-1]!=';'?"=":"z"; const char* nm=n.c_str(); unsigned w=c.draw(ent||!bad?5:4); static const char* F[]={"[]","()","(,)","/[]","(x,value)"}; key << "/" << F[w] << nm; c.label( bad?"bad name":"good name");
			typedef tw::XMLPathSelectAutomaton<> A; A atm;
			RAISES( if (w==0) (*atm)[nm]=1; else if (w==1) (*atm)["r"](nm)=1; else if (w==2) (*atm)["r"](nm,"v")=1; else if (w==4) (*atm)["r"]("x",nm)=1; else (*atm)["r"]--[nm]=1, bad?(int)TE::IllegalAttributeName:-1, "the name " << pbt::quote(nm) << " passed by " << F[w]); break;
		}
		default: { tw::TagStack s; unsigned n=c.draw(9); for (unsigned i=0;i<n;++i) s.push("abcdefghijkl",c.draw(12)); key << "/" << n; RAISES( for (unsigned i=0;i<n+3;++i) s.pop(), -1, "popping " << n+3 << " of " << n << " tags"); }
	}
	c.key( key.str()); c.note( key.str());
}
