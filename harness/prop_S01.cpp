#include "scancheck.hpp"
using namespace enc;
PROPERTY(S01)

static void labels( pbt::Ctx& c, const doc::Doc& d)
{
	if (d.header) c.label("header"); if (d.doctypes) c.label("doctype"); if (d.comments) c.label("comment"); if (d.pis) c.label("pi"); if (d.cdatas) c.label("cdata");
	if (d.refs) c.label("references"); if (d.eols) c.label("line ends"); if (d.attrs) c.label("attributes"); if (d.maxdepth>3) c.label("depth>3"); if (d.text.size()>4000) c.label("long");
}

LAW(document, 300000, 6000000, "at least two elements or an attribute, and at least one text, reference, comment, processing instruction, section or declaration")
{
	sl::Cfg cfg; cfg.in=sc::genIn(c,&cfg.page); cfg.out=sc::genOut(c,cfg.in); sc::genSource(c,cfg);
	doc::Opt o; o.css.push_back(cfg.in); o.page=cfg.page; if (c.chance(1,10)) o.maxElems=60;
	doc::Doc d=doc::generate(c,o); labels(c,d); c.label( sl::srcName(cfg.src));
	std::string bytes=encode(cfg.in,cfg.page,d.text);
	c.note( cfg.show()); c.note( d.describe()); c.key( cfg.show()+bytes);
	if ((d.elems>1||d.attrs)&&(d.texts||d.refs||d.comments||d.pis||d.cdatas||d.doctypes)) c.nontrivial();
	sc::Expect x( d, cfg.in, cfg.page, cfg.out);
	cfg.stepLimit=bytes.size()*4+1000; unsigned extra=c.draw(4);
	sl::Result r=sl::scanAll( cfg, bytes, extra, 0, 4*bytes.size()+100);
	CHECK( !r.endless, "scanning does not come to an end");
	CHECK( r.cause==0, "exception with cause " << r.cause);
	CHECK( r.ev.size()>extra, "no end");
	std::vector<sl::Event> ev( r.ev.begin(), r.ev.end()-extra);
	std::string m=x.matchAll( ev, false); CHECK( m.empty(), m);
	for (size_t i=ev.size();i<r.ev.size();++i) CHECK( r.ev[i].type==textwolf::XMLScannerBase::Exit && r.ev[i].err==0, "after the end: " << r.ev[i].show());
	for (auto& e: ev) CHECK( e.err==0 && !e.haserrtext && e.errtext.empty(), "an error is set at event " << e.show());
}

// the default iteration of the documentation: begin()/end()
LAW(stl_iteration, 60000, 1000000, "more than 5 events")
{
	doc::Opt o; o.css.push_back(UTF8); doc::Doc d=doc::generate(c,o); std::string bytes=encode(UTF8,1,d.text); c.note(d.describe()); c.key(bytes);
	typedef textwolf::XMLScanner<textwolf::CStringIterator,textwolf::charset::UTF8,textwolf::charset::UTF8,std::string> S;
	S s( (textwolf::CStringIterator(bytes))); std::vector<sl::Event> ev; bool pre=c.flip(), lazy=c.flip();
	S::iterator it=s.begin(!lazy), e=s.end();
	if (lazy) ++it;
	for (; it!=e && ev.size()<bytes.size()*2+10; )
	{
		S::iterator cp(it), as; as=it;
		CHECK( !(it==e), "an iterator is both equal and unequal to the end");
		sl::Event x; x.type=it->type(); x.value.assign( it->content(), it->size()); 
		CHECK( cp->type()==it->type() && as->type()==it->type() && (*as).size()==it->size(), "a copied iterator shows another element");
		CHECK( std::string(it->name())==textwolf::XMLScannerBase::getElementTypeName((textwolf::XMLScannerBase::ElementType)it->type()), "name of the element");
		CHECK( it->valid(), "element " << x.show() << " is not valid: " << (it->error()?it->error():"-"));
		CHECK( it->error()==0, "element has an error text");
		ev.push_back(x);
		if (pre) ++it; else { S::iterator old=it++; CHECK( old->type()==(textwolf::XMLScannerBase::ElementType)x.type, "postincrement returns another element"); }
	}
	CHECK( it==e, "no end");
	if (ev.size()>5) c.nontrivial();
	sl::Event x; x.type=textwolf::XMLScannerBase::Exit; ev.push_back(x);
	sc::Expect ex( d, UTF8, 1, UTF8); std::string m=ex.matchAll( ev, false); CHECK( m.empty(), m);
}

static std::string eventsOf( const std::string& doc, size_t max=60)
{
	sl::Cfg cfg; sl::Result r=sl::scanAll( cfg, doc, 0, 0, max); std::string s;
	for (auto& e: r.ev) { s+=textwolf::XMLScannerBase::getElementTypeName((textwolf::XMLScannerBase::ElementType)e.type); if (!e.value.empty()) s+="("+e.value+")"; s+=" "; }
	return s;
}
PROBE(cdata_dropped) { what="the content of a marked section is not delivered: <a><![CDATA[x]]></a>"; return eventsOf("<a><![CDATA[x]]></a>")=="OpenTag(a) CloseTag(a) Exit "; }
PROBE(space_after_comment) { what="white space following a comment in an element is dropped: <a>x<!--c--> y</a>"; return eventsOf("<a>x<!--c--> y</a>")=="OpenTag(a) Content(x) Content(y) CloseTag(a) Exit "; }
PROBE(pi_first) { what="a processing instruction at the start of a document without XML declaration is taken for a broken header: <?p x?><a/>"; return eventsOf("<?p x?><a/>")=="ErrorOccurred "; }
PROBE(bracket_in_subset) { what="a closing bracket in a literal or comment of the internal DTD subset ends the subset: <!DOCTYPE a [<!--]\"-->]><a/>"; return eventsOf("<!DOCTYPE a [<!--]\"-->]><a/>")!="DocAttribValue(DOCTYPE) DocAttribValue(a) DocAttribEnd OpenTag(a) CloseTagIm Exit "; }
