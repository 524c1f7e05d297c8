// I02: the source iterators of the library as sequences of bytes
#include "scanlib.hpp"
#include "scancheck.hpp"
namespace tw=textwolf;
PROPERTY(I02)

static std::string genBytes( pbt::Ctx& c, unsigned max, bool nul=true)
{
	unsigned n=c.chance(1,300)?c.range(8000,70000):c.size(max); std::string s; unsigned rnd=std::min(n,300u);
	for (unsigned i=0;i<rnd;++i) s+=(char)(c.flip()?c.range('a','z'):c.range(nul?0:1,255)); for (unsigned i=rnd;i<n;++i) s+=(char)('a'+i*7%26); return s;
}
struct Heap { std::unique_ptr<char[]> p; size_t n; explicit Heap( const std::string& s, bool nul=false):p(new char[s.size()+nul]),n(s.size()){ memcpy( p.get(), s.data(), n); if (nul) p[n]=0; } };

LAW(string, 500000, 12000000, "at least two iterators, one of them read behind the end or moved")
{
	std::vector<std::string> txt; std::vector<std::unique_ptr<Heap> > mem; std::vector<int> how; unsigned nt=1+c.draw(2);
	for (unsigned i=0;i<nt;++i) { int h=c.draw(3); std::string s=genBytes( c, 40, h!=1); txt.push_back(s); how.push_back(h); mem.emplace_back( new Heap( s, h==1)); c.note( "text "+pbt::str(i)+" given "+(h==0?"with size":h==1?"null terminated":"as std::string")+" "+pbt::quote(s,300)); }
	struct M { size_t t; uint64_t i; }; std::vector<tw::CStringIterator> it; std::vector<M> m; it.reserve(8); std::string log; bool beyond=false, moved=false;
	auto mk=[&]( size_t t)->tw::CStringIterator { if (how[t]==0) return tw::CStringIterator( mem[t]->p.get(), (unsigned)mem[t]->n); if (how[t]==1) return tw::CStringIterator( mem[t]->p.get()); return tw::CStringIterator( txt[t]); };
	for (unsigned i=0;i<nt;++i) { it.push_back( mk(i)); M x={i,0}; m.push_back(x); }
	unsigned n=1+c.size(80);
	for (unsigned k=0;k<n;++k)
	{
		pbt::Ctx::SpanGuard g(c); size_t j=c.draw( it.size()), o=c.draw( it.size()); const std::string& s=txt[m[j].t]; std::ostringstream d; d << "#" << j;
		switch (c.pick({8,8,3,2,2,2,3,1}))
		{
			case 0: { char w=m[j].i<s.size()?s[m[j].i]:0; d << " *"; char v=*it[j]; if (m[j].i>=s.size()) beyond=true; CHECK( v==w, d.str() << " byte " << m[j].i << " is " << (int)(unsigned char)v << " instead of " << (int)(unsigned char)w << " after" << log); break; }
			case 1: { unsigned r=c.chance(1,4)?1+c.draw(50):1; d << " ++ x" << r; while (r--) { tw::CStringIterator& x=++it[j]; CHECK( &x==&it[j], "++ returns another iterator"); ++m[j].i; } break; }
			case 2: d << " pos()"; CHECK( it[j].pos()==m[j].i, d.str() << " is " << it[j].pos() << " instead of " << m[j].i << " after" << log); break;
			case 3: { unsigned p=c.flip()?c.draw( s.size()+3):c.chance(1,4)?c.draw(0):c.draw(20); d << " pos(" << p << ")"; it[j].pos( p); m[j].i=p<s.size()?p:s.size(); CHECK( it[j].pos()==m[j].i, d.str() << " gives position " << it[j].pos() << " instead of " << m[j].i); moved=true; break; }
			case 4: if (it.size()<6) { d << " copied"; it.push_back( it[j]); m.push_back( m[j]); } break;
			case 5: d << "=#" << o; it[j]=it[o]; m[j]=m[o]; break;
			case 6: { long w= m[j].t==m[o].t?(long)m[j].i-(long)m[o].i:0; d << "-#" << o; if (m[j].t==m[o].t || mem[m[j].t]->n && mem[m[o].t]->n) CHECK( (it[j]-it[o])==w, d.str() << " is " << (it[j]-it[o]) << " instead of " << w); break; }
			default: d << " anew"; it[j]=mk( m[j].t); m[j].i=0;
		}
		log+=" "+d.str(); c.note( d.str());
	}
	// everything that is left
	for (size_t j=0;j<it.size();++j) { const std::string& s=txt[m[j].t]; if (m[j].i>=s.size()) beyond=true; for (unsigned k=0; m[j].i<s.size() || k<3; ++m[j].i) { k+=m[j].i>=s.size(); char w=m[j].i<s.size()?s[m[j].i]:0; CHECK( *it[j]==w, "#" << j << " byte " << m[j].i << " is " << (int)(unsigned char)*it[j] << " instead of " << (int)(unsigned char)w << " in the end"); CHECK( it[j].pos()==m[j].i, "#" << j << " position"); ++it[j]; } }
	{ tw::CStringIterator e; CHECK( *e==0 && e.pos()==0, "an empty iterator does not deliver null"); ++e; CHECK( *e==0, "an empty iterator does not deliver null"); }
	std::string key=log; for (auto& t: txt) key+=t+"|"; c.key( key); if (it.size()>1 && (beyond||moved)) c.nontrivial(); if (beyond) c.label("behind the end");
}

// true: byte delivered; false: more input asked for
static bool deref( tw::SrcIterator& it, jmp_buf& eom, char& ch)
{
	struct L { static bool get( tw::SrcIterator& i, jmp_buf& e, char* c){ if (setjmp(e)!=0) return false; *c=*i; return true; } };
	return L::get( it, eom, &ch);
}
LAW(chunks, 500000, 12000000, "at least two pieces and a copy or bytes skipped over a piece's end")
{
	struct M { std::string all; std::vector<std::unique_ptr<Heap> > piece; uint64_t base, end, i, fed; bool last; std::string done; };
	std::string data=genBytes( c, 60); std::vector<size_t> cuts=sc::genCuts( c, data.size()); if (c.chance(1,4) && !cuts.empty()) cuts.push_back( cuts[c.draw(cuts.size())]); std::sort( cuts.begin(), cuts.end()); cuts.push_back( data.size()); bool emptyEnd=c.chance(1,4); if (emptyEnd) cuts.push_back( data.size());
	c.note( "data "+pbt::quote(data,400)); { std::string t; for (auto x: cuts) t+=" "+pbt::str(x); c.note( "cut at"+t); }
	jmp_buf eom; std::vector<std::unique_ptr<Heap> > mem; unsigned k=0; size_t base=0; tw::SrcIterator it; bool first=true, skipped=false, copies=false; uint64_t i=0; unsigned how=c.draw(3); std::string log;
	if (how==2) { char ch='x'; CHECK( deref( it, eom, ch) && ch==0, "an iterator without input does not deliver null"); CHECK( it.position()==0, "position without input"); }
	struct Mark { tw::SrcIterator it; uint64_t i; unsigned k; }; std::vector<Mark> marks;
	for (;;)
	{
		size_t b=base, e=cuts[k]; bool last=k+1==cuts.size(); mem.emplace_back( new Heap( data.substr( b, e-b)));
		if (first && how==0) { it=tw::SrcIterator( mem.back()->p.get(), e-b, last?0:&eom); }
		else if (first && how==1) { tw::SrcIterator x( mem.back()->p.get(), e-b, last?0:&eom); it=tw::SrcIterator(x); }
		else it.putInput( mem.back()->p.get(), e-b, last?0:&eom);
		first=false; base=e; ++k; CHECK( it.position()==i, "position " << it.position() << " instead of " << i << " after piece " << k-1);
		if (i>=b && i<=e) CHECK( it.getPosition()==i-b, "position in the piece " << it.getPosition() << " instead of " << i-b);
		unsigned more=3;
		for (;;)
		{
			pbt::Ctx::SpanGuard g(c); CHECK( it.endOfChunk()==(i>=e), "end of the piece is " << it.endOfChunk() << " at " << i << " of " << e); unsigned w=i+1000<e?1:c.pick({2,8,1,1,1});
			if (w==2) { if (copies && marks.size()>3) continue; if (i>e) continue; Mark m={it,i,k}; marks.push_back(m); copies=true; continue; }
			if (w==3 && !marks.empty())
			{
				Mark& m=marks[c.draw( marks.size())]; bool ok=true; size_t v=0; int cause=0; try { v=it-m.it; } catch (const tw::exception& x) { ok=false; cause=x.cause; }
				if (m.k==k) { CHECK( ok && v==i-m.i, "difference to a copy of byte " << m.i << " at byte " << i << " is " << v); if (i>m.i) { bool ok2=true; try { m.it-it; } catch (const tw::exception&) { ok2=false; } CHECK( !ok2, "negative difference not refused"); } }
				else if (mem[m.k-1]->p.get()+mem[m.k-1]->n!=mem[k-1]->p.get()+mem[k-1]->n) CHECK( !ok && cause==tw::throws_exception::IllegalParam, "difference of iterators in different pieces is " << v << ", cause " << cause);
				continue;
			}
			if (w==4) { tw::SrcIterator cp( it); if (c.flip()) { tw::SrcIterator x; x=cp; it=x; } else it=cp; copies=true; continue; }
			char ch=0; 
			if (w==0) { if (i>=e && !last) break; ++it; ++i; if (c.chance(1,3)) { unsigned s=c.draw(6); while (s--) { ++it; ++i; } } if (i>e && !last) { skipped=true; CHECK( it.position()==i, "position " << it.position() << " instead of " << i << " behind the piece"); break; } if (last && i>e+10) break; continue; }
			bool got=deref( it, eom, ch);
			if (i<e) { CHECK( got && ch==data[i], "byte " << i << (got?" is "+pbt::str((int)(unsigned char)ch):std::string(" not delivered")) << " instead of " << (int)(unsigned char)data[i]); CHECK( it.position()==i, "position " << it.position() << " instead of " << i); ++it; ++i; }
			else if (!last) { CHECK( !got, "a byte delivered at the end of a piece that is not the last"); if (c.flip()) CHECK( !deref( it, eom, ch), "a byte delivered at the end of a piece that is not the last"); break; }
			else { CHECK( got && ch==0, "no null behind the end"); if (!more--) break; ++it; ++i; CHECK( it.position()==i, "position " << it.position() << " instead of " << i << " behind the end"); }
		}
		if (k==cuts.size()) break;
	}
	// the copies in the last pieces read independently
	for (auto& m: marks) { size_t e=cuts[m.k-1]; uint64_t j=m.i; char ch; for (;j<e;++j,++m.it) CHECK( deref( m.it, eom, ch) && ch==data[j], "copy at byte " << j); if (m.k==cuts.size()) CHECK( deref( m.it, eom, ch) && ch==0, "no null behind the end in a copy"); else CHECK( !deref( m.it, eom, ch), "byte delivered by a copy behind its piece"); }
	c.key( data+pbt::str(how)+std::string((const char*)&cuts[0],cuts.size()*sizeof(size_t))+pbt::str(marks.size())); if (cuts.size()>1 && (copies||skipped)) c.nontrivial(); if (skipped) c.label("skipped over the end of a piece"); if (copies) c.label("copies");
}

// iterators over pieces of several texts, assigned to each other in any state
static int deref2( tw::SrcIterator& it, jmp_buf* eom, char& ch)   // 0: byte delivered, 1,2: more input asked for through eom[0], eom[1]
{
	struct L { static int get( tw::SrcIterator& i, jmp_buf* e, char* c){ if (setjmp(e[0])!=0) return 1; if (setjmp(e[1])!=0) return 2; *c=*i; return 0; } };
	return L::get( it, eom, &ch);
}
LAW(assignments, 300000, 8000000, "an iterator assigned to one in a different state was read or fed after")
{
	struct M { const Heap* h; size_t i; int eom; uint64_t abs; bool changed; };   // piece, place in it, jump buffer (-1: last piece), position of the start of the piece
	jmp_buf eom[2]; std::vector<std::unique_ptr<Heap> > mem; std::vector<tw::SrcIterator> it( 1+c.range(1,3)); std::vector<M> m; Heap none(""); M zero={&none,0,-1,0,false}; m.assign( it.size(), zero); bool interesting=false; std::string log; unsigned n=1+c.size(60);
	for (unsigned k=0;k<n;++k)
	{
		pbt::Ctx::SpanGuard g(c); size_t j=c.draw( it.size()), o=c.draw( it.size()); std::ostringstream d; d << "#" << j; M& x=m[j];
		switch (c.pick({6,3,4,3,2}))
		{
			case 0: { char ch='?'; int r=deref2( it[j], eom, ch); d << " *"; c.note( d.str()); bool in=x.i<x.h->n; int want=in||x.eom<0?0:x.eom+1; CHECK( r==want, d.str() << (r?" asks for input":" delivers a byte") << " by " << r << " instead of " << want); if (!r) CHECK( ch==(in?x.h->p[x.i]:'\0'), d.str() << " delivers " << (int)(unsigned char)ch); if (x.changed) interesting=true; break; }
			case 1: { unsigned r=c.chance(1,4)?1+c.draw(8):1; d << " +" << r; c.note( d.str()); while (r--) { ++it[j]; ++x.i; } break; }
			case 2: d << "=#" << o; c.note( d.str()); if (c.chance(1,4)) { tw::SrcIterator cp( it[o]); it[j]=cp; } else it[j]=it[o]; { bool ch=m[j].h!=m[o].h||m[j].eom!=m[o].eom; m[j]=m[o]; m[j].changed=ch; } break;
			case 3:
			{
				if (x.i<x.h->n) break;   // only after the end of the piece
				mem.emplace_back( new Heap( genBytes( c, 8))); int e=(int)c.draw(3)-1; d << " fed " << pbt::quote( std::string( mem.back()->p.get(), mem.back()->n)) << (e<0?" (last)":" (jump "+pbt::str(e)+")"); c.note( d.str());
				size_t skipped= x.eom>=0?x.i-x.h->n:0; if (x.eom<0 && x.i>x.h->n) break;   // beyond the end of the text: nothing can follow
				it[j].putInput( mem.back()->p.get(), mem.back()->n, e<0?0:&eom[e]); x.abs+=x.h->n; x.h=mem.back().get(); x.i=skipped; x.eom=e; if (x.changed) interesting=true; break;
			}
			default: d << " position"; c.note( d.str()); CHECK( it[j].position()==x.abs+x.i, d.str() << " is " << it[j].position() << " instead of " << x.abs+x.i); CHECK( it[j].endOfChunk()==(x.i>=x.h->n), d.str() << ": end of the piece is " << it[j].endOfChunk()); if (x.i<=x.h->n && x.h!=&none) CHECK( it[j].getPosition()==x.i, d.str() << " in the piece is " << it[j].getPosition()); 
		}
		log+=d.str();
	}
	c.key( log); if (interesting) c.nontrivial();
}

// iterators on input streams: one stream each, assigned to each other
LAW(streams, 400000, 8000000, "an iterator was assigned or copied after its first refill")
{
	unsigned n=1+c.draw(3); std::vector<std::unique_ptr<sl::ScriptStream> > st; struct M { int s; uint64_t i; }; std::vector<tw::IStreamIterator> it; std::vector<M> m; std::vector<size_t> bufs; long blocks=pbt::allocatedBlocks(); bool re=false; std::string log;
	struct Mark { std::unique_ptr<tw::IStreamIterator> it; uint64_t i; int s; }; std::vector<Mark> marks;
	for (unsigned i=0;i<n;++i) { std::string d=genBytes( c, 60); st.emplace_back( new sl::ScriptStream(d)); st.back()->sizes=sc::genReads(c); size_t b=sc::genBufsize(c); bufs.push_back(b); c.note( "stream "+pbt::str(i)+" buffer "+pbt::str(b)+" "+pbt::quote(d,300)); }
	it.reserve( n+2); for (unsigned i=0;i<n;++i) { if (c.flip()) it.push_back( tw::IStreamIterator( st[i].get(), bufs[i])); else { it.push_back( tw::IStreamIterator()); tw::IStreamIterator x( st[i].get(), bufs[i]); it.back()=x; } M x={(int)i,0}; m.push_back(x); }
	it.push_back( tw::IStreamIterator()); M none={-1,0}; m.push_back( none);
	unsigned ops=1+c.size(120);
	for (unsigned k=0;k<ops;++k)
	{
		pbt::Ctx::SpanGuard g(c); size_t j=c.draw( it.size()); static const std::string nothing; const std::string& s=m[j].s<0?nothing:st[m[j].s]->data;
		switch (c.pick({6,8,2,1,1,2,1}))
		{
			case 0: { char w=m[j].i<s.size()?s[m[j].i]:0; CHECK( *it[j]==w, "#" << j << " byte " << m[j].i << " is " << (int)(unsigned char)*it[j] << " instead of " << (int)(unsigned char)w); break; }
			case 1: { unsigned r=c.chance(1,4)?1+c.draw(20):1; while (r--) { ++it[j]; if (m[j].i<s.size()) ++m[j].i; } break; }
			case 2: CHECK( it[j].position()==m[j].i, "#" << j << " position " << it[j].position() << " instead of " << m[j].i); break;
			case 3: it[j]=*&it[j]; break;
			case 4: // exchange two: the old ones are not used any more
			{
				size_t o=c.draw( it.size()); if (o==j) break; tw::IStreamIterator x( it[j]), y; y=it[o]; it[j]=y; it[o]=x; std::swap( m[j], m[o]); if (m[j].i>2||m[o].i>2) re=true; break;
			}
			case 5: if (m[j].s>=0 && marks.size()<4) { Mark x; x.it.reset( new tw::IStreamIterator( it[j])); x.i=m[j].i; x.s=m[j].s; marks.push_back( std::move(x)); } break;
			default: if (!marks.empty()) { Mark& x=marks[c.draw( marks.size())]; if (x.s!=m[j].s) break; CHECK( (it[j]-*x.it)==(long)m[j].i-(long)x.i, "difference of byte " << m[j].i << " and byte " << x.i << " is " << (it[j]-*x.it)); CHECK( (*x.it-it[j])==(long)x.i-(long)m[j].i, "difference of byte " << x.i << " and byte " << m[j].i << " is " << (*x.it-it[j])); const std::string& d=st[x.s]->data; CHECK( **x.it==(x.i<d.size()?d[x.i]:0), "a copy of byte " << x.i << " reads another one after the original went on"); c.label("difference"); }
		}
	}
	for (size_t j=0;j<it.size();++j) if (m[j].s>=0) { const std::string& s=st[m[j].s]->data; for (;m[j].i<s.size();++m[j].i) { CHECK( *it[j]==s[m[j].i], "#" << j << " byte " << m[j].i << " in the end"); CHECK( it[j].position()==m[j].i, "#" << j << " position in the end"); ++it[j]; } CHECK( *it[j]==0, "no null behind the end"); ++it[j]; CHECK( *it[j]==0, "no null behind the end"); CHECK( it[j].position()==s.size(), "position at the end"); }
	std::string key=pbt::str(ops); for (auto& s: st) key+=s->data+"|"; c.key( key); if (re) c.nontrivial(); (void)blocks;
}
