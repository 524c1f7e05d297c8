// Choice-sequence property testing engine.
// Every case is a pure function of a list of recorded choices (random, replayed, shrunk, or decoded from fuzzer bytes).
#ifndef PBT_ENGINE_HPP
#define PBT_ENGINE_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <initializer_list>

namespace pbt {

struct Failure { std::string msg; explicit Failure(const std::string& m):msg(m){} };
struct Discard {};

struct Span { uint32_t from,to; };

class Ctx
{
public:
	enum Mode {Random,Replay,Bytes};
	// draw a choice in [0,n); n==0 means the full 32 bit range. 0 is the simplest choice.
	uint32_t draw( uint32_t n);
	// inclusive range
	uint32_t range( uint32_t lo, uint32_t hi) { return lo + draw( hi-lo+1); }
	bool chance( uint32_t num, uint32_t den) { return draw(den) >= den-num; }   // 0 -> false
	bool flip() { return draw(2)!=0; }
	// index of a weighted alternative; the first is the simplest
	unsigned pick( std::initializer_list<unsigned> weights);
	template <class T> const T& of( const std::vector<T>& v) { return v[ draw( v.size())]; }
	template <class T, size_t N> const T& of( const T (&v)[N]) { return v[ draw( N)]; }
	// geometric-like length: small usually, sometimes near 'max'
	unsigned size( unsigned max);
	void spanBegin();
	void spanEnd();
	struct SpanGuard { Ctx& c; explicit SpanGuard( Ctx& c_):c(c_){c.spanBegin();} ~SpanGuard(){c.spanEnd();} };

	void nontrivial() { m_nontrivial=true; }
	void label( const std::string& l) { m_labels[l]++; }
	void key( const std::string& k);       // identity of the decoded case (defaults to the choices)
	bool verbose() const { return m_verbose; }
	void note( const std::string& s) { if (m_verbose && m_notes.size() < 60000) { m_notes += s; m_notes += '\n'; } }
	[[noreturn]] void fail( const std::string& msg) { throw Failure( msg); }
	unsigned index() const { return m_index; }

	// driver side
	Mode m_mode=Random;
	uint64_t m_rng=0;
	const uint32_t* m_in=0; size_t m_insize=0, m_pos=0;
	const uint8_t* m_bytes=0; size_t m_nbytes=0, m_bpos=0;
	uint32_t* m_rec=0; volatile uint32_t* m_recsize=0; uint32_t m_recmax=0;
	std::vector<Span> m_spans; std::vector<size_t> m_spanstk;
	bool m_nontrivial=false, m_verbose=false; bool m_haskey=false; uint64_t m_key=0;
	unsigned m_index=0;
	std::map<std::string,unsigned> m_labels;
	std::string m_notes;
	void reset();
};

typedef void (*LawFn)( Ctx&);
struct Law
{
	const char* name;
	LawFn fn;
	unsigned quick;        // number of cases in the quick tier
	unsigned thorough;     // number of cases in the thorough tier
	bool enumerated;       // the case index is the first choice (exhaustive enumeration of [0,quick))
	const char* rule;      // what makes a case non trivial
};
// A deterministic probe for a known finding: returns true if the defect is still present
struct Probe
{
	const char* id;
	bool (*fn)( std::string& what);
};
struct Suite
{
	const char* property;
	std::vector<Law> laws;
	std::vector<Probe> probes;
};
Suite& suite();
struct Register { Register( const char* prop){suite().property=prop;} };
struct AddLaw { AddLaw( const char* name, LawFn fn, unsigned q, unsigned t, const char* rule, bool enumd=false){ Law l={name,fn,q,t,enumd,rule}; suite().laws.push_back(l);} };
struct AddProbe { AddProbe( const char* id, bool (*fn)(std::string&)){ Probe p={id,fn}; suite().probes.push_back(p);} };

#define PROPERTY(ID) static pbt::Register pbt_register_(#ID);
#define LAW(NAME,QUICK,THOROUGH,RULE) static void NAME(pbt::Ctx&); static pbt::AddLaw add_##NAME(#NAME,NAME,QUICK,THOROUGH,RULE); static void NAME(pbt::Ctx& c)
#define ENUM_LAW(NAME,COUNT,RULE) static void NAME(pbt::Ctx&); static pbt::AddLaw add_##NAME(#NAME,NAME,COUNT,COUNT,RULE,true); static void NAME(pbt::Ctx& c)
#define PROBE(NAME) static bool NAME(std::string&); static pbt::AddProbe addp_##NAME(#NAME,NAME); static bool NAME(std::string& what)

#define CHECK(COND,MSG) do { if (!(COND)) { std::ostringstream pbt_o; pbt_o << MSG; c.fail( pbt_o.str()); } } while(0)

// allocation accounting (bytes currently allocated through malloc/new), for leak laws
long allocatedBlocks();
void moreTime( unsigned sec);   // CPU time the current case may use from now on

std::string hex( const std::string& s);
std::string quote( const std::string& s, size_t max=400);
template <class T> std::string str( const T& t) { std::ostringstream o; o << t; return o.str(); }

}//namespace
#endif
