#!/usr/bin/env python3
"""Applies behaviour preserving edits to a clone of /repo: refactor.py DIR [A|B|C...].
The checks have to stay quiet on the result (TEXTWOLF_REPO=DIR python3 run.py ID)."""
import sys, subprocess, os
d = sys.argv[1]; which = sys.argv[2:] or ["A", "B", "C", "D"]
I = "include/textwolf/"
G = {}
G["A"] = [
 # UTF-8: one helper for the first byte, loops counted down, table lookup replaced by comparisons
 (I+"charset_utf8.hpp", """		if (bufpos==0)
		{
			buf[0] = *itr;
			++itr;
			++bufpos;
		}
		return ((unsigned char)(buf[0])>127)?-1:buf[0];""", """		first( buf, bufpos, itr);
		return (buf[0] & (char)0x80) ? -1 : buf[0];"""),
 (I+"charset_utf8.hpp", """	/// \\brief Get the size of the current character in bytes (variable length encoding)""", """	template <class Iterator>
	static inline void first( char* buf, unsigned int& bufpos, Iterator& itr)
	{
		if (bufpos != 0) return;
		buf[ 0] = *itr;
		++itr;
		++bufpos;
	}

	/// \\brief Get the size of the current character in bytes (variable length encoding)"""),
 (I+"charset_utf8.hpp", """		unsigned int bufsize = size( buf, bufpos, itr);
		for (;bufpos < bufsize; ++bufpos)
		{
			++itr;
		}""", """		unsigned int todo = size( buf, bufpos, itr);
		while (bufpos < todo)
		{
			++itr;
			++bufpos;
		}"""),
 # text scanner: a common function for the initialisation, evaluation order of skip
 (I+"textscanner.hpp", """		state = 0;
		cur = 0;
		val = 0;
		return *this;""", """		val = 0;
		cur = 0;
		state = 0;
		return *this;"""),
 (I+"textscanner.hpp", """		if (val == 0)
		{
			val = charset.value( buf, state, input);
		}
		return val;""", """		if (val) return val;
		return val = charset.value( buf, state, input);"""),
 (I+"textscanner.hpp", """		getcur();
		return cur>=0?(unsigned char)cur:0;""", """		getcur();
		if (cur < 0) return 0;
		return (unsigned char)cur;"""),
 # scanner: helper for the end of line handling; if/else inverted
 (I+"xmlscanner.hpp", """				if (aa <= 0xD)
				{
					//handling W3C requirements for end of line translation in XML:
					if (aa == '\\r')
					{
						push( (unsigned char)'\\n');
						tokstate.eolnState = TokState::CR;
					}
					else if (aa == '\\n')
					{
						if (tokstate.eolnState != TokState::CR)
						{
							push( (unsigned char)'\\n');
						}
						tokstate.eolnState = TokState::SRC;
					}
					else
					{
						copychar();
						tokstate.eolnState = TokState::SRC;
					}
				}
				else
				{
					copychar();
					tokstate.eolnState = TokState::SRC;
				}
				m_src.skip();""", """				//handling W3C requirements for end of line translation in XML:
				const bool afterCR = (tokstate.eolnState == TokState::CR);
				if (aa != '\\r' && aa != '\\n')
				{
					copychar();
				}
				else if (aa == '\\r' || !afterCR)
				{
					push( (unsigned char)'\\n');
				}
				tokstate.eolnState = (aa == '\\r') ? TokState::CR : TokState::SRC;
				m_src.skip();"""),
 # selector: loop of the key comparison, order of conditions
 (I+"xmlpathselect.hpp", """						unsigned int ii;
						for (ii=0; ii<context.keysize && st.key[ii] == context.key[ii]; ii++);
						if (ii==context.keysize)
						{""", """						if (0 == std::memcmp( st.key, context.key, context.keysize))
						{"""),
 (I+"xmlpathselect.hpp", "#include <limits>", "#include <limits>\n#include <cstring>"),
 # tag stack: growing computed differently, allocation doubled
 (I+"xmltagstack.hpp", """			std::size_t newsize = m_size;
			while (m_pos + ofs > newsize) newsize *= 2;""", """			std::size_t newsize = m_size * 2;
			if (newsize < m_pos + ofs) newsize = m_pos + ofs + m_size;"""),
 (I+"xmltagstack.hpp", "enum {InitSize=256};", "enum {InitSize=64};"),
 # printer: helper for messages
 (I+"xmlprinter.hpp", """		if (m_state == TagElement)
		{
			printToBuffer( ' ', buf);
			printToBuffer( (const char*)src, srcsize, buf);
			printToBuffer( '=', buf);
			m_state = TagAttribute;
			return true;
		}
		m_lasterror = "printing attribute outside of a tag";
		return false;""", """		if (m_state != TagElement)
		{
			m_lasterror = "printing attribute outside of a tag";
			return false;
		}
		printToBuffer( ' ', buf);
		printToBuffer( (const char*)src, srcsize, buf);
		printToBuffer( '=', buf);
		m_state = TagAttribute;
		return true;"""),
]
G["B"] = [
 # UTF-8 printed by cases
 (I+"charset_utf8.hpp", """		unsigned char HB = (unsigned char)(B11111111 << (8-rt));
		unsigned char shf = (unsigned char)(pp*6);
		unsigned int ii;
		buf.push_back( (char)(((unsigned char)(chr >> shf) & (~HB >> 1)) | HB));
		for (ii=1,shf-=6; ii<=pp; shf-=6,ii++)
		{
			buf.push_back( (char)(unsigned char) (((chr >> shf) & B00111111) | B10000000));
		}""", """		const unsigned char HB = (unsigned char)(B11111111 << (8-rt));
		int shf = (int)pp*6;
		buf.push_back( (char)(((unsigned char)(chr >> shf) & (~HB >> 1)) | HB));
		while (shf > 0)
		{
			shf -= 6;
			buf.push_back( (char)(unsigned char) (((chr >> shf) & B00111111) | B10000000));
		}"""),
 # scanner: numeric entities in one function; another buffer strategy
 (I+"xmlscanner.hpp", """		if (ch == 'x')
		{
			tokstate.base = 16;
			m_src.skip();
			return parseNumericBaseEntity();
		}
		else
		{
			tokstate.base = 10;
			return parseNumericBaseEntity();
		}""", """		tokstate.base = (ch == 'x') ? 16 : 10;
		if (tokstate.base == 16) m_src.skip();
		return parseNumericBaseEntity();"""),
 (I+"xmlscanner.hpp", """			if (m_src.ascii() == str[ tokstate.pos]) continue;
			ControlCharacter ch = m_src.control();
			if (ch == EndOfText)
			{
				error = ErrUnexpectedEndOfText;
			}
			else
			{
				error = ErrSyntaxToken;
			}
			rt = false;
			break;""", """			if (m_src.ascii() != str[ tokstate.pos])
			{
				error = (m_src.control() == EndOfText) ? ErrUnexpectedEndOfText : ErrSyntaxToken;
				rt = false;
				break;
			}"""),
 (I+"xmlscanner.hpp", """			EntityMap::const_iterator itr = m_entityMap->begin();
			for (; itr != m_entityMap->end() && std::strcmp( itr->first, str) != 0; ++itr) {}
			if (itr == m_entityMap->end())
			{
				error = ErrUndefinedCharacterEntity;
				return false;
			}
			else
			{
				UChar ch = itr->second;
				push( ch);
				return true;
			}""", """			for (EntityMap::const_iterator itr = m_entityMap->begin(); itr != m_entityMap->end(); ++itr)
			{
				if (0 == std::strcmp( str, itr->first))
				{
					push( itr->second);
					return true;
				}
			}
			error = ErrUndefinedCharacterEntity;
			return false;"""),
 # stream iterator: buffer read in two steps, position counted
 (I+"istreamiterator.hpp", """		if (m_readpos+1 >= m_readsize)
		{
			fillbuf();
		}
		else
		{
			++m_readpos;
		}
		return *this;""", """		const bool more = (m_readpos+1 < m_readsize);
		if (more) ++m_readpos; else fillbuf();
		return *this;"""),
 # automaton: search for an equal transition extracted
 (I+"xmlpathautomaton.hpp", """				while (states[ stateidx].link >= 0)
				{
					stateidx = states[ stateidx].link;
				}
				states.push_back( state);
				states[ stateidx].link = states.size()-1;
				stateidx = states.size()-1;
			}
			states.push_back( state);
			unsigned int lastidx = states.size()-1;
			states[ stateidx].defineNext( op, keysize, key, srckey, lastidx, follow);
			return stateidx=lastidx;""", """				stateidx = appendLink( stateidx);
			}
			states.push_back( state);
			const int target = (int)states.size()-1;
			states[ stateidx].defineNext( op, keysize, key, srckey, target, follow);
			return target;"""),
 (I+"xmlpathautomaton.hpp", """private:
	///\\brief Defines a state transition
""", """private:
	int appendLink( int idx)
	{
		for (; states[ idx].link >= 0; idx = states[ idx].link) {}
		states.push_back( State());
		return states[ idx].link = (int)states.size()-1;
	}

	///\\brief Defines a state transition
"""),
 # printer
 (I+"xmlprinter.hpp", """		while ((ch = ts.chr()) != 0)
		{
			if (ch < 128)
			{
				printEsc( (char)ch, buf, nof_echr, echr, estr);
			}
			else
			{
				m_output.print( ch, buf);
			}
			++ts;
		}""", """		for (ch = ts.chr(); ch != 0; ch = ts.skip().chr())
		{
			if (ch >= 128)
				m_output.print( ch, buf);
			else
				printEsc( (char)ch, buf, nof_echr, echr, estr);
		}"""),
 (I+"xmlprinter.hpp", """		m_tagstack.push( src, srcsize);
		m_state = TagElement;
		return true;""", """		m_state = TagElement;
		m_tagstack.push( src, srcsize);
		return true;"""),
 (I+"xmlpathselect.hpp", """		results.resize( 0);
		while (0!=(element=fetch())) results.push_back( element);""", """		results.resize( 0);
		for (element=fetch(); element; element=fetch()) results.push_back( element);"""),
]
G["C"] = [
 # source iterator: position test by the rest, position computed from the start of the chunk
 (I+"sourceiterator.hpp", """		if (m_itr >= m_end)
		{
			if (m_eom) longjmp(*m_eom,1);
			return 0;
		}
		return *m_itr;""", """		if (m_itr < m_end) return *m_itr;
		if (m_eom != 0) longjmp(*m_eom,1);
		return 0;"""),
 (I+"sourceiterator.hpp", """		m_abspos += size;
		m_start = m_itr = const_cast<char*>(buf);
		m_end = m_itr+size;
		m_itr += skipped;
		m_eom = eom;""", """		m_start = const_cast<char*>(buf);
		m_end = m_start + size;
		m_itr = m_start + skipped;
		m_abspos = m_abspos + size;
		m_eom = eom;"""),
 (I+"sourceiterator.hpp", """		return m_abspos - (m_end - m_itr);""", """		return (m_itr <= m_end) ? (m_abspos - (PositionIndex)(m_end - m_itr)) : (m_abspos + (PositionIndex)(m_itr - m_end));"""),
 # static buffer
 (I+"staticbuffer.hpp", """		if (m_pos < m_size)
		{
			m_ar[m_pos++] = ch;
		}
		else
		{
			m_overflow = true;
		}""", """		if (m_pos >= m_size)
		{
			m_overflow = true;
			return;
		}
		m_ar[ m_pos] = ch;
		++m_pos;"""),
 (I+"staticbuffer.hpp", """		if (m_pos+ccsize > m_size)
		{
			m_overflow = true;
			ccsize = m_size - m_pos;
		}
		std::memcpy( m_ar+m_pos, cc, ccsize);
		m_pos += ccsize;""", """		const std::size_t room = m_size - m_pos;
		const std::size_t nn = (ccsize > room) ? room : ccsize;
		if (nn != ccsize) m_overflow = true;
		for (std::size_t ii=0; ii<nn; ++ii) m_ar[ m_pos + ii] = cc[ ii];
		m_pos += nn;"""),
 # numbers
 (I+"xmlscanner.hpp", """		while (tokstate.pos < sizeof(tokstate.buf))
		{
			ch = m_src.ascii();
			if (ch == ';')
			{
				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
				{
					fallbackEntity();
					return true;
				}
				push( (UChar)tokstate.value);
				tokstate.init( TokState::ParsingToken);
				m_src.skip();
				return true;
			}
			else
			{
				unsigned char chval = HEX(ch);
				if (chval >= tokstate.base)
				{
					fallbackEntity();
					return true;
				}
				tokstate.buf[ tokstate.pos++] = ch;
				tokstate.value = tokstate.value * tokstate.base + chval;
				m_src.skip();
			}
		}
		fallbackEntity();
		return true;""", """		for (; tokstate.pos < sizeof(tokstate.buf); m_src.skip())
		{
			ch = m_src.ascii();
			if (ch == ';') break;
			const unsigned char chval = HEX(ch);
			if (chval >= tokstate.base)
			{
				fallbackEntity();
				return true;
			}
			tokstate.value = chval + tokstate.base * tokstate.value;
			tokstate.buf[ tokstate.pos] = ch;
			++tokstate.pos;
		}
		if (tokstate.pos == sizeof(tokstate.buf) || tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
		{
			fallbackEntity();
			return true;
		}
		push( (UChar)tokstate.value);
		tokstate.init( TokState::ParsingToken);
		m_src.skip();
		return true;"""),
 # predefined entities in a table
 (I+"xmlscanner.hpp", """		switch (str[0])
		{
			case 'q':
				if (str[1] == 'u' && str[2] == 'o' && str[3] == 't' && str[4] == '\\0')
				{
					push( '\\"');
					return true;
				}
				break;

			case 'a':
				if (str[1] == 'm')
				{
					if (str[2] == 'p' && str[3] == '\\0')
					{
						push( '&');
						return true;
					}
				}
				else if (str[1] == 'p')
				{
					if (str[2] == 'o' && str[3] == 's' && str[4] == '\\0')
					{
						push( '\\'');
						return true;
					}
				}
				break;

			case 'l':
				if (str[1] == 't' && str[2] == '\\0')
				{
					push( '<');
					return true;
				}
				break;

			case 'g':
				if (str[1] == 't' && str[2] == '\\0')
				{
					push( '>');
					return true;
				}
				break;

			case 'n':
				if (str[1] == 'b' && str[2] == 's' && str[3] == 'p' && str[4] == '\\0')
				{
					push( ' ');
					return true;
				}
				break;
		}
		return false;""", """		static const char* const names[] = {"amp","lt","gt","quot","apos","nbsp"};
		static const char chars[] = "&<>\\"' ";
		for (unsigned int ii=0; ii<6; ++ii)
		{
			if (std::strcmp( names[ii], str) == 0)
			{
				push( (UChar)(unsigned char)chars[ii]);
				return true;
			}
		}
		return false;"""),
 (I+"xmlscanner.hpp", """		while (tokstate.pos < sizeof(tokstate.buf)-1 && ch != ';' && m_src.control() == Any)
		{
			tokstate.buf[ tokstate.pos] = ch;
			m_src.skip();
			tokstate.pos++;
			ch = m_src.ascii();
		}""", """		for (; tokstate.pos < sizeof(tokstate.buf)-1; ch = m_src.ascii())
		{
			if (ch == ';' || m_src.control() != Any) break;
			tokstate.buf[ tokstate.pos++] = ch;
			m_src.skip();
		}"""),
 # UTF-16
 (I+"charset_utf16.hpp", """		if (bufpos<2)
		{
			if (bufpos<1)
			{
				buf[0] = *itr;
				++itr;
				++bufpos;
			}
			buf[1] = *itr;
			++itr;
			++bufpos;
		}""", """		while (bufpos < 2)
		{
			buf[ bufpos] = *itr;
			++itr;
			++bufpos;
		}"""),
 (I+"charset_utf16.hpp", """		if ((rt - 0xD8) > 0x03)
		{
			return 2;
		}
		else
		{
			return 4;
		}""", """		return (rt >= 0xD8 && rt <= 0xDB) ? 4 : 2;"""),
 (I+"charset_utf16.hpp", """		if (bufsize == 4)
		{
			// 2 teilig
			while (bufpos < bufsize)
			{
				buf[bufpos] = *itr;
				++itr;
				++bufpos;
			}
			rt -= 0xD800;
			rt *= 0x400;
			unsigned short lo = (unsigned char)buf[ 2+MSB];
			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
			return rt + lo - 0xDC00 + 0x010000;
		}
		return rt;""", """		if (bufsize != 4) return rt;
		fetchbytes( buf, bufpos, itr);
		const UChar lo = ((UChar)(unsigned char)buf[ 2+MSB] << 8) | (unsigned char)buf[ 2+LSB];
		if ((lo & 0xFC00) != 0xDC00) return 0xFFFF;
		return 0x10000 + (((rt & 0x3FF) << 10) | (lo & 0x3FF));"""),
 (I+"charset_utf16.hpp", """			ch -= 0x10000;
			unsigned short hi = (unsigned short )((ch / 0x400) + 0xD800);
			unsigned short lo = (unsigned short )((ch % 0x400) + 0xDC00);""", """			const unsigned short hi = (unsigned short )(((ch - 0x10000) >> 10) | 0xD800);
			const unsigned short lo = (unsigned short )((ch & 0x3FF) | 0xDC00);"""),
 # UTF-8 value with a loop by length
 (I+"charset_utf8.hpp", """		UChar res = (unsigned char)buf[0];
		if (res > 127)
		{
			int gg = bufpos-2;
			if (gg < 0) return MaxChar;

			res = ((unsigned char)buf[0])&(B00011111>>gg);
			for (int ii=0; ii<=gg; ii++)
			{
				unsigned char xx = (unsigned char)buf[ii+1];
				res = (res<<6) | (xx & B00111111);
				if ((unsigned char)(xx & B11000000) != B10000000)
				{
					return MaxChar;
				}
			}
		}
		return res;""", """		const unsigned char first = (unsigned char)buf[0];
		if (first <= 127) return first;
		if (bufpos < 2) return MaxChar;
		UChar res = first & (B00011111 >> (bufpos-2));
		for (unsigned int ii=1; ii<bufpos; ++ii)
		{
			const unsigned char xx = (unsigned char)buf[ii];
			if ((unsigned char)(xx & B11000000) != B10000000) return MaxChar;
			res = (res << 6) + (xx & B00111111);
		}
		return res;"""),
 # iterators
 (I+"cstringiterator.hpp", """		return (m_pos < m_size)?m_src[m_pos]:0;""", """		if (m_pos >= m_size) return 0;
		return m_src[m_pos];"""),
 (I+"istreamiterator.hpp", """		m_abspos += m_readsize;
		m_readsize = m_input->read( m_buf, m_bufsize);
		m_readpos = 0;
		if (m_input->errorcode()) throw exception( FileReadError);
		return true;""", """		const std::size_t before = m_readsize;
		m_readsize = m_input->read( m_buf, m_bufsize);
		m_abspos += before;
		m_readpos = 0;
		if (m_input->errorcode() != 0) throw exception( FileReadError);
		return true;"""),
 # automaton: order of members, helper of the parser
 (I+"textscanner.hpp", """		getcur();
		return controlCharMap[ (unsigned char)cur];""", """		cur = CharSet::asciichar( buf, state, input);
		const unsigned char idx = (unsigned char)cur;
		return controlCharMap[ idx];"""),
]
G["C"] += [
 (I+"xmlhdrparser.hpp", """		for (; m_zeroCount<4; m_zeroCount++)
		{
			if (m_idx >= m_src.size()) return 0;
			unsigned char ch = m_src[m_idx];
			++m_idx;
			if (ch != 0)
			{
				m_zeroCount = 0;
				if (ch > 32)
				{
					++m_charsConsumed;
				}
				return ch;
			}
		}
		throw exception( IllegalXmlHeader);""", """		while (m_zeroCount != 4)
		{
			if (m_idx == m_src.size()) return 0;
			const unsigned char ch = (unsigned char)m_src[ m_idx++];
			if (ch == 0)
			{
				++m_zeroCount;
				continue;
			}
			m_zeroCount = 0;
			if (ch > 32) ++m_charsConsumed;
			return ch;
		}
		throw exception( IllegalXmlHeader);"""),
 (I+"xmlpathselect.hpp", """						unsigned int ii;
						for (ii=0; ii<context.keysize && st.key[ii] == context.key[ii]; ii++);
						if (ii==context.keysize)
						{""", """						if (std::equal( st.key, st.key + st.keysize, context.key))
						{"""),
 (I+"xmlpathselect.hpp", "#include <limits>", "#include <limits>\n#include <algorithm>"),
 (I+"xmlpathselect.hpp", """			if (!scopestk.empty())
			{
				context.scope = scopestk.back();
				scopestk.pop_back();
				follows.resize( context.scope.range.followidx);
				tokens.resize( context.scope.range.tokenidx_to);
			}""", """			if (scopestk.empty()) return;
			const Scope last = scopestk.back();
			scopestk.pop_back();
			tokens.resize( last.range.tokenidx_to);
			follows.resize( last.range.followidx);
			context.scope = last;"""),
]
G["D"] = [
 # expression parser: one place for the checks of states, switch partly resolved, numbers without string
 (I+"xmlpathautomatonparse.hpp", """		std::string num;
		for (; *src>='0' && *src<='9';++src) num.push_back( *src);
		if (num.size() == 0 || num.size() > 8) return -1;
		return std::atoi( num.c_str());""", """		int value = 0;
		unsigned int nofdigits = 0;
		while (*src >= '0' && *src <= '9')
		{
			if (nofdigits < 8) value = value * 10 + (int)(*src - '0');
			++nofdigits;
			++src;
		}
		return (nofdigits == 0 || nofdigits > 8) ? -1 : value;"""),
 (I+"xmlpathautomatonparse.hpp", """			static const char opchr[] = "*~/(){}[]@,;";
			return (*src > 127 || 0==std::strchr( opchr, (char)*src));""", """			const UChar ch = *src;
			if (ch > 127) return true;
			switch ((char)ch)
			{
				case '*': case '~': case '/': case '(': case ')': case '{': case '}':
				case '[': case ']': case '@': case ',': case ';': case '\\0':
					return false;
				default:
					return true;
			}"""),
 (I+"xmlpathautomatonparse.hpp", """			std::vector<PathElement> new_statelist;
			std::vector<const char*>::const_iterator ai = alt.begin(), ae = alt.end();
			for (; ai != ae; ++ai)
			{
				ExprState alt_path( *this);
				alt_path.selectTag( *ai);
				new_statelist.insert( new_statelist.end(), alt_path.statelist.begin(), alt_path.statelist.end());
			}
			statelist = new_statelist;""", """			std::vector<PathElement> collected;
			collected.reserve( alt.size() * statelist.size());
			for (std::size_t ai = 0; ai < alt.size(); ++ai)
			{
				for (std::size_t si = 0; si < statelist.size(); ++si)
				{
					collected.push_back( statelist[ si]);
					collected.back().selectTag( alt[ ai]);
				}
			}
			statelist.swap( collected);"""),
 (I+"xmlpathautomatonparse.hpp", """						if (*src == ',')
						{
							++src; skipSpaces( src);
							if (*src == ']')
							{
								expr.FROM( range_start);
								++src;
							}
							else
							{
								if (!isIdentifierChar( src)) return src.getPosition()+1;
								int range_end = parseNum( src);
								if (range_end < 0) return src.getPosition()+1;
								skipSpaces( src);
								if (*src != ']') return src.getPosition()+1;
								expr.RANGE( range_start, range_end);
								++src;
							}
						}
						else if (*src == ']')
						{
							expr.INDEX( range_start);
							++src;
						}
						else
						{
							return src.getPosition()+1;
						}""", """						if (*src == ']')
						{
							expr.INDEX( range_start);
						}
						else
						{
							if (*src != ',') return src.getPosition()+1;
							++src; skipSpaces( src);
							if (*src == ']')
							{
								expr.FROM( range_start);
							}
							else
							{
								int range_end = isIdentifierChar( src) ? parseNum( src) : -1;
								if (range_end < 0) return src.getPosition()+1;
								skipSpaces( src);
								if (*src != ']') return src.getPosition()+1;
								expr.RANGE( range_start, range_end);
							}
						}
						++src;"""),
 (I+"xmlpathautomatonparse.hpp", """		for (UChar prev=0; *nsrc; ++nsrc)
		{
			if (prev == ':' && *nsrc == ':') return nsrc.getPosition();
			prev = *nsrc;
		}""", """		bool colon = false;
		for (UChar ch; (ch = *nsrc) != 0; ++nsrc)
		{
			if (ch != ':') colon = false;
			else if (colon) return nsrc.getPosition();
			else colon = true;
		}"""),
 # header parser: helpers for names and for the end of a value
 (I+"xmlhdrparser.hpp", """				case ParseAttributeValueSq:
					if (ch == '\\'')
					{
						switch (m_attributetype)
						{
							case Encoding:
								m_encoding = m_item;
								break;
							case Version:
							case Standalone:
								break;
						}
						m_item.clear();
						m_state = FindAttributeName;
						continue;
					}
					else
					{
						m_item.push_back( ch);
					}
					break;
				case ParseAttributeValueDq:
					if (ch == '\\"')
					{
						switch (m_attributetype)
						{
							case Encoding:
								m_encoding = m_item;
								break;
							case Version:
							case Standalone:
								break;
						}
						m_item.clear();
						m_state = FindAttributeName;
						continue;
					}
					else
					{
						m_item.push_back( ch);
					}
					break;""", """				case ParseAttributeValueSq:
				case ParseAttributeValueDq:
					if (ch != (m_state == ParseAttributeValueSq ? '\\'' : '\\"'))
					{
						m_item.push_back( ch);
						break;
					}
					if (m_attributetype == Encoding) m_encoding = m_item;
					m_item.clear();
					m_state = FindAttributeName;
					break;"""),
 (I+"xmlhdrparser.hpp", """						if (m_item == "encoding")
						{
							m_attributetype = Encoding;
						}
						else if (m_item == "version")
						{
							m_attributetype = Version;
						}
						else if (m_item == "standalone")
						{
							m_attributetype = Standalone;
						}
						else
						{
							setError( "unknown xml header attribute name");
							return false;
						}
						m_item.clear();""", """						static const char* const names[] = {"encoding","version","standalone"};
						int ni = 0;
						while (ni < 3 && m_item != names[ ni]) ++ni;
						if (ni == 3)
						{
							setError( "unknown xml header attribute name");
							return false;
						}
						m_attributetype = ni == 0 ? Encoding : ni == 1 ? Version : Standalone;
						m_item.clear();"""),
 # printer
 (I+"xmlprinter.hpp", """			unsigned int ii = 0;
			const char* tt = estr[ cc-echr];
			while (tt[ii]) m_output.print( tt[ii++], buf);""", """			printLiteral( estr[ cc-echr], buf);"""),
 (I+"xmlprinter.hpp", """		const char* cc = (const char*)memchr( echr, ch, nof_echr);
		if (cc)""", """		const char* cc = 0;
		for (unsigned int ei = 0; ei < nof_echr && !cc; ++ei)
		{
			if (echr[ ei] == ch) cc = echr + ei;
		}
		if (cc)"""),
 (I+"xmlprinter.hpp", """				printLiteral( "<!DOCTYPE ", buf);
				printToBuffer( rootid, std::strlen( rootid), buf);
				printLiteral( " SYSTEM \\"", buf);
				printToBuffer( systemid, std::strlen( systemid), buf);
				printLiteral( "\\">", buf);
			}
			else
			{
				printLiteral( "<!DOCTYPE ", buf);
				printToBuffer( rootid, std::strlen( rootid), buf);
				printLiteral( ">", buf);
			}""", """				printDoctypeStart( rootid, buf);
				printLiteral( " SYSTEM \\"", buf);
				printToBuffer( systemid, std::strlen( systemid), buf);
				printLiteral( "\\">", buf);
			}
			else
			{
				printDoctypeStart( rootid, buf);
				printToBuffer( '>', buf);
			}"""),
 (I+"xmlprinter.hpp", """	/// \\brief Close the current tag attribute context opened""", """	void printDoctypeStart( const char* rootid, BufferType& buf) const
	{
		printLiteral( "<!DOCTYPE ", buf);
		printToBuffer( rootid, std::strlen( rootid), buf);
	}

	/// \\brief Close the current tag attribute context opened"""),
 (I+"xmlprinter.hpp", """		if (m_state == TagElement)
		{
			printToBuffer( '/', buf);
			printToBuffer( '>', buf);
			m_state = Content;
		}
		else if (m_state != Content)
		{
			m_lasterror = "printing close tag after an attribute name without value";
			return false;
		}
		else
		{
			printToBuffer( '<', buf);
			printToBuffer( '/', buf);
			printToBuffer( (const char*)cltag, cltagsize, buf);
			printToBuffer( '>', buf);
		}""", """		switch (m_state)
		{
			case TagElement:
				printLiteral( "/>", buf);
				m_state = Content;
				break;
			case Content:
				printLiteral( "</", buf);
				printToBuffer( (const char*)cltag, cltagsize, buf);
				printToBuffer( '>', buf);
				break;
			default:
				m_lasterror = "printing close tag after an attribute name without value";
				return false;
		}"""),
 # UCS
 (I+"charset_ucs.hpp", """		if (bufpos<2)
		{
			if (bufpos<1)
			{
				buf[0] = *itr;
				++itr;
				++bufpos;
			}
			buf[1] = *itr;
			++itr;
			++bufpos;
		}""", """		while (bufpos < 2)
		{
			buf[ bufpos] = *itr;
			++itr;
			++bufpos;
		}"""),
 (I+"charset_ucs.hpp", """		UChar res = (unsigned char)buf[B3];
		res = (res << 8) + (unsigned char)buf[B2];
		res = (res << 8) + (unsigned char)buf[B1];
		return (res << 8) + (unsigned char)buf[B0];""", """		return ((UChar)(unsigned char)buf[B3] << 24)
			| ((UChar)(unsigned char)buf[B2] << 16)
			| ((UChar)(unsigned char)buf[B1] << 8)
			| (UChar)(unsigned char)buf[B0];"""),
 (I+"charset_ucs.hpp", """		if (chr>MaxChar)
		{
			char tb[ 32];
			char* cc = tb;
			Encoder::encode( chr, tb, sizeof(tb));
			while (*cc)
			{
				buf.push_back( (UChar)*cc >> Print1shift);
				buf.push_back( (UChar)*cc >> Print2shift);
				++cc;
			}
		}
		else""", """		if (chr>MaxChar)
		{
			char tb[ 16];
			Encoder::encode( chr, tb, sizeof(tb));
			for (const char* cc = tb; *cc != 0; ++cc) print( (UChar)(unsigned char)*cc, buf);
		}
		else"""),
 # code pages
 (I+"codepages.hpp", """		char rt = 0;
		if (ch <= 128) return (char)ch;
		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
		if (rt == 0)
		{
			if (ch > 0xFFFF) return 0;
			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
			if (fi == m_invovlcd->end()) return 0;
			rt = fi->second;
		}
		return rt;""", """		if (ch <= 128) return (char)ch;
		if (ch <= 255)
		{
			const unsigned short direct = m_invcd[ ch - 128];
			if (direct != 0) return (char)(unsigned char)direct;
		}
		if (ch <= 0xFFFF)
		{
			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
			if (fi != m_invovlcd->end()) return (char)fi->second;
		}
		return 0;"""),
 (I+"codepages.hpp", """			unsigned int idx = 0;
			for (; idx < 9; ++idx)
			{
				unsigned int ii = 0;
				for (; ovlar[idx].ar[ii].first; ++ii)
				{
					m_map[idx][ ovlar[idx].ar[ii].first] = ovlar[idx].ar[ii].second;
				}
			}""", """			for (int idx = 8; idx >= 0; --idx)
			{
				for (const Element* ei = ovlar[idx].ar; ei->first != 0; ++ei)
				{
					m_map[ idx].insert( std::make_pair( ei->first, ei->second));
				}
			}"""),
 # scanner: the loop of nextItem, copies of the tables per instantiation, the iterator
 (I+"xmlscanner.hpp", """			if (sd->next[ ch] != -1)
			{
				state = (STMState)sd->next[ ch];
				m_src.skip();
			}
			else if (sd->fallbackState != -1)
			{
				state = (STMState)sd->fallbackState;
			}
			else if (sd->missError != -1)
			{
				error = (Error)sd->missError;
				return ErrorOccurred;
			}
			else if (ch == EndOfText)
			{
				error = ErrUnexpectedEndOfText;
				return ErrorOccurred;
			}
			else
			{
				error = ErrInternal;
				return ErrorOccurred;
			}""", """			const int target = sd->next[ ch];
			if (target == -1 && sd->fallbackState == -1)
			{
				error = (sd->missError != -1) ? (Error)sd->missError : (ch == EndOfText) ? ErrUnexpectedEndOfText : ErrInternal;
				return ErrorOccurred;
			}
			state = (STMState)(target != -1 ? target : sd->fallbackState);
			if (target != -1) m_src.skip();"""),
 (I+"xmlscanner.hpp", """						if ((mask&(1<<sd->action.arg)) != 0)
						{
							if (!parseToken( *tokenDefs[ sd->action.op])) return ErrorOccurred;
						}
						else
						{
							if (!skipToken( *tokenDefs[ sd->action.op])) return ErrorOccurred;
						}""", """						const IsTokenCharMap& tokenDef = *tokenDefs[ sd->action.op];
						const bool enabled = ((mask >> sd->action.arg) & 1) != 0;
						if (!(enabled ? parseToken( tokenDef) : skipToken( tokenDef))) return ErrorOccurred;"""),
 (I+"xmlscanner.hpp", """						push( '?'); push( 'x'); push( 'm'); push( 'l');""", """						for (const char* hh = "?xml"; *hh; ++hh) push( *hh);"""),
 (I+"xmlscanner.hpp", """		do
		{
			ControlCharacter ch;
			while (isTok[ (unsigned char)(ch=m_src.control())] || ch == Amp)
			{
				m_src.skip();
			}
		}
		while (m_src.control() == Any);
		return true;""", """		for (;;)
		{
			const ControlCharacter ch = m_src.control();
			if (ch != Amp && ch != Any && !isTok[ (unsigned char)ch]) return true;
			m_src.skip();
		}"""),
 (I+"xmlscanner.hpp", """			if (element.type() == iter.element.type())
			{
				if (element.type() == Exit || element.type() == None) return true;  //equal only at beginning and end
			}
			return false;""", """			const ElementType tp = element.type();
			return tp == iter.element.type() && (tp == None || tp == Exit);"""),
 (I+"xmlscanner.hpp", """			element.m_type = input->nextItem(mask);
			if (element.m_type == ErrorOccurred)
			{
				element.m_content = getErrorString( input->error);
				element.m_size = std::strlen( element.m_content);
			}
			else
			{
				element.m_content = input->getItemPtr();
				element.m_size = input->getItemSize();
			}""", """			const ElementType tp = input->nextItem( mask);
			element.m_type = tp;
			if (tp != ErrorOccurred)
			{
				element.m_size = input->getItemSize();
				element.m_content = input->getItemPtr();
				return;
			}
			const char* text = getErrorString( input->error);
			element.m_content = text;
			element.m_size = std::strlen( text);"""),
 # selector
 (I+"xmlpathselect.hpp", """		while (stateidx!=-1)
		{
			const State& st = atm->states[ stateidx];""", """		for (; stateidx!=-1; stateidx = atm->states[ stateidx].link)
		{
			const State& st = atm->states[ stateidx];"""),
 (I+"xmlpathselect.hpp", """				tokens.push_back( Token( st, stateidx));
			}
			stateidx = st.link;
		}""", """				tokens.push_back( Token( st, stateidx));
			}
		}"""),
 (I+"xmlpathautomaton.hpp", "#include <vector>", "#include <vector>\n#include <algorithm>"),
 # output to a stream
 (I+"ostreamoutput.hpp", """		std::size_t ci = 0;
		for (; ci != ccsize; ++ci)
		{
			(*m_out) << cc[ ci];
		}""", """		m_out->write( cc, (std::streamsize)ccsize);"""),
 # automaton
 (I+"xmlpathautomaton.hpp", """				newkey = new char[ p_keysize];
				for (ii=0; ii<p_keysize; ii++) newkey[ii]=p_key[ii];""", """				newkey = new char[ p_keysize];
				std::copy( p_key, p_key + p_keysize, newkey);"""),
]
for g in which:
    for f, a, b in G[g]:
        p = os.path.join(d, f); t = open(p).read()
        if t.count(a) != 1: print("%s: %s: found %d times: %.60r" % (g, f, t.count(a), a)); continue
        open(p, "w").write(t.replace(a, b))
