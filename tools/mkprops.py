#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
I="include/textwolf/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=I+w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    assert statement.count(". ")<=2,(id,statement.count(". "))
    P.append(d)

prop("E01","Every Unicode encoding writes and reads each character by its standard bytes",
 "For each of the Unicode encodings offered (UTF-8, UTF-16 LE/BE, UCS-2 LE/BE, UCS-4 LE/BE), printing any character the encoding can represent (surrogate code points excluded) yields exactly the byte sequence of the encoding's definition. Reading any sequence of such characters back yields exactly the same characters in the same order, consumes exactly their bytes, reports the byte position of each character, classifies the ASCII ones as themselves and no other character as ASCII, and copying the current character to an output of the same encoding yields exactly its bytes, whatever was accessed before.",
 ["inputs"],"all characters 1..MaxChar of each encoding except surrogates, all sequences of them, read in any mixture of value / ASCII / control-class accesses, skips without a prior access, and copies of the reader",
 "The existing test reads 4096 random characters per encoding with one fixed access pattern through one iterator and never compares the bytes with the standard, so a symmetrical error in printing and reading, a rare length class or a different access order stays invisible.",
 ["charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","textscanner.hpp","charset_interface.hpp"],
 [("UTF8 size table, value and print","charset_utf8.hpp"),("UTF16 surrogate arithmetic","charset_utf16.hpp"),("UCS2/UCS4 byte order","charset_ucs.hpp"),("TextScanner::chr/control/ascii/skip","textscanner.hpp")],
 ["bytes appended to the output buffer by print","TextScanner::chr()/ascii()/control()/getPosition()"],
 [("buf/state","bytes of the current character fetched so far","textscanner.hpp")])

prop("E02","Latin code pages map bytes and characters exactly as the ISO-8859 parts define",
 "For each of the nine supported ISO Latin code pages (ISO-8859-1, -2, -3, -4, -9, -10, -13, -14 and -15 under the indices 1 to 9), reading a byte that the part defines yields exactly the character the standard assigns to it, and printing any character that the part contains yields exactly its one byte. Any other code page index is refused with the code-page error and none of the accepted ones.",
 ["inputs","configurations"],"all code pages x all defined bytes x all characters of the page, and all index values outside 1..9",
 "The existing test checks each page only against itself (random bytes read and printed with the same tables), so a wrong entry present in both directions, or characters above U+00FF printed as references, goes unnoticed.",
 ["codepages.hpp","charset_isolatin.hpp"],
 [("forward, inverse and overlay tables","codepages.hpp"),("IsoLatin::value/print","charset_isolatin.hpp")],
 ["TextScanner::chr() over a byte","bytes printed","exception cause"])

prop("E03","Characters an output encoding lacks become references that identify them",
 "Printing a character that the output encoding cannot represent (beyond U+FFFF in UCS-2, beyond U+10FFFF in UTF-16, not in the selected Latin page) appends, in the units of that encoding, a numeric character reference denoting exactly this character and nothing else. Scanning the resulting text therefore delivers the original character, and representable characters are never replaced by a reference.",
 ["inputs","configurations"],"all characters from 1 to 0x7FFFFFFF except surrogates x all encodings and code pages, alone and inside whole documents transcoded from any input encoding",
 "No existing test prints a character the target encoding lacks.",
 ["charset_interface.hpp","charset_isolatin.hpp","charset_ucs.hpp","charset_utf16.hpp","xmlscanner.hpp"],
 [("Encoder::encode","charset_interface.hpp"),("print fallbacks","charset_isolatin.hpp"),("print fallbacks","charset_ucs.hpp"),("print fallbacks","charset_utf16.hpp")],
 ["bytes printed","events of a re-scan"])

prop("E04","Broken multi-byte sequences are flagged, never read as another character",
 "In UTF-8 a character whose lead byte is not followed by the continuation bytes it announces (also at the end of the text), or a stray continuation byte, is delivered as the encoding's maximum character value, and in UTF-16 a leading surrogate not followed by a trailing one is delivered as U+FFFF; they are never delivered as some ordinary character nor classified as ASCII. Reading goes on at a fixed distance behind it, so that well-formed characters before the damage and after the span of the announced length are still read unchanged.",
 ["inputs"],"all well-formed texts in UTF-8 and UTF-16 LE/BE with any number of damaged characters (truncated, interrupted, stray) at any position",
 "The existing tests contain only well-formed encoded text.",
 ["charset_utf8.hpp","charset_utf16.hpp","textscanner.hpp"],
 [("continuation check in UTF8::value","charset_utf8.hpp"),("low surrogate check in UTF16::value_impl","charset_utf16.hpp")],
 ["TextScanner::chr()/ascii()/getPosition()"])

prop("S01","The scanner delivers exactly the document: every event, in order, with its value",
 "Scanning a well-formed document yields precisely the sequence of header, document-declaration, tag, attribute, content and close events that its markup denotes, each with its exact value, followed by the end event, and nothing else; comments and processing instructions yield no event (white space outside the root element may be reported as content). After the end the scanner keeps reporting the end and no error.",
 ["inputs"],"all well-formed documents within the supported syntax: header and DOCTYPE forms, any nesting, any name and value characters and lengths (also beyond 8 KB), quoting and whitespace variants, comments, processing instructions, references, mixed content",
 "The tests scan a handful of fixed documents; the events of a document are quantified over all documents and all lexical variants.",
 ["xmlscanner.hpp","textscanner.hpp"],
 [("Statemachine table","xmlscanner.hpp"),("parseToken / nextItem","xmlscanner.hpp"),("ControlCharMap","textscanner.hpp")],
 ["nextItem() type","getItemPtr()/getItemSize()/getItem()","the scanner's iterator interface"],
 [("state","state of the scanner automaton","xmlscanner.hpp"),("tokstate","state inside a token","xmlscanner.hpp")])

prop("S02","Events and values do not depend on input or output encoding",
 "The same document scanned from any of the supported input encodings into any of the supported output encodings yields the same sequence of events, and each value decoded from the output encoding is the same text (characters the output encoding lacks appear as their numeric reference).",
 ["inputs","configurations"],"all well-formed documents x all 8 input encodings (with all Latin pages that can represent the document) x all 8 output encodings",
 "The tests use a few fixed combinations on fixed documents that are mostly ASCII.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp"],
 [("copychar fast path vs decode/encode","textscanner.hpp"),("push","xmlscanner.hpp")],
 ["nextItem() type","item bytes decoded by an independent decoder"])

prop("S03","Feeding the input in any chunks gives the same result as feeding it at once",
 "When the input is handed to the scanner piece by piece, resuming after each interruption, the events, values, token positions and errors are identical to those of scanning the complete input at once, wherever the input is cut: also inside a character, a reference, a keyword, a line ending or a markup delimiter, and also for empty pieces, event masks and malformed documents.",
 ["inputs","histories"],"all inputs (well-formed, mutated, arbitrary) x all ways to cut them x all input encodings x all masks",
 "The existing tests cut fixed documents at a fixed chunk size of one; the property quantifies over documents, cuts and encodings.",
 ["xmlscanner.hpp","sourceiterator.hpp","textscanner.hpp"],
 [("parseTokenRecover and token states","xmlscanner.hpp"),("SrcIterator::operator* / putInput","sourceiterator.hpp"),("partial character buffer","textscanner.hpp")],
 ["nextItem() type","item bytes","getTokenPosition()","getError()"],
 [("tokstate","where to resume inside a token","xmlscanner.hpp"),("m_abspos","absolute input position","sourceiterator.hpp")])

prop("S04","All input sources deliver the same document",
 "Scanning the same bytes through a plain character pointer, a sized string, an input stream with any buffer size and any pattern of short reads, a chunk source or a user-written iterator yields identical events, values, errors and (as long as the text does not end inside a character) token positions.",
 ["inputs","configurations"],"all inputs x all source iterators x all stream buffer sizes (from 1 byte) x all short-read patterns",
 "The one test of the stream source compares one random text with the default buffer size.",
 ["istreamiterator.hpp","cstringiterator.hpp","sourceiterator.hpp","textscanner.hpp"],
 [("IStreamIterator::fillbuf/operator++","istreamiterator.hpp"),("CStringIterator","cstringiterator.hpp"),("position traits","textscanner.hpp")],
 ["nextItem() type","item bytes","getTokenPosition()","getError()"])

prop("S05","Any byte sequence is scanned safely and to an end",
 "For every byte sequence, in every input encoding and through every source with a defined end, scanning terminates after a number of events linear in the input size by reporting the end or an error, without reading or writing outside its buffers, leaking or invoking undefined behaviour; continuing after the end or after an error is equally safe.",
 ["inputs"],"all byte sequences: arbitrary bytes, token soups, documents truncated or damaged anywhere, in all encodings, with any mask",
 "The tests feed well-formed documents only.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp"],
 [("state machine end-of-text transitions","xmlscanner.hpp"),("bounded entity buffer","xmlscanner.hpp"),("bounded character buffer","textscanner.hpp")],
 ["nextItem() type","address/undefined-behaviour sanitizer","number of source steps"])

prop("S06","An incomplete or ill-formed document ends in a described error, not in its end",
 "A document that is cut off inside markup (tag, attribute, header, declaration, comment, processing instruction or marked section), or that violates the markup syntax (missing equal sign, attribute value without its right or its left quote, misplaced character in a tag or header, text before the first markup, a wrong comment or section opener, an undefined entity), is reported by an error event carrying an error code and a text, after exactly the events of the part before the damage, and never by the end event or silently altered events.",
 ["inputs"],"all well-formed documents x all cut positions inside markup x all listed syntax violations at every place where they can occur",
 "The tests contain no ill-formed document.",
 ["xmlscanner.hpp"],
 [("miss/fallback entries of the Statemachine","xmlscanner.hpp"),("getError","xmlscanner.hpp"),("iterator Element::error","xmlscanner.hpp")],
 ["nextItem() type","getError()","iterator element error()"])

prop("S07","References and line endings are resolved exactly, malformed ones kept verbatim",
 "Inside content and attribute values every decimal or hexadecimal character reference of up to 15 digits and every predefined entity is replaced by its character, every entity the caller defined (named by at most 15 ASCII letters, digits, dots, colons or underscores) is replaced by the character given for its name, and an entity defined by nobody is an error. CR LF and a lone CR are delivered as one line feed while carriage returns written as references are preserved, and an ampersand sequence that is not a reference is delivered unchanged.",
 ["inputs","configurations"],"all contents and attribute values mixing text, references of any length and base, predefined and user entities, malformed references and all line endings, in every encoding",
 "The tests use one or two fixed references and no user-defined entity, no malformed reference and no lone CR.",
 ["xmlscanner.hpp"],
 [("parseEntity/parseNumericBaseEntity/parseNamedEntity/fallbackEntity","xmlscanner.hpp"),("EOL state in parseToken","xmlscanner.hpp"),("pushPredefinedEntity / entity map","xmlscanner.hpp")],
 ["item bytes of content and attribute value events"])

prop("S08","Masking event values changes nothing but those values",
 "Scanning a well-formed document with any sequence of masks (chosen anew for every event) yields the same sequence of event types as scanning it unmasked, and every event whose type is enabled in the mask used for it carries the same value and token position as without masking.",
 ["inputs","histories"],"all well-formed documents x all mask sequences",
 "The tests always scan with the default mask.",
 ["xmlscanner.hpp"],
 [("skipToken vs parseToken","xmlscanner.hpp"),("mask test in nextItem","xmlscanner.hpp")],
 ["nextItem(mask) type","item bytes","getTokenPosition()"])

prop("S09","Positions locate each token in the source",
 "For every event with a value taken from the text, the token position is the byte offset at which the value's source text starts in the input, in every encoding, through every source that has positions and however the input is chunked. The current source position reported after an event lies between the end of the token and the start of the character following the next one, and positions never decrease.",
 ["inputs","configurations"],"all well-formed documents x all encodings x all positioned sources x all chunkings",
 "The tests check positions on one document in single-byte encoding only.",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp","istreamiterator.hpp","cstringiterator.hpp"],
 [("m_tokenpos","xmlscanner.hpp"),("Traits::getPosition","textscanner.hpp"),("position()","sourceiterator.hpp"),("position()","istreamiterator.hpp")],
 ["getTokenPosition()","getPosition()"])

prop("S10","Copies and parallel scanners are independent",
 "A copy of a scanner taken at any moment (between events or while waiting for the next chunk) continues with exactly the events, values and positions that the original would deliver, and neither influences the other. Any number of scanners with any encodings and code pages used alternately in one program deliver what each delivers alone.",
 ["histories","inputs"],"all documents x all moments of copying x all interleavings of calls on several scanners",
 "No test copies a scanner or runs two at a time.",
 ["xmlscanner.hpp","textscanner.hpp","istreamiterator.hpp"],
 [("copy constructors","xmlscanner.hpp"),("copy constructor","textscanner.hpp"),("copy constructor","istreamiterator.hpp")],
 ["nextItem() type","item bytes","getTokenPosition()"])

prop("P01","The printer enforces the order of document parts and rejects misuse cleanly",
 "Over any sequence of print operations the printer accepts exactly what its protocol allows: the header only as the first thing, everything else only after the header (or at once in a sub document), a document type only outside of elements, an attribute name only in an open start tag, a value and nothing else directly after an attribute name, and a close only for an open element. A rejected operation returns failure with a non-empty error text and changes neither output nor state, and copying, assigning or resetting the printer copies or resets exactly this state.",
 ["histories"],"all sequences of print, copy, assignment and reset operations with all arguments (a document type after the root element is left open)",
 "The tests contain no printer test at all.",
 ["xmlprinter.hpp","xmltagstack.hpp"],
 [("m_state checks","xmlprinter.hpp"),("TagStack","xmltagstack.hpp")],
 ["return value","lasterror()","state()","bytes appended"],
 [("m_state","printer protocol state","xmlprinter.hpp"),("m_tagstack","open tags","xmltagstack.hpp")])

prop("P02","What the printer writes reads back as exactly what was printed",
 "Every document produced by accepted print operations is well-formed XML in the output encoding whose elements, attributes and text are exactly those passed in (names, values and their nesting), as judged by an independent parser and by the library's own scanner, whatever the characters in the values (including markup characters, quotes, line ends, control characters, which are taken for ordinary ones, and characters the output encoding lacks) and whatever the application and output encodings. The bytes are the same for every kind of output buffer.",
 ["inputs","histories","configurations"],"all sequences of accepted operations making up one root element with valid names x all texts without the null character x all combinations of output and application encoding x string, vector, stream and fixed buffers",
 "The tests contain no printer test at all.",
 ["xmlprinter.hpp","xmltagstack.hpp","ostreamoutput.hpp","staticbuffer.hpp"],
 [("printToBufferSubstChr escaping","xmlprinter.hpp"),("printHeader/printDoctype","xmlprinter.hpp"),("TagStack","xmltagstack.hpp")],
 ["bytes in the output buffer","events of a re-scan"])

prop("X01","Path selection reports exactly the nodes each expression denotes",
 "For every document and every set of path expressions, feeding the document's events to the selector reports at each event exactly the types of those expressions that select it: child and descendant steps by name or wildcard, attribute conditions by name or wildcard and value, attribute values, element content with index ranges, and element ends, each as often as there are ways to match.",
 ["inputs","configurations","histories"],"all documents (any depth and fan-out, repeated names, header attributes) x all expressions built from the step kinds, and sets of them sharing prefixes",
 "The tests run a dozen fixed expressions on fixed documents.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],
 [("expand/match/produce/fetch","xmlpathselect.hpp"),("scope and follow stacks","xmlpathselect.hpp"),("defineNext/defineOutput","xmlpathautomaton.hpp")],
 ["type numbers delivered by the iterator returned from push()"],
 [("tokens/follows/scopestk","active path steps per open element","xmlpathselect.hpp")])

prop("X02","Textual path expressions equal the composed ones; malformed ones are refused",
 "Parsing any textual path expression of the documented abbreviated syntax, with optional blanks between tokens, in any source and automaton encoding, gives an automaton that selects the same as the expression composed by the corresponding calls, for all names, values and ranges. A malformed expression is refused with a position inside or directly behind the text and leaves the automaton selecting what it did before.",
 ["inputs","configurations"],"all expressions over the abbreviated syntax x spacing and quoting variants x encodings, and malformed expressions (unfinished, unknown operators, wrong order)",
 "The tests parse a dozen fixed expressions in one encoding.",
 ["xmlpathautomatonparse.hpp","xmlpathautomaton.hpp"],
 [("addExpression","xmlpathautomatonparse.hpp"),("isIdentifierChar/parseIdentifier/parseValue","xmlpathautomatonparse.hpp"),("doSelect key encoding","xmlpathautomaton.hpp")],
 ["return value of addExpression","types selected on documents"])

prop("X03","Expressions in one automaton, and selectors on one automaton, do not interfere",
 "What an expression selects does not depend on which other expressions are defined in the same automaton, on the order of their definition, on other selectors using the automaton, or on the selector being copied at any moment, nor on the results being read only partly or through copies of the result iterator after which it still selects the same.",
 ["configurations","histories"],"all sets of expressions and their permutations x documents x interleaved and copied selectors x ways of reading the results",
 "The tests use one selector per fixed automaton.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],
 [("state sharing in defineNext","xmlpathautomaton.hpp"),("scope masks","xmlpathselect.hpp"),("copy constructor, iterator","xmlpathselect.hpp")],
 ["type numbers delivered"])

prop("H01","The header parser finds the declared encoding from the first bytes, however fed",
 "For every document start in an ASCII-based or zero-interleaved (UTF-16/UCS) encoding the header parser reports the end of the header with exactly the declared encoding (or none, if there is no declaration or no header), retaining all bytes fed, irrespective of how they are cut into chunks. Malformed headers give a failure with an error text, incomplete ones a request for more without an error, and a longer run of zero bytes than any encoding produces is refused by exception.",
 ["inputs","histories"],"all XML headers (attribute orders, quotes, blanks, header absent) x all encodings x all chunkings x clear and copy operations, and malformed headers",
 "The tests parse the header of a few fixed documents in one piece.",
 ["xmlhdrparser.hpp"],
 [("parse state machine","xmlhdrparser.hpp"),("nextChar zero skipping","xmlhdrparser.hpp")],
 ["parse() result","encoding()","lasterror()","consumedData()","charsConsumed()"],
 [("m_state/m_idx/m_item","parse progress across chunks","xmlhdrparser.hpp")])

prop("I01","A failing input stream is reported and never mistaken for the end",
 "If the underlying input stream fails at any read, the file-read error is raised to the caller at that point and no end event or further document event based on missing data is delivered; all events delivered before are those of the undamaged document. If no read fails, no such error is raised and every byte is delivered once and in order, for any buffer size and pattern of short reads.",
 ["fault_sequences","inputs"],"all documents x all positions and kinds of read failure (own stream interface and standard streams) x all buffer sizes and short-read patterns",
 "No test injects a read failure.",
 ["istreamiterator.hpp"],
 [("StdInputStream::read","istreamiterator.hpp"),("fillbuf error check","istreamiterator.hpp")],
 ["exception raised","events delivered before"])

prop("U01","The fixed-size buffer behaves as a bounded sequence and never overruns",
 "Over any history of operations the fixed-size output buffer holds exactly the first characters appended that fit, reports an overflow if and only if an appended character had to be dropped since the last clear (resizing beyond the capacity just fills the buffer up), refuses access beyond its content by exception, and never reads or writes outside the memory it was given; copies (by construction or assignment between buffers owning their memory) are independent of and equal to the original and release what they allocate.",
 ["histories"],"all sequences of append, push, resize, clear, access and copy operations on owned and borrowed buffers of any size (including 0)",
 "The tests use the buffer only as large enough output.",
 ["staticbuffer.hpp"],
 [("push_back/append/resize","staticbuffer.hpp"),("at/operator[]","staticbuffer.hpp"),("copy constructor","staticbuffer.hpp")],
 ["size(), content, overflow()","exceptions","address sanitizer and leak check"])

prop("U02","The tag stack returns exactly what was pushed, last first",
 "Over any history of push, pop, top, clear, copy and assignment operations with values of any length and content the tag stack behaves as an ideal last-in-first-out stack of byte strings, independent of its growth, and is empty exactly when everything pushed has been popped or cleared.",
 ["histories"],"all operation sequences with value lengths from 0 to several times the initial capacity",
 "No test uses the tag stack.",
 ["xmltagstack.hpp"],
 [("push growth and alignment","xmltagstack.hpp"),("topofs","xmltagstack.hpp")],
 ["top(), empty()","address sanitizer"])

prop("R01","Every error and event code has its own correct description",
 "Each exception cause, scanner error code and event type maps to a distinct non-null text naming that very condition, each failing operation raises the cause documented for it, and copying or assigning an exception preserves cause and text; a scanner error is reported once together with its text and is then cleared.",
 ["inputs","histories"],"all causes, error codes and event types, and all operations that raise them with generated arguments",
 "The tests never look at error texts or exception causes.",
 ["exception.hpp","xmlscanner.hpp"],
 [("exception::what table","exception.hpp"),("getErrorString / getElementTypeName","xmlscanner.hpp")],
 ["what()","getErrorString()","getElementTypeName()","getError()"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
