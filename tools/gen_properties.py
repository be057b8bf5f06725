#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                  "observe_at":observe or [],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

MPD="mpd/mpd.go"; IO="mpd/io.go"; PER="mpd/period.go"; PAR="mpd/parents.go"; DUR="mpd/duration.go"
S35="mpd/scte35.go"; S214="mpd/scte214.go"; UP="mpd/up.go"; PTR="mpd/ptrs.go"
MAR="xml/marshal.go"; READ="xml/read.go"; TI="xml/typeinfo.go"; X="xml/xml.go"

p("C01","Reading an MPD and writing it back preserves every schema-defined item",
 "For every well-formed MPD document built from the elements and attributes the DASH schema (and the supported extension schemas) define, reading it and writing it back yields a document with the same elements, attributes, values, text and sibling order, in the same XML namespaces and in schema element order. Nothing is lost, invented, moved to another element or given another value; only the documented differences are allowed (attribute order, prefixes, lexical form of numbers and durations within a millisecond, optional attributes that hold their zero value).",
 ["inputs"],"every element/attribute slot of the MPD schema, in any combination, multiplicity, nesting depth and with any legal value of the slot's type",
 "The tests round-trip about 100 fixture files, which use a minority of the ~450 element/attribute slots and few values per slot; a wrong tag, wrong pointer/omitempty choice or wrong type on any other slot is invisible to them.",
 [MPD,S35,S214,UP,MAR,READ],
 [("struct tags mapping the schema","mpd/mpd.go"),("Unmarshal","xml/read.go unmarshal"),("marshalValue","xml/marshal.go")],
 observe=["MPDFromBytes + MPD.Write output, parsed by an independent XML parser"])

p("C02","A written in-memory MPD reads back as an equal object tree",
 "For every MPD object tree assembled in memory with legal XML character data, writing it (compact or with any indentation, with or without XML header) and reading the result gives an object tree with the same values in every exported field, the same lengths and order of every list, and the same presence or absence of every optional (pointer) field. Writing never modifies the object tree.",
 ["inputs"],"all MPD object trees reachable through the exported fields, with arbitrary legal strings, integer extremes, non-negative durations, floats including infinity, and lists of any length",
 "Existing tests start from documents, so values no fixture contains (extreme integers, strings with markup or control characters, empty-versus-absent pointers, long lists) are never written.",
 [MPD,S35,S214,UP,DUR,MAR,READ],
 [("marshal","xml/marshal.go"),("unmarshal","xml/read.go"),("Duration / FloatInf64 attribute marshalers","mpd/duration.go, mpd/mpd.go")],
 observe=["MPD.Write, MPDFromBytes, reflection walk over exported fields"])

p("C03","Written XML is always well-formed and cannot be injected into",
 "Whatever strings an application puts into an MPD object tree (markup, quotes, control characters, invalid UTF-8, very long text), writing either succeeds with one well-formed, namespace-correct XML document whose element and attribute structure is the one of the object tree and whose values are the strings with illegal characters replaced by U+FFFD, or fails with an error. String content never creates, removes or renames an element or attribute.",
 ["inputs"],"all object trees with arbitrary byte strings in every string field, all indent strings of spaces and tabs",
 "Tests only write benign strings; escaping errors show only for particular characters in particular positions (attribute, text, chunk boundary).",
 [MAR,X,MPD],
 [("EscapeText/escapeText","xml/xml.go"),("writeStart","xml/marshal.go"),("createAttrPrefix","xml/marshal.go")],
 observe=["MPD.Write output checked by an independent strict XML+namespaces parser"])

p("C04","Any input bytes are handled: an MPD or an error, never a crash or hang",
 "Reading arbitrary bytes (random, mutated, truncated or deeply nested documents) terminates with either an MPD or an error and never panics, and an input that is not one well-formed start-to-end MPD element (unbalanced tags, missing end, undefined entities, wrong root element) is reported as an error. Whatever reading accepts can be written again without panicking and the written text can be read again.",
 ["inputs"],"all byte strings",
 "Tests have a few malformed strings; the space of malformed documents and of odd but accepted documents (empty elements everywhere, missing attributes) is unbounded.",
 [READ,X,MAR,IO,DUR],
 [("Decoder syntax errors","xml/xml.go"),("depth limit and reflection guards","xml/read.go"),("nil guards in marshalAttr","xml/marshal.go")],
 observe=["MPDFromBytes / ReadFromString outcome, MPD.Write outcome"])

p("C05","XML spelling does not matter: equivalent documents read to equal MPDs",
 "Two documents with the same XML information (different namespace prefixes and declaration places, attribute order, quote style, character and predefined entity references, CDATA sections, comments, processing instructions, XML declaration, byte order mark, insignificant whitespace also inside list values and around numbers, empty-tag versus start/end-tag form) read to equal MPD object trees. The equal trees are then written as identical bytes (as equal XML trees where arbitrary attributes are kept, among them namespace declarations).",
 ["inputs"],"all documents of the schema-driven generator crossed with all combinations of the listed spelling changes",
 "Fixtures fix one spelling each; equivalence under re-spelling is a relation between two documents, which no existing test states.",
 [X,READ,TI],
 [("translate (namespace resolution)","xml/xml.go"),("name matching","xml/read.go"),("text/entity decoding","xml/xml.go")],
 observe=["MPDFromBytes results compared"])

p("C06","Unknown elements and attributes are ignored without side effects",
 "Adding elements and attributes that are unknown to the schema (foreign namespace with names the schema does not define at that place, or unknown names) at any place of an MPD document, with any content below them, changes nothing in what is read for the known elements and attributes, and the additions do not appear in the written MPD (except where arbitrary attributes or Ext content are documented to be kept). Unknown content never makes reading fail as long as the document is well-formed.",
 ["inputs"],"all documents of the generator crossed with all insertion points and foreign subtrees (including nested elements that reuse DASH local names in other namespaces below them)",
 "Documented limitation 1 is only exercised by incidental unknown content of a few fixtures.",
 [READ,X],[("unmarshalPath / Skip of unmatched elements","xml/read.go"),("attribute matching","xml/read.go")],
 observe=["MPDFromBytes results with and without additions compared; written output"])

p("C07","Duration strings are parsed exactly, and everything else is rejected",
 "A duration string of the form P[nD][T[nH][nM][nS]] (optional fraction on seconds, at least one component) is parsed to its exact value (to the nanosecond for up to nine decimals; further decimals may be cropped or rounded), and a string that does not have that form (negative, wrong order, repeated or unknown unit, missing number or designator, fraction outside seconds, units on the wrong side of T, surrounding text) or whose value does not fit in the duration type is rejected with an error. A duration attribute never silently gets a value other than the one its text denotes.",
 ["inputs"],"all strings; in particular all combinations of components, digits up to overflow size, and single-edit mutations of valid strings",
 "The table test has about 20 strings; acceptance of a malformed string or a wrap-around needs specific combinations.",
 [DUR],[("ParseDuration","mpd/duration.go"),("UnmarshalXMLAttr","mpd/duration.go")],
 observe=["ParseDuration, MPDFromBytes on a duration attribute"])

p("C08","Durations are written canonically and denote the same duration",
 "Every duration of at least half a millisecond is written as a valid xs:duration string denoting the value rounded to the nearest millisecond, with hours as largest unit, no trailing zeros in the fraction, and without minutes and seconds that are zero at the end (PT1H, PT2M, but PT1H0M1S); shorter durations keep nanosecond precision, zero is PT0S and a negative value has a leading minus. Parsing a written non-negative duration gives the written value back (except in the last millisecond of the type's range), and writing that again gives the same string.",
 ["inputs"],"all int64 nanosecond values",
 "The test samples a few values; rounding and carry behaviour (x.9995 s, 59.9996 s, exact minutes and hours, huge values) is a property of the whole range.",
 [DUR],[("Duration.String","mpd/duration.go"),("fmtFrac/fmtInt","mpd/duration.go")],
 observe=["Duration.String, ParseDuration"])

p("C09","Date-time conversions are exact, consistent and invertible",
 "Converting seconds (integer or float) or milliseconds since the epoch to a date-time string gives the RFC 3339 UTC string of that instant cropped to milliseconds, for any supported year 0000-9999 including times before 1970, and converting an RFC 3339 date-time string (any zone offset, any fraction) to seconds gives that instant. The integer, millisecond and float conversions agree with each other and converting back gives the starting value within float precision; strings that are not RFC 3339 date-times are rejected.",
 ["inputs"],"all instants in years 0000-9999, all UTC offsets, all fraction lengths",
 "Tests sample a handful of instants; sign, leap-year, carry and range errors are value dependent.",
 [IO],[("ConvertToDateTime*","mpd/io.go"),("DateTime.ConvertToSeconds","mpd/io.go")],
 observe=["ConvertToDateTime, ConvertToDateTimeS, ConvertToDateTimeMS, ConvertToSeconds"])

p("C10","Period start and duration follow the ISO 23009-1 timeline rules",
 "For every list of periods, static or dynamic, the start of a period is its own start attribute, else the previous period's start plus that period's duration, else zero for the first period of a static MPD, else unknown (error); its duration is its own duration attribute, else the next period's start attribute minus its start, else for the last period of a static MPD the media presentation duration minus its start, else unknown (error). Absolute start is availabilityStartTime plus start, and any value returned is the one these rules give: a value is never invented where the rules give none. A period that is not in an MPD reports an error.",
 ["inputs"],"all period lists with any presence pattern of start and duration attributes, MPD type, mediaPresentationDuration and availabilityStartTime",
 "The table test covers about 15 hand-picked patterns of up to 3 periods; the rules are recursive over the list.",
 [PER,MPD],[("GetStart","mpd/period.go"),("GetDuration","mpd/period.go"),("AbsoluteStart","mpd/period.go")],
 observe=["Period.GetStart, GetDuration, AbsoluteStart"])

p("C11","Period classification and index follow the ISO 23009-1 rules",
 "For every MPD and each of its periods the reported index is the period's position in the MPD (an error if it has no parent or is not in it), and the reported type (regular, early available, early terminated, or undecidable between regular and early terminated) is the one given by the start/duration attributes of the period and its neighbours, the MPD type and the presence of minimumUpdatePeriod.",
 ["inputs"],"all period lists with any presence pattern of start and duration, MPD type and minimumUpdatePeriod",
 "Only a few patterns are tabled in the tests; the classification depends on position, neighbours and MPD-level attributes together.",
 [PER],[("GetType","mpd/period.go"),("GetIndex","mpd/period.go")],observe=["Period.GetType, GetIndex"])

p("C12","Parent links always lead to the actual container",
 "After reading an MPD, after setting parents explicitly, and after any sequence of append operations, every period, adaptation set (including empty adaptation sets), representation and sub-representation reports exactly the object that contains it as its parent, appended objects are last in their container, and no other list or object is changed. Parent links are never visible in written XML.",
 ["histories"],"all sequences of build, append, set-parents, read, clone and re-append operations over MPD trees",
 "Tests append once per type; stale or missing links after longer histories (append then re-read, clone then append, moving a subtree) are not exercised.",
 [PAR,MPD,IO],[("SetParents at four levels","mpd/parents.go"),("Append*","mpd/parents.go"),("SetParents call after unmarshal","mpd/io.go")],
 state=[("parent","unexported back pointer","mpd/mpd.go Period, AdaptationSetType, RepresentationType, SubRepresentationType")],
 observe=["Parent() on every node"])

p("C13","Clones are equal, fully independent, and keep correct parent links",
 "Cloning an MPD, a period or an adaptation set gives an object equal to the original in every exported field (and written as the same XML), whose parent links lead to the clone's own objects (and a cloned period or adaptation set has no parent). No later change made through the clone is visible through the original or its parents, and vice versa.",
 ["inputs","histories"],"all MPD object trees and all single mutations at any depth of either copy",
 "The tests clone one fixture and compare; aliasing of one of several hundred fields only shows when exactly that field is mutated.",
 [MPD,PER],[("Clone","mpd/mpd.go Clone, AdaptationSetType.Clone; mpd/period.go Period.Clone"),("SetParents","mpd/parents.go")],
 observe=["exported fields of clone and original after mutations, pointer disjointness"])

p("C14","Representation-level effective values follow inheritance and templates",
 "For every representation inside an adaptation set, the effective MIME type, codecs, content protections and segment template are the representation's own when present and otherwise those of the adaptation set, and the effective init and media URLs are those of the effective segment template with every $RepresentationID$ and $Bandwidth$ replaced (once: the replacement is not searched again). The operations report an error (or an empty value) when there is nothing to inherit, never fail otherwise, and never modify the MPD.",
 ["inputs"],"all combinations of own/inherited values, representation ids (including regexp and template metacharacters), bandwidths and template strings",
 "Tests use two fixtures; precedence and substitution corner cases (own empty template, id containing '$', repeated identifiers, absent parent value) are combinatorial.",
 [MPD],[("RepresentationType.Get*","mpd/mpd.go"),("AdaptationSetType.Get*","mpd/mpd.go")],
 observe=["GetMimeType, GetCodecs, GetContentProtections, GetSegmentTemplate, GetInit, GetMedia"])

p("C15","SCTE-35 content survives with its namespace, attributes and Ext intact",
 "For every event carrying SCTE-35 content, as Signal or as a direct SpliceInfoSection, under the canonical or the 2016 namespace URI and with any prefix, reading and writing preserves every SCTE-35 element, attribute, value and order, the namespace URI actually used on every element, unknown attributes, and the content of Ext elements verbatim. The uniform accessor returns the splice info section in whichever form it was given, and objects built with the constructors are written in the canonical namespace.",
 ["inputs"],"all SCTE-35 trees of the SCTE-35 schema, both namespace URIs, any prefix scheme, any Ext content and extra attributes",
 "About ten fixtures cover part of the ~30 SCTE-35 types; namespace replay is per element type.",
 [S35,MAR,READ],[("embedded XMLName passthrough","mpd/scte35.go"),("any,attr and innerxml fields","mpd/scte35.go"),("SpliceInfo","mpd/scte35.go")],
 observe=["MPDFromBytes + Write output parsed independently; SpliceInfo(); New* constructors"])

p("C16","Extension namespaces are bound by URI when read and correctly declared",
 "Elements and attributes of the supported extension namespaces (cenc, mspr, dashif, mas, urlparam, SCTE-214, xlink, xsi) are recognised under any prefix bound to their URI, are not recognised under another URI, and are written in exactly that namespace with a declared prefix; all other elements are written in the DASH namespace. The namespace of every element and attribute in the output equals that of the input.",
 ["inputs"],"all documents with extension content, any prefix assignment (swapped, shadowed, default-namespace form, declared anywhere), and decoys with the right local name in a wrong namespace",
 "Fixtures use the conventional prefixes only, so matching by prefix or by local name instead of by URI goes unnoticed.",
 [MPD,UP,S214,MAR,READ,TI],[("prefixed struct tags","mpd/mpd.go"),("namespace prefix creation","xml/marshal.go"),("translate","xml/xml.go")],
 observe=["MPDFromBytes fields; Write output expanded names"])

p("C17","Each write is independent of every earlier write",
 "The bytes written for an element depend only on that element, the indentation and the header flag: after any history of writes of other elements, with other indentations, with failing writers, with marshalling errors or panicking writers' errors reported, and of direct encoder use, a write gives exactly the bytes a fresh process would give, and writes into different writers never mix. Writing the same MPD twice gives identical bytes.",
 ["histories","fault_sequences"],"all sequences of write operations (MPD, Period, other elements, indents, headers, direct encoders) with injected writer failures and marshalling errors at any point",
 "Encoders are pooled; leftover state (indent, namespace stack, buffered bytes, sticky error, target writer) only matters for the next user and no test writes after a failure.",
 [IO,MAR],[("AcquireEncoder/ReleaseEncoder reset","xml/marshal.go"),("WriteXML","mpd/io.go")],
 state=[("encoder pool","reused encoders","xml/marshal.go")],observe=["bytes of each write vs. bytes from a fresh encoder / reference"])

p("C18","Concurrent reads, writes, clones and queries do not interfere",
 "Any number of goroutines may concurrently read documents, write MPDs (also the same MPD), clone, and query periods and representations: each operation gives exactly the result it gives when run alone, without data races, for any mix of types including types seen for the first time.",
 ["schedules","histories"],"all interleavings of concurrent read, write, clone and query operations on independent or shared (read-only) MPDs",
 "The tests are sequential; shared caches and pools in the XML package are only stressed by concurrent first use and reuse.",
 [TI,MAR,READ,IO],[("type info cache","xml/typeinfo.go"),("encoder pool","xml/marshal.go"),("type implementation cache","xml")],
 observe=["result bytes/objects vs. sequential run; Go race detector"])

p("C19","The XML decoder reports the same token stream as the XML standard",
 "For every well-formed XML document the token stream (start, end, text, comment, processing instruction, directive; names resolved to namespace URIs; decoded text and attribute values; input offsets) is the one the document denotes, independent of the number of distinct names, document size, nesting and the position of tokens relative to internal buffers. For documents that are not well-formed in their tags (missing, unbalanced or malformed tags and attributes), references (undefined entities, bad character references), characters of text and attribute values, or in the syntax of comments, CDATA and processing instructions an error is reported; leniencies inherited from encoding/xml (duplicate attributes, undeclared prefixes, several roots, no white space normalisation of attribute values) stay. The raw token stream, skipping of subtrees and the end-of-input behaviour are consistent with it, and tokens already delivered never change afterwards.",
 ["inputs"],"all XML documents: many distinct names, long names/values, nested and shadowed namespace declarations, references, CDATA, directives; all mutations of them",
 "The vendored decoder has performance changes (name interning, caches, buffering) over the standard library that only show for particular sizes and repetitions.",
 [X,READ],[("Decoder.Token/RawToken/Skip","xml/xml.go"),("name interning","xml/xml.go"),("translate, pushNs/popNs","xml/xml.go")],
 observe=["token streams vs. an independent parser and the standard library decoder"])

p("C20","xml Marshal/Unmarshal agree with encoding/xml where prefixes are not used",
 "For every Go type and value that does not use the prefix extension, marshalling gives the same XML information as the standard library's encoder and the output can be unmarshalled to the same value, and unmarshalling any document gives the same value (or also an error) as the standard library: attributes, nested paths, chardata, cdata, comments, innerxml, any, omitempty, embedded structs, interfaces, text marshalers, slices, arrays and pointers.",
 ["programs","inputs"],"randomly generated struct types (tags, kinds, embedding, paths) crossed with random values and random documents",
 "The copied tests pin particular types; caches and fast paths added to the fork depend on type shape (number of attributes, embedded pointers, anonymous structs).",
 [MAR,READ,TI],[("getTypeInfo","xml/typeinfo.go"),("marshalValue","xml/marshal.go"),("unmarshal","xml/read.go")],
 observe=["Marshal/Unmarshal results vs. encoding/xml"])

p("C21","Prefixed names in struct tags and tokens are written and read correctly",
 "For every type with prefixed names in struct tags (prefix:local with a namespace URI) and for every token sequence with namespaces passed to the encoder, the written XML is well-formed, declares every prefix it uses, and every element and attribute has exactly the given namespace URI and local name when parsed; reading it back with the same type gives the same value.",
 ["programs","inputs"],"random struct types with random namespace URIs and prefixes (shared, conflicting, reserved-looking), random token trees with namespace declarations",
 "The prefix patch is covered by a small number of hand-written cases; conflicts between prefixes, nesting and re-declaration are combinatorial.",
 [MAR,TI,X],[("tag parsing of prefixes","xml/typeinfo.go"),("prefix stack and declarations","xml/marshal.go"),("EncodeToken","xml/marshal.go")],
 observe=["Marshal/EncodeToken output parsed by an independent parser"])

p("C22","Text and attribute values survive escaping in every position",
 "For every string, the escaped form contains no character that is markup in XML text or in a quoted attribute value, and is decoded by any XML parser in element text, and as attribute value of a written document, to the original string with each character that XML does not allow (and each invalid UTF-8 byte) replaced by U+FFFD. The escaping functions agree with each other and with what is written for text and attributes of an MPD.",
 ["inputs"],"all byte strings, including all code point classes and boundaries, invalid UTF-8 and strings longer than internal buffers",
 "Tests check a few sample strings; a wrong range boundary affects single code points.",
 [X,MAR],[("EscapeText / Escape / EscapeString","xml/xml.go"),("isInCharacterRange","xml/xml.go")],
 observe=["EscapeText output; attribute and text values re-read"])

p("C23","Constructors and small helpers build exactly what their arguments say",
 "For arguments within the range of the fields they set, every constructor and setter (MPD, period, adaptation set, audio/video representation, descriptors, roles, base URL, content identifiers, segment base, timescale, profiles list, duration pointers) produces an object holding exactly its arguments and documented defaults, shares no state with other objects, and round-trips through XML. Adding a profile appends it to the comma-separated list exactly when it is not already a member, and effective timescale is 1 when absent.",
 ["inputs"],"all argument values",
 "Tests call most constructors once; argument order mix-ups and default handling depend on values.",
 [MPD,PTR,S35,S214],[("New*","mpd/mpd.go, mpd/scte35.go, mpd/scte214.go"),("AddProfile","mpd/mpd.go"),("SetSegmentBase, SetTimescale","mpd/mpd.go"),("Seconds2DurPtr*","mpd/ptrs.go")],
 observe=["returned objects"])

p("C24","Write failures are reported, and byte counts are exact",
 "If the destination writer fails or writes short at any byte position, the write operation returns that failure (never success), the byte count it returns equals the number of bytes the destination accepted, and those bytes are a prefix of the complete output. On success the count equals the output size and every byte has been delivered to the destination by the time the operation returns.",
 ["fault_sequences","inputs"],"all MPDs crossed with a writer failure or short write at every byte offset and chunking",
 "No test uses a failing writer; the error path runs through buffering, flushing and the pool.",
 [IO,MAR],[("countingWriter","mpd/io.go"),("WriteXML flush and error propagation","mpd/io.go")],
 observe=["n, err of Write/WriteXML; bytes received by the writer"])

p("C25","Decoding is independent of how the input arrives",
 "Decoding a document gives the same tokens, values and input offsets whether the bytes arrive at once, byte by byte or in arbitrary chunks, from a byte reader or a plain reader; a read error of the source is reported as that error after the tokens that were complete (text cut off by it is not a token). Reading an MPD from file (regular or a named pipe), string and bytes gives equal results.",
 ["inputs","fault_sequences"],"all documents crossed with all chunkings and all read-failure positions",
 "Tests decode from strings only; lookahead, unread and buffer handling depend on chunk boundaries.",
 [X,READ,IO],[("getc/ungetc/mustgetc","xml/xml.go"),("Decode","xml/read.go"),("ReadFromFile, ReadFromString","mpd/io.go")],
 observe=["token stream, InputOffset, errors"])

p("C26","Nesting depth and size of hostile input are bounded without false rejects",
 "A document nested beyond the documented depth limit is rejected with an error instead of exhausting the stack, documents nested less deeply are accepted, and documents with very many elements, attributes, names or long values are read correctly, while the time and memory taken by reading, writing and cloning stay in proportion to their size.",
 ["inputs"],"all nesting depths around the limit, in known, unknown and Ext content; documents with up to 10^5 elements or attributes",
 "One copied test checks one very deep document; the limit's boundary and its behaviour below skipped or captured content is not tested.",
 [READ,X],[("maxUnmarshalDepth","xml/read.go"),("Skip","xml/read.go")],observe=["MPDFromBytes outcome and content"])

p("C27","All ways of writing agree, and indentation only changes whitespace",
 "Writing an MPD to a writer, to a string, through the generic element writer and through the XML marshaller gives the same bytes for the same indentation and header choice, the header is exactly the XML declaration, and the indented form has the same elements, attributes, attribute values and leaf text as the compact form. A period written on its own is the same element as in the whole MPD.",
 ["inputs","configurations"],"all MPDs crossed with all write entry points, indentation strings and header flags",
 "Tests write fixtures with one fixed indentation and compare trees; agreement between entry points is not asserted.",
 [IO,MAR],[("WriteXML, Write, WriteToString","mpd/io.go"),("Marshal, MarshalIndent","xml/marshal.go")],observe=["bytes from each entry point"])

p("C28","Malformed attribute values are rejected, never altered",
 "For every typed (integer, boolean, floating point, duration) attribute of the MPD schema, a non-empty value that denotes no value of the type or does not fit the attribute's range makes reading fail with an error, and every legal literal is read to exactly the value it denotes. A number is never truncated, wrapped, or replaced by a default.",
 ["inputs"],"all typed attribute slots crossed with boundary, out-of-range, malformed and alternative-form literals",
 "Tests contain no ill-typed values except durations; the outcome depends on the Go type chosen for each of ~200 slots.",
 [MPD,S35,READ,DUR],[("copyValue","xml/read.go"),("field types","mpd/mpd.go"),("Duration/FloatInf64 UnmarshalXMLAttr","mpd/duration.go, mpd/mpd.go")],
 observe=["MPDFromBytes outcome and re-written value"])

p("C29","Written form is stable: re-reading and re-writing reproduces the bytes",
 "For every accepted MPD document, however spelled, the first written form is a fixed point: reading it and writing it with the same settings reproduces it byte for byte, any number of times, including durations, dates, floats, namespaces and text. (Only namespace declarations kept as arbitrary attributes of an SCTE-35 element may change place once and be used by the attributes next to them, and content of an Event in no namespace, given directly by the event, takes the namespace around it as documented.)",
 ["inputs","histories"],"all accepted documents, all indentations, repeated read/write cycles",
 "Tests do a single read/write cycle and compare trees; drift (growing whitespace, changing durations or prefixes) needs a second cycle and byte comparison.",
 [MAR,READ,DUR,MPD],[("marshal","xml/marshal.go"),("Duration.String","mpd/duration.go")],observe=["bytes of successive writes"])

p("C30","Non-strict decoding accepts sloppy markup as documented and like encoding/xml",
 "With Strict set to false, AutoClose, Entity, DefaultSpace and CharsetReader set in any combination, the decoder gives for every input the same token stream and the same outcome as the standard library's decoder with the same settings: attributes without value or without quotes, unknown entities kept as text, mis-nested and unclosed elements repaired as documented. No character of the input is lost or duplicated.",
 ["inputs","configs"],"all byte strings close to markup, crossed with the decoder's settings",
 "The copied tests pin a dozen sloppy documents; the reader's one-character lookahead matters at particular character combinations.",
 [X],[("attrval, nsname, autoClose, popElement","xml/xml.go"),("Strict, AutoClose, Entity, DefaultSpace","xml/xml.go Decoder")],
 observe=["token streams and errors of Decoder vs. encoding/xml with equal settings"])

p("C31","The streaming encoder refuses exactly the tokens that cannot be written",
 "For every sequence of calls on an Encoder (tokens of all kinds, legal or not, values, flushes, close, with or without indentation), a call fails exactly when the standard library's encoder refuses it: end elements without or not matching a start (with prefixes: in name, namespace, or a prefix that is neither the written nor the asked one), elements without a name, comments and instructions that would end early, misplaced XML declarations, unbalanced directives, values of unsupported types, unclosed elements at the end, use after close. What is refused leaves nothing in the output, and what is accepted is written completely and in order, at the latest when Encode, EncodeElement, Flush or Close returns.",
 ["operation sequences"],"all sequences of EncodeToken, Encode, EncodeElement, Flush and Close with legal and illegal arguments, fresh and pooled encoders",
 "The copied tests give a table of single token lists; the outcome depends on the element stack and the state a refused token leaves.",
 [MAR],[("EncodeToken, isValidDirective","xml/marshal.go"),("writeStart, writeEnd","xml/marshal.go"),("Close, Flush","xml/marshal.go")],
 observe=["errors and bytes of Encoder vs. encoding/xml for the same calls"])

p("C32","Results own their memory: no later operation changes them",
 "An MPD, value, clone, copied token, written form or answer obtained once never changes by itself: not when the caller overwrites the bytes it was read from, not when the reader reuses its buffer, not by reading, writing, cloning or failing operations that follow, not by changing another copy of a token. The encoder keeps no reference to the bytes it was given.",
 ["inputs","histories"],"all documents and all sequences of reads from overwritten memory, writes, clones, token copies and failures",
 "Tests look at results at once and never reuse the input; interning, pooling and unsafe conversions break this only later.",
 [X,READ,MAR,IO],[("internBytes, nameIntern","xml/xml.go"),("CopyToken, Copy","xml/xml.go"),("encoderPool","xml/marshal.go"),("MPDFromBytes","mpd/io.go")],
 observe=["dumps of kept results before and after other operations"])

p("C33","Queries, writes and clones never modify an MPD",
 "No query (start, duration, type, index, effective values, splice info, ...), no write in any form, successful or failing, and no cloning changes anything in the MPD it works on: values, absent items, lists, list capacity contents, parent links and the identity of every object stay as they were, for MPDs read or assembled, with or without parents set.",
 ["inputs","histories"],"all MPDs and sequences of queries, writes and clones",
 "Tests discard the object after the call; filling in a default, sorting or appending in place is visible only by comparing the whole object graph.",
 [MPD,PER,IO,MAR],[("GetStart, GetDuration, GetType, GetIndex","mpd/period.go"),("Get* of representations","mpd/mpd.go"),("Clone","mpd/mpd.go"),("marshalValue","xml/marshal.go")],
 observe=["image of the object graph with addresses before and after"])

p("C34","Identifiers are the specified ones, and exactly SCTE-35 streams are recognised",
 "Every exported identifier (namespaces, profiles, DRM systems, channel configuration schemes, MIME types, SCTE-35 and SCTE-214 schemes, segmentation types) has the value its specification gives. An event stream is reported as carrying SCTE-35 if and only if its scheme is one of the three identifiers of SCTE 214-1, compared exactly; the splice information of an event is the section inside its signal if there is one, else the one directly in the event, else none.",
 ["inputs"],"all exported identifiers (enumerated); all scheme strings, events with all combinations of signal, binary and section",
 "Tests pin four schemes; near misses (case, suffixes, other years) and the combinations of both forms are open.",
 [S35,MPD],[("IsSCTE35, SpliceInfo","mpd/scte35.go"),("constants","mpd/mpd.go, mpd/scte35.go, mpd/scte214.go")],
 observe=["values of constants, IsSCTE35, SpliceInfo"])

p("C35","Finished operations leave nothing behind",
 "When reading, writing, cloning or querying a document has ended, with success or an error, and its results are dropped, the library keeps nothing of it: memory in use does not grow with the number of distinct documents, names, namespaces and values worked through, not even within one long-lived encoder or decoder; small results of large documents, and clones, do not keep the document alive; an encoder that was released no longer holds its writer or what it wrote; no file stays open and no goroutine stays running.",
 ["inputs","histories","faults"],"all histories of documents with ever new names, namespaces, values, texts and errors; all entry points; failing readers, writers and files",
 "Tests look at the result of single calls; what is left over shows only in long histories, in memory, descriptors and goroutines.",
 [MAR,READ,X,IO],[("encoder pool","xml/marshal.go"),("interning of names","xml/xml.go"),("ReadFromFile","mpd/io.go")],
 observe=["heap in use after collection, weak pointers, open descriptors, goroutines"])

import sys
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
