"""Per property: number of cases per shard and tier, and the texts for evidence and manifest."""

# id: dict(quick=N, thorough=N, shards=8, race=False, technique, rule, note)
T = {}


def prop(pid, quick, thorough, technique, rule, note, shards=8, race=False, assumptions=()):
    T[pid] = dict(quick=quick, thorough=thorough, technique=technique, rule=rule, note=note, shards=shards, race=race,
                  assumptions=list(assumptions))


ASSUME_DOC = "The schema table harness/schema/mpd.schema states which elements and attributes DASH and the extensions define."
ASSUME_XT = "The harness's own XML parser (harness/xt) is right about well-formedness and namespaces."

ASSUME_STD = "The installed standard library's encoding/xml is right where the fork does not differ by design."

prop("C01", 5100, 34000,
     "property-based testing: schema-driven document generator, infoset round-trip oracle with an independent XML parser",
     "A case is one MPD document generated from an independent schema table with one uniformly drawn slot (element, "
     "attribute or text of 733) forced to be present, read, written (drawn indentation) and compared with the input by an "
     "own XML parser. Non-trivial: the document has at least two elements. Distinct: by document text.",
     "Randomised search: every slot of the schema is drawn many times per run, alone and in combination; no proof.",
     assumptions=[ASSUME_DOC, ASSUME_XT])

prop("C02", 2100, 14000,
     "property-based testing: reflection-driven object tree generator, write/read round trip with structural equality",
     "A case is one MPD object tree built by reflection over the exported fields with one uniformly drawn struct type forced to "
     "be present, written (drawn indentation and header) and read back; all exported fields are compared and the tree is dumped "
     "before and after writing. Non-trivial: some field is set besides the namespace. Distinct: by dump of the tree.",
     "Randomised search over object trees, integer/float/duration extremes and strings of legal characters; no proof. Nil and "
     "empty lists count as equal; SCTE-35 structs carry an XMLName as the constructors give them.")

prop("C03", 1800, 12000,
     "property-based testing: object trees with arbitrary byte strings, strict own XML parser and token-substituted reference",
     "A case is one object tree whose strings are arbitrary bytes (markup, control characters, broken UTF-8, long), written and "
     "parsed with a strict parser; structure and values must be those of the same tree with harmless tokens. Non-trivial: at "
     "least one arbitrary string. Distinct: by output.",
     "Randomised search; assumes the own parser is right about well-formedness. Raw inner XML of Ext is given well-formed.",
     assumptions=[ASSUME_XT])

prop("C05", 7500, 45000,
     "metamorphic property-based testing: one generated document in two drawn spellings, equal object trees and equal output",
     "A case is one document in two spellings (prefixes, declaration places, attribute order, quotes, references, CDATA, comments, "
     "white space, prolog, byte order mark, empty tags drawn independently), both read, compared field by field and written. Non-trivial: the two "
     "spellings differ. Distinct: by both texts.",
     "Randomised search over documents and spellings. Content of Ext is kept verbatim by design, so it is spelled the same.",
     assumptions=[ASSUME_DOC])

prop("C06", 9000, 50000,
     "metamorphic property-based testing: a document with and without drawn unknown elements and attributes",
     "A case is one document with 1-4 unknown subtrees or attributes inserted at drawn places; reading with and without must give "
     "equal object trees and output. Non-trivial: something was inserted. Distinct: by document text.",
     "Randomised search; insertion at a place the schema leaves open (arbitrary attributes, Ext) is excluded there.",
     assumptions=[ASSUME_DOC])

prop("C07", 450000, 3000000,
     "property-based testing against an exact reference parser (big rationals), with mutated strings; enumeration of single edits",
     "A case is one string, built from components or by mutating such a string, judged by a reference grammar with exact rational "
     "arithmetic, and read through ParseDuration and as an attribute. All single edits of a list of seeds are enumerated in addition. "
     "Non-trivial: the string is not empty. Distinct: by string.",
     "Randomised search over strings plus exhaustive single-character edits of the seed strings.")

prop("C08", 180000, 1500000,
     "property-based testing against a big-integer reference formatter; sweep of dense blocks of values",
     "A case is one int64 nanosecond value (boundaries of units, carries, extremes) or one block of 3500 neighbouring values; the "
     "written string must be the reference's, parse back and be stable. Non-trivial: the value is not zero. Distinct: by value or block.",
     "Randomised search over all int64 values plus dense sweeps around unit boundaries. Parsing back excludes the last millisecond "
     "of the int64 range, where rounding leaves the type.")

prop("C09", 240000, 1500000,
     "property-based testing against a reference calendar in big-integer arithmetic",
     "A case is one instant of the years 0-9999 (seconds, milliseconds or float) or one date-time string with any offset and fraction, "
     "or one mutated string. Non-trivial: not the epoch. Distinct: by value or string.",
     "Randomised search with leap-day, century, pre-1970 and rounding boundaries; floats are compared within their precision.")

prop("C10", 120000, 700000,
     "model-based property testing: random period lists against a reference timeline model; enumeration of presence patterns",
     "A case is one MPD with up to 8 periods with drawn attributes; start, duration and absolute start of each period are compared "
     "with a reference model. All presence patterns of up to three periods are enumerated. Non-trivial: at least one period. "
     "Distinct: by the MPD's pattern and values.",
     "Randomised search over lists and values, exhaustive over small presence patterns.")

prop("C11", 120000, 700000,
     "model-based property testing: random period lists against a reference classification; enumeration of presence patterns",
     "A case is one MPD with up to 8 periods; type and index of each are compared with a reference model. All presence patterns of up "
     "to three periods are enumerated. Non-trivial: at least one period. Distinct: by the MPD's pattern and values.",
     "Randomised search over lists and values, exhaustive over small presence patterns.")

prop("C12", 36000, 200000,
     "stateful model-based property testing: random operation histories against a model of containers and parent links",
     "A case is one history of build, append, read, clone, set-parents and move operations with a model of all lists and links checked "
     "after every step, or one read document with all links checked. Non-trivial: at least one operation. Distinct: by history.",
     "Randomised search over histories of up to 40 operations.")

prop("C13", 7500, 45000,
     "property-based testing: clone of a generated tree, structural equality, pointer disjointness, drawn mutations",
     "A case is one generated object tree, cloned as MPD, period or adaptation set; both copies are compared, all references must be "
     "disjoint, and drawn mutations of either copy must not show in the other. Non-trivial: the tree has some field set. Distinct: by tree.",
     "Randomised search; every struct type is forced to be present in turn. Nil and empty lists count as equal.")

prop("C14", 45000, 300000,
     "property-based testing against a reference model of inheritance and template substitution",
     "A case is one adaptation set with representations whose own and inherited values are drawn independently, with ids and templates "
     "full of metacharacters. Non-trivial: always (a representation is queried). Distinct: by the whole setting.",
     "Randomised search over combinations of own and inherited values.")

prop("C22", 24000, 150000,
     "property-based testing with a reference escaper/unescaper; exhaustive enumeration of all code points and bytes",
     "A case is one byte string (or a block of code points, all of which are enumerated in element text and attribute values) escaped and "
     "decoded by an independent parser. Non-trivial: the string is not empty. Distinct: by string.",
     "Exhaustive over single code points, single bytes and byte pairs of the enumeration; randomised over longer strings.",
     assumptions=[ASSUME_XT])

prop("C23", 75000, 500000,
     "property-based testing: constructor calls with drawn arguments against expected objects, aliasing and round trip",
     "A case is one constructor call with drawn arguments (result compared with the expected object, independence of two results, round "
     "trip through XML) or one sequence of setter calls against a model. Non-trivial: always. Distinct: by constructor and arguments.",
     "Randomised search over argument values within their documented ranges.")

prop("C28", 36000, 220000,
     "property-based testing: typed attribute slots of the schema crossed with drawn legal and illegal literals",
     "A case is one typed attribute slot (drawn uniformly) in a document, with a legal or an illegal literal of the type; reading must give "
     "the exact value or fail. Non-trivial: always. Distinct: by slot and literal.",
     "Randomised search over slots and literals; empty values, Unicode white space and spellings of booleans beyond XML Schema are not asserted.",
     assumptions=[ASSUME_DOC])

prop("C19", 10000, 90000,
     "property-based testing: generated XML documents and mutated bytes against an independent tokenizer and encoding/xml",
     "A case is one generated document (drawn spelling, names, nesting, namespace declarations, more than 1024 distinct names at times) "
     "whose token stream, offsets, raw stream and skipping are compared with the harness's own parser, or one document broken in a drawn "
     "way that must be rejected, or one mutated byte string compared with encoding/xml, or one history of decoder operations (tokens, raw "
     "tokens, skipping, decoding, methods that do more of these) over text or a drawn source of tokens, run by both. Non-trivial: more "
     "than one token or operation. Distinct: by text and history.",
     "Randomised search. For ill-formed input only the classes of the statement are asserted to be rejected, and agreement with encoding/xml.",
     assumptions=[ASSUME_XT, ASSUME_STD])

prop("C20", 80000, 600000,
     "differential property-based testing: generated struct types and values with encoding/xml as the reference",
     "A case is one struct type built by reflection (tags, kinds, embedding, paths, methods), one value of it marshalled by the fork and by "
     "encoding/xml, and the document, possibly mutated and respelled, unmarshalled by both; half of the cases use types, tags and values "
     "that are wrong or unusual in many ways (unsupported kinds, conflicting tags, value receivers, failing methods). Non-trivial: the "
     "type has at least one field besides its name. Distinct: by type and document.",
     "Randomised search. Left out: two attribute fields of the same local name in different namespaces (the fork prefers the exact one), the "
     "namespace an element without one inherits from its parent's default, allocation of embedded pointers that stay zero.",
     assumptions=[ASSUME_STD])

prop("C25", 10000, 90000,
     "property-based testing: generated documents crossed with drawn chunkings, reader kinds and read-failure positions",
     "A case is one document read through a drawn reader (chunks of drawn sizes, one byte at a time, with and without ReadByte, data together "
     "with the error, empty reads, a token source) and through the same kind of reader failing at a drawn offset; tokens, offsets, values "
     "and errors are compared with reading at once. Non-trivial: more than two tokens, or an accepted MPD. Distinct: by text and reader.",
     "Randomised search over documents, chunkings and failure offsets.")

prop("C30", 450000, 2500000,
     "differential property-based testing: sloppy markup with drawn decoder settings, encoding/xml with the same settings as reference",
     "A case is one string of sloppy markup (or a mutation) and drawn settings of Strict, AutoClose, Entity, DefaultSpace and CharsetReader, "
     "tokenized by the fork and encoding/xml. Non-trivial: more than one token. Distinct: by text and settings.",
     "Randomised search. Names with a leading or trailing colon are left out: the fork rejects some of them by design.",
     assumptions=[ASSUME_STD])

prop("C04", 10500, 55000,
     "property-based testing: mutated documents and odd object trees through every entry point; no panic, no hang, bounded result",
     "A case is one document broken or made odd in a drawn way (bytes, markup, values, truncation, odd but well-formed structure), or an "
     "object tree with nil and zero parts, driven through reading, all queries and writing. Non-trivial: the input is not the untouched "
     "document. Distinct: by input.",
     "Randomised search; a hang shows as a timeout of the shard, which the driver reports with the input under way.",
     assumptions=[ASSUME_STD])

prop("C15", 3600, 20000,
     "property-based testing: schema-driven documents around SCTE-35 slots, infoset comparison with an independent parser",
     "A case is one document with an SCTE-35 slot forced to be present, in any spelling and either namespace, read, written and compared as "
     "infoset, with the content of Ext compared to the byte and the accessor compared with the document. Non-trivial: at least one event. "
     "Distinct: by text.",
     "Randomised search. Content of Ext declares the prefixes it uses (see the known finding).",
     assumptions=[ASSUME_DOC, ASSUME_XT])

prop("C16", 6000, 35000,
     "property-based testing: schema-driven documents around extension slots, any prefixes, decoys in wrong namespaces",
     "A case is one document with an extension element or attribute forced to be present, in any spelling, with decoys of the right local "
     "name in a wrong namespace at drawn places, read, written and compared as infoset. Non-trivial: an extension slot or decoy is present. "
     "Distinct: by text.",
     "Randomised search. Fields of the DASH namespace match by local name alone (a documented leniency), so decoys are of extension slots.",
     assumptions=[ASSUME_DOC, ASSUME_XT])

prop("C29", 9000, 50000,
     "property-based testing: repeated read/write cycles of generated documents and object trees, compared to the byte",
     "A case is one document in a drawn spelling (or an object tree) read and written several times with the same drawn settings. "
     "Non-trivial: the document has more than one element. Distinct: by text.",
     "Randomised search. White space around the text of an Event with child elements is left out (see the known finding).",
     assumptions=[ASSUME_DOC])

prop("C17", 9000, 60000,
     "stateful property-based testing: histories of writes, failing writes and direct encoder use, each write compared with a fresh one",
     "A case is one history of drawn steps on shared objects and pooled encoders (writes with different indentation and header, failing "
     "and short writers, elements that cannot be marshalled, direct encoder use left in the middle, attempts to write outside an element), "
     "where every write must give the bytes it gave when made first. Non-trivial: at least one step before the last write is not a plain "
     "write. Distinct: by history.",
     "Randomised search over histories; the reference for each write is the same write made in a process state without history.")

prop("C18", 300, 2200,
     "property-based testing under the race detector: drawn mixes of concurrent operations, each result compared with the sequential one",
     "A case is one set of drawn scripts (reading, writing, cloning, querying of shared and own objects, types never seen before) run by "
     "several goroutines at once in a binary built with the race detector; every result must be that of the script run alone. "
     "Non-trivial: at least two goroutines. Distinct: by scripts.",
     "Randomised search; schedules are those the Go runtime gives (with drawn yields), judged by the race detector and the results.",
     race=True)

prop("C21", 12000, 70000,
     "property-based testing: generated prefixed types and token sequences, infoset oracle with an independent parser, round trip",
     "A case is one struct type with prefixed tags built by reflection and a value of it, or one pipe of a document through decoder and "
     "encoder, or one drawn sequence of tokens given to the encoder; the output is compared as infoset by an own strict parser and read "
     "back. Non-trivial: at least one name in a namespace. Distinct: by type and value, text or tokens.",
     "Randomised search. Left out: elements without namespace below one whose default namespace they would inherit (documented), fields "
     "whose tag names no namespace match any when reading.",
     assumptions=[ASSUME_XT])

prop("C24", 4500, 25000,
     "fault injection with generated objects: the destination writer fails or writes short at drawn byte positions",
     "A case is one object tree, value of a drawn type or token sequence written to a destination that fails in a drawn way (error, short write, error with all "
     "bytes taken, once or for ever) at a drawn offset; error, count and bytes are compared with the complete output. Non-trivial: the "
     "fault lies within the output. Distinct: by output, fault and offset.",
     "Randomised search; faults are drawn at every offset class (header, buffer boundary, last byte). A raw encoder may retry a short write.")

prop("C26", 40, 350,
     "property-based testing: generated documents that are deep or large in one dimension, exact outcome and content, time in proportion",
     "A case is one document nested to a drawn depth around the limit for a drawn kind of recursive type, or with deeply nested unknown "
     "or Ext content, or large in one dimension (elements, attributes, names, namespaces, text, comments). Non-trivial: always but for "
     "depth one. Distinct: by shape.",
     "Randomised search; sizes up to 10^5 elements and nesting up to 2*10^5. Time must not grow fifty times for ten times the size, nor "
     "allocation nine times for four times the size.")

prop("C27", 5000, 45000,
     "metamorphic property-based testing: all entry points for writing, with and without indentation and header, against each other",
     "A case is one object tree or document written through all entry points with drawn indentation and header; the bytes are compared, and "
     "the indented form is compared with the compact one token by token. Non-trivial: more than one element. Distinct: by output.",
     "Randomised search; where indentation adds white space inside mixed content (Event with child elements) only it may differ.",
     assumptions=[ASSUME_XT])

prop("C31", 36000, 220000,
     "differential stateful property-based testing: drawn call sequences on the encoder and on that of encoding/xml",
     "A case is one sequence of up to 16 calls (tokens, many of them illegal, values, Flush, Close) made on a fresh or pooled encoder and on "
     "that of encoding/xml; errors of each call and the bytes (with namespaces: the tokens) are compared. Or one history of starts with namespaces and prefixes and of right and "
     "wrong ends, judged by a stack as model. Non-trivial: at least two calls (a refused one). "
     "Distinct: by sequence.",
     "Randomised search. Names that are not XML names are left out, and so is which of the optional character references are used.",
     assumptions=[ASSUME_STD])

prop("C32", 2700, 16000,
     "stateful property-based testing: results are kept while inputs are overwritten and further operations are made",
     "A case is one history of up to 8 operations on drawn documents (reads from memory that is overwritten afterwards, reused reader "
     "buffers, token copies, writes, clones, failures); every result kept is compared with its first dump after each. Non-trivial: at least "
     "two results are kept. Distinct: by documents and history.",
     "Randomised search over documents and histories.")

prop("C33", 2700, 16000,
     "property-based testing: image of the whole object graph (with addresses and unused capacity) before and after drawn operations",
     "A case is one MPD (read, or assembled with or without parents) and up to 4 drawn queries, writes, failing writes and clones, with the "
     "image of the object graph compared after each. Non-trivial: at least one period. Distinct: by dump and operations.",
     "Randomised search over object trees and operations.")

prop("C34", 60000, 300000,
     "exhaustive enumeration of identifiers, property-based testing of recognition with mutated identifiers",
     "A case is one exported identifier (all are enumerated), or one scheme string near the three identifiers with an event of drawn form. "
     "Non-trivial: always. Distinct: by identifier, or scheme and form.",
     "Identifiers are enumerated completely; schemes are searched at random around the identifiers.")

prop("C35", 100, 1500,
     "property-based testing with generated histories of distinct documents, invariants on memory, collection, files and goroutines",
     "A case is one history of documents in which no value repeats (heap in use after collection, over batches), one set of small results "
     "kept of large documents (heap in use), one operation whose arguments are dropped (weak pointers after collection), or one set of reads of "
     "good and bad files (descriptors, goroutines). Non-trivial: always. Distinct: by history, or document and operation.",
     "Randomised search; memory is measured, so a leak of less than a twentieth of the input's size would pass.")
