#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","A slotted page is exactly the list of rows put into it",
"After any sequence of initialise, append, insert and remove operations that the page accepts, a page's row count and the bytes of every row are those of a plain list on which the same operations were performed: inserting shifts later rows up by one, removing shifts them down by one, and no other row changes a single byte. This holds for every page size, row alignment, row length (including zero-length rows) and whatever bytes the page held before it was initialised.",
["histories","inputs","configurations"],"every finite sequence of page operations, for every power-of-two row alignment, page size that is a multiple of it, and row contents",
"append_test and test_insert_remove follow one history each on one zeroed 512-byte page with alignment 8; nothing reaches other alignments, dirty pages, interleavings of inserts and removes in the middle, or pages driven to full.",
["src/core/nsm.rs","src/core/util.rs"],
[("row area grows down, slot directory grows up, slot = offset|padding","src/core/nsm.rs PageFormat::{append_row,insert_row,remove_row,get_row}")],
["num_rows and get_row after every operation"],
[dict(name="page bytes",meaning="row count, slot directory, row area",where="src/core/nsm.rs")])

p("C02","Page capacity is exact, refusals change nothing, removed space is reusable",
"The advertised maximum insertable row size is truthful at every moment: a row of at most that size is always accepted, a larger one is always refused (by a panic) leaving the page byte-for-byte unchanged; only a page that has no room for another slot accepts nothing, not even an empty row. No space is lost: the advertised size is what remains after the row count, one slot per row (and one for the new row) and the stored rows rounded up to the row alignment, so it depends only on the rows currently stored and removing rows gives back all they used. No operation writes outside the page.",
["histories","inputs","configurations"],"every history of page operations including refused ones, every page size/alignment/row length",
"The tests only ever insert rows that fit and check the advertised size at the start and at the end of one append-only fill; refusal, exact boundaries after removals and the full-page/empty-row corner are never exercised.",
["src/core/nsm.rs"],
[("max_insert_row_size and the capacity assertions","src/core/nsm.rs PageFormat::max_insert_row_size, append_row, insert_row")],
["max_insert_row_size after every operation; page bytes and guard bytes around it after a refused operation"])

p("C03","Row marshalling is lossless",
"For every type and every value of it, encoding the value into a buffer and reading it back through the marshalled-row data source yields the same value at every path: same primitives bit for bit (NaN payloads, negative zero, 128-bit extremes), same enum case at every level, same string bytes and lengths. It holds whatever bytes the buffer contained before, and decoding one field never depends on the content of another.",
["inputs","programs"],"every type expressible in the type language (any nesting of struct, tuple, enum, string, primitive, unit; enums of any number of cases) and every value of it",
"Three layout tests encode four concrete values into zero-filled buffers; no enum inside a struct with variable-size siblings, no enum with more than 11 cases, no dirty buffer, no tuple is ever read back.",
["src/core/marshaller.rs","src/core/types/mod.rs","src/core/data_source.rs"],
[("layout calculation and field lookup by path","src/core/marshaller.rs calculate_layout, Layout::encode_with_source, Marshaller::get_*")],
["MarshallerDataSource::get_* on every path of the value"])

p("C04","Encoded size is exact and encoding stays inside its buffer",
"The size announced for a value equals the number of bytes the encoder reports having produced; encoding into a buffer at least that large never writes beyond that size, and encoding into a smaller buffer is refused (by a panic) without writing outside the buffer. Every multi-byte field lies at an offset that is a multiple of its size, so a row placed at its alignment is readable without misaligned access.",
["inputs","programs"],"every type, value and buffer length",
"Tests always hand over a buffer of exactly the announced size and compare the size for a handful of values; undersized buffers, guard bytes and alignment of fields behind variable-size cases are never looked at.",
["src/core/marshaller.rs"],
[("size computation mirrors encoding; padding to alignment","src/core/marshaller.rs encoding_size_with_source, encode_with_source, copy_bytes")],
["Marshaller::encoding_size, return value of Marshaller::encode, guard bytes around the buffer"])

p("C05","The row format is a fixed function of type and value",
"The bytes of an encoded row depend only on the type and the value, and follow one layout rule: fixed-size fields first, in descending size and declaration order within a size, with enum tags packed (widest first, least significant bits first) into the smallest unsigned containers placed after other fields of their size; then, starting at an offset aligned for the most demanding variable field, strings and enum cases in descending alignment and declaration order, each enum case itself laid out by the same rule; total size padded to the row's alignment. Rows written by one build can therefore be read by another.",
["inputs","programs"],"every type and value; every bit that the rule assigns to a field, tag or string byte",
"Layout tests look at three hand-picked types, mostly through private fields of the layout structure; a change that permutes fields consistently in encoder and decoder passes every round-trip test and still makes stored rows unreadable.",
["src/core/marshaller.rs"],
[("deterministic layout computation","src/core/marshaller.rs unroll_type, allocate_bitfields, calculate_layout")],
["bytes produced by Marshaller::encode, masked to the bits the layout defines"])

p("C06","JSON round trip preserves every value",
"For every type and every value of it that JSON can carry (floating-point values finite), writing the value as JSON and reading the text back with the same type succeeds and yields the same value at every path, including 64- and 128-bit integer extremes, the shortest decimal form of every float, negative zero, every Unicode character in strings, chars, field names and case names, unit fields, and nested enums.",
["inputs","programs"],"every type of the type language and every value of it with finite floats",
"Encoder and decoder are tested separately on six fixed documents; nothing composes the two, and no test contains an escape-requiring character, a non-ASCII character, or an extreme number.",
["src/core/json/encoder.rs","src/core/json/decoder.rs","src/core/json/tokenizer.rs"],
[("type-directed encoder and decoder","src/core/json/encoder.rs encode, src/core/json/decoder.rs Decoder::decode")],
["bytes written by the encoder, DataSource content after decoding"])

p("C07","JSON output is well-formed, denotes the value and survives short writes",
"Whatever the encoder writes is one well-formed UTF-8 JSON document that, read by an independent JSON grammar, denotes exactly the value: structs are objects whose members are the fields in declaration order, tuples arrays, an enum an object with the members \"kind\" (the case name) and \"value\" (the case's content), unit is null, strings and chars escaped so that they denote the same characters. The bytes delivered do not depend on how many bytes the writer accepts per call, every write error is reported to the caller, and values JSON cannot carry (NaN, infinities) are refused with an error.",
["inputs","fault_sequences"],"every type and value, and every sequence of short writes and write errors of the output",
"Encoder tests compare three documents against exact strings using an in-memory Vec that accepts every write in full.",
["src/core/json/encoder.rs"],
[("recursive encoder, string escaping, UTF-8 output","src/core/json/encoder.rs encode, write_str, write_ch")],
["bytes received by the writer, Result of encode"])

p("C08","JSON reading accepts exactly the documents of the type, in any form",
"Decoding succeeds exactly on well-formed JSON documents of the given type and then yields exactly the value the document denotes, with nothing left over from a value the container held before: struct members may come in any order, JSON whitespace may appear anywhere between tokens, escapes (including surrogate pairs) denote their characters, numbers must be in range for their type (and may be given as a quoted string), an enum is an object with \"kind\" followed by \"value\". Every other input - malformed tokens or escapes, missing, duplicate or unknown members, wrong number of tuple elements, unknown enum cases, values of another type, trailing content, truncated input - is refused with an error, never a panic.",
["inputs"],"every input byte sequence and every type; every mutation of a valid document",
"Decoder tests feed three valid documents; the tokenizer tests feed a few valid tokens. No test ever feeds an invalid document to the decoder.",
["src/core/json/decoder.rs","src/core/json/tokenizer.rs"],
[("tokenizer state machine and type-directed decoder","src/core/json/tokenizer.rs Tokenizer::read_next_token, src/core/json/decoder.rs")],
["Result of Decoder::decode and the data source it filled"])

p("C09","Type expressions: one syntax, printed and read back unchanged",
"Every type value whose names are identifiers of the language has a textual form that the type parser reads back as an equal type (names, order of fields and cases, nesting all preserved), independent of whitespace and of optional trailing commas; every text outside the documented grammar is refused with an error. Field and case names are kept exactly as written, and duplicate-free types are never merged or reordered.",
["inputs","programs"],"every type and every text over the type language's alphabet",
"Six parser tests cover one type of each kind; no printer/reader composition, no rejection and no nesting beyond two levels is tested.",
["src/core/types/parser.lalrpop","src/core/types/mod.rs"],
[("LALRPOP grammar of types, constructors","src/core/types/parser.lalrpop")],
["TypeParser::parse result compared structurally"])

p("C10","Paths name exactly the components of a type",
"Resolving a dotted name against a type yields a path exactly when that component exists, and extracting along the path leads back to that component's type (extracting along any other list of positions is refused), and different components never share a path. Paths are ordered lexicographically (a prefix before its extensions), and prefix tests agree with that order: a path is a prefix of itself and of every extension, a proper prefix only of strictly longer extensions.",
["inputs","programs"],"every type, every dotted name, every pair of paths of any length",
"One test resolves a few names in one struct; the order and prefix relations that row decoding relies on for its binary search are not tested at all.",
["src/core/types/mod.rs"],
[("Path representation and resolution","src/core/types/mod.rs Path")],
["Path::resolve_qualified_name, Type::extract, Ord, is_prefix_of, is_proper_prefix_of"])

p("C11","SQL expressions parse with the documented precedence and associativity",
"Every expression is parsed into the one tree its grammar prescribes: unary sign binds tightest, then * and /, then + - ||, then comparisons, null tests, IN, LIKE and BETWEEN, then NOT, then AND, then OR; binary operators associate to the left, parentheses override, NOT-forms (NOT IN, NOT BETWEEN, IS NOT NULL, NOTNULL) are the negation of their positive form, parenthesised lists of two or more expressions are tuples, and CASE keeps its operand, its branches in order and its ELSE. Text that is not an expression is refused with an error, and literals keep their exact text.",
["inputs","programs"],"every expression tree and every way of writing it, and every token sequence that is not an expression",
"There is no SQL parser test in the repository at all.",
["src/sql/parser.lalrpop","src/sql/ast/mod.rs"],
[("stratified LALRPOP expression grammar","src/sql/parser.lalrpop")],
["syntax tree returned by the statement parser"],None,"sql modules are private: guarded dump of the syntax tree")

p("C12","SQL statements parse into exactly what was written",
"Every SELECT, INSERT, UPDATE, DELETE, EXPLAIN, ATTACH and DESCRIBE statement of the grammar is parsed into a tree holding every clause that was written and nothing else, each in its own place and in order: common table expressions, result columns and their names, tables, aliases and joins (left-associative, with their kind and constraint), WHERE, GROUP BY and HAVING, left-associative set operations, ORDER BY terms with collation and direction, LIMIT and offset, target table, column list, assignments, file path. Optional words and defaults do not change the tree, and any other text is refused with an error.",
["inputs","programs"],"every statement of the grammar and every token sequence outside it",
"There is no SQL parser test in the repository at all.",
["src/sql/parser.lalrpop","src/sql/ast/mod.rs"],
[("LALRPOP statement grammar","src/sql/parser.lalrpop")],
["syntax tree returned by the statement parser"],None,"sql modules are private: guarded dump of the syntax tree")

p("C13","SQL keywords and names are case-insensitive, names keep their spelling",
"Writing any keyword in any mixture of upper and lower case, or changing the whitespace between tokens, never changes the parsed statement. Identifiers keep the spelling they were written with, but two names are equal, and order equal, exactly when they differ only in case; name order is a total order consistent with that equality, and no keyword can be mistaken for an identifier or an identifier that merely starts with a keyword for the keyword.",
["inputs"],"every statement, every case variation and spacing of it, and every pair and triple of names",
"No test parses SQL or compares names.",
["src/sql/parser.lalrpop","src/sql/symbols.rs"],
[("(?i) token patterns, case-folding comparisons","src/sql/parser.lalrpop match block, src/sql/symbols.rs Name")],
["syntax trees of variants; PartialEq/Ord of Name"],None,"sql modules are private: guarded access")

p("C14","The catalog answers from exactly the schemas and objects defined in it",
"The database catalog behaves as a map from case-insensitive schema names to schemas and from object names to tables and views: creating a schema succeeds exactly when no schema of that name (in any case) exists and then adds exactly that schema, a refused creation changes nothing, and describing an object returns exactly its columns in order when both names exist and an error otherwise. Saving a catalog and loading it back loses nothing. The rows that describe columns are described themselves, by the four attributes of a column.",
["histories"],"every sequence of create/describe/define/save-load operations over every set of names",
"No test touches the catalog.",
["src/sql/schema.rs","src/sql/symbols.rs"],
[("BTreeMap keyed by case-insensitive Name","src/sql/schema.rs Database")],
["Database::create_schema, Database::describe, serialised form"],None,"sql modules are private: guarded access")

p("C15","Every SQL expression gets its one correct type, or an error",
"For every expression, type inference either returns the type, nullability and shape the operators prescribe (arithmetic numeric, || varchar, comparisons, IN, BETWEEN, null tests and logical operators logical, a result nullable exactly when an operand that matters is; CASE the common type of its branches, nullable without ELSE or with a nullable branch) or reports an error when an operand has a type the operator does not accept. It never panics, an error in any sub-expression makes the whole expression an error, and the result does not depend on anything but the expression and the columns in scope.",
["inputs","programs"],"every expression tree over columns of every type and nullability",
"No test runs type inference.",
["src/sql/ast/typing.rs"],
[("bottom-up type inference","src/sql/ast/typing.rs infer_type")],
["inferred type or error for an expression in a scope"],None,"typing is private: guarded entry point")

p("C16","SQL names resolve to the right column and statements are validated completely",
"A column reference, qualified or not, resolves to exactly the column of the relation in scope that SQL scoping designates, case-insensitively; a reference to nothing and a reference to more than one candidate are errors, inner scopes hide outer ones, aliases replace table names, and a query's result columns are exactly those selected, in order, with their names and types. INSERT, UPDATE and DELETE are accepted exactly when the target table and columns exist and values and predicates have the right number and types.",
["inputs","programs","configurations"],"every catalog and every statement over it",
"No test validates a statement.",
["src/sql/ast/typing.rs","src/sql/schema.rs"],
[("scopes and relation attributes","src/sql/ast/typing.rs")],
["row type or error for a statement over a catalog"],None,"typing is private: guarded entry point")

p("C17","Buffer access is exclusive: one writer or many readers per location",
"At no moment does a client hold write access to a storage location while any other client holds read or write access to the same location, under every interleaving of accesses and releases by any number of clients. Two different locations never share a buffer while either is held, and one location never occupies two buffers.",
["schedules","histories"],"every schedule of any number of clients accessing and releasing locations in a pool of any size",
"No test uses the buffer pool.",
["src/storage/mod.rs"],
[("mapping mutex, per-buffer read/write lock taken from a lock pool","src/storage/mod.rs BufferPool::buffer_access, release_*")],
["grant and release of handles, address of the buffer behind a handle"],
[dict(name="mapped_locations, lists, access",meaning="which buffer holds which location and who uses it",where="src/storage/mod.rs BufferPoolMapping")],
"buffer pool is private and its backing store unimplemented: guarded stub store and driver interface")

p("C18","A location's content is what was last written to it",
"Read access to a location yields the bytes most recently written through the pool, or, if the location has not been written since it was brought in, the bytes of the backing store; no write is ever lost or shows up under another location, a location is fetched before its stored content is exposed, and an unread buffer is never recycled while it holds modified content. Fresh access for initialisation never exposes another location's content.",
["schedules","histories"],"every schedule and history of reads, writes, initialising accesses, evictions and re-accesses",
"No test uses the buffer pool.",
["src/storage/mod.rs"],
[("mapping table, fetch on first access, dirty list","src/storage/mod.rs BufferPool::access_*, buffer_access, release_read_write")],
["bytes seen through each granted handle"],None,"guarded stub store and driver interface")

p("C19","Buffer requests are served whenever they can be, and buffers are conserved",
"A request for a location waits only as long as it must: for an incompatible holder of that location (or an earlier waiting writer), or, if the location is not in the pool, for a buffer that is neither held nor modified. Whenever such an obstacle disappears some waiting request proceeds, no wake-up is lost (not even when a request that waits for a buffer is withdrawn), no buffer is leaked or listed twice, and no sequence of operations makes the pool panic.",
["schedules","histories"],"every schedule and history; every pool size",
"No test uses the buffer pool.",
["src/storage/mod.rs"],
[("condition variables, available/dirty/in-use lists","src/storage/mod.rs BufferPool::buffer_access, release_*")],
["set of blocked requests once nothing can run any more; list membership of every buffer"],None,"guarded stub store and driver interface")

p("C20","Storage locations and volume geometry are computed without loss",
"A location built from a volume index and an offset gives back exactly that index and offset, different pairs give different locations ordered by volume then offset, and an offset that does not fit is refused. Volume identifiers handed out are distinct until they are exhausted, which is reported as an error; default volume parameters describe the documented block size, and all block arithmetic rounds up exactly.",
["inputs","histories"],"every volume index and 64-bit offset, every number of volume creations, every volume size and alignment argument",
"No test touches the storage module.",
["src/storage/mod.rs","src/storage/utils.rs"],
[("bit packing of Location, identifier counter, align/ceil helpers","src/storage/mod.rs Location, VolumeManager::next_volume, VolumeParameters; src/storage/utils.rs")],
["Location accessors and order, results of next_volume, VolumeParameters fields, helper results"],None,"items are private: guarded access")

p("C21","A new volume describes itself correctly",
"Creating a volume yields an image in which the header states the true sizes and offsets, the file table lists each reserved file once with its name, size, extent and time of creation, and the extents of header, file table, mirror and allocation bitmap are disjoint and inside the volume. The mirror equals the file table byte for byte, and the allocation bitmap marks exactly the blocks that are taken (and those past the end of the volume) as unavailable and all others as free. Every volume has an identifier of its own, several volumes behind one buffer pool do not disturb each other, and a file that exists already is never taken for a new volume but left as it is.",
["inputs","configurations"],"every admissible combination of volume size, block size and file header size",
"No test creates a volume.",
["src/storage/mod.rs"],
[("volume creation","src/storage/mod.rs VolumeManager::create, init_file_header")],
["content of every block of the new volume as seen through the buffer pool"],None,"volume creation is private and needs the stub store")

p("C22","The in-memory data source is a faithful map from paths to values",
"The in-memory value container returns for every path exactly the value, case tag or bytes last stored under that path, whatever else was stored before or after; clearing it removes everything. Asking for a path that was never set, or for a kind other than the one stored, is refused rather than answered with another field's value.",
["histories"],"every sequence of set, get and clear over every set of paths and kinds",
"One smoke test sets and reads a handful of paths once each.",
["src/core/data_source.rs","src/core/value.rs"],
[("maps keyed by path","src/core/data_source.rs IntermediateDataSource")],
["DataSource::get_* on IntermediateDataSource"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(P))
