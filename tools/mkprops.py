#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["mechanism"] = [{"name": n, "where": w} for n, w in mechanism]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NSM="src/core/nsm.rs"; MAR="src/core/marshaller.rs"; ENC="src/core/json/encoder.rs"; DEC="src/core/json/decoder.rs"
TOK="src/core/json/tokenizer.rs"; TYP="src/core/types/mod.rs"; TGR="src/core/types/parser.lalrpop"; DS="src/core/data_source.rs"
UTIL="src/core/util.rs"; SQLG="src/sql/parser.lalrpop"; AST="src/sql/ast/mod.rs"; TY="src/sql/ast/typing.rs"
SYM="src/sql/symbols.rs"; SQLM="src/sql/mod.rs"; SCH="src/sql/schema.rs"; STO="src/storage/mod.rs"; SUT="src/storage/utils.rs"

p("C01","A slotted page behaves exactly like an ordered list of byte rows",
  "After any sequence of row insertions, appends and removals that the page accepted, the page holds exactly the rows an ordered list would hold after the same operations: same count, same order, same bytes, empty rows included. No operation on one row ever changes another row's contents.",
  ["histories","configurations"],
  "for every page size, every power-of-two row alignment, every placement of the page in memory and every finite sequence of initialise/insert-at/append/remove-at operations with rows of every length and content that fit",
  "The two unit tests run one hand-written 512-byte, alignment-8 sequence each; corruption only shows for particular combinations of index, row-length/alignment remainder, fill level and history.",
  [NSM,UTIL],[("row directory growing up, row data growing down, padding kept in the low bits of the directory entry", NSM+": PageFormat::insert_row/append_row/remove_row/get_row")],
  ["PageFormat::num_rows","PageFormat::get_row"],[("directory entry","aligned row offset | padding",NSM+": set_row_offset/row_offset_padding")])
p("C02","A slotted page's advertised free space is truthful and never overrun",
  "The maximum insertable row size a page reports is exactly what it can take: every row up to that size is accepted at every position, every larger row is refused with the page left byte-for-byte unchanged, and when there is no room even for an empty row, that is refused too. Apart from the row count and one directory entry plus alignment padding per row, all of the page's space can be used by rows, removing a row gives back all the space it took, and no operation ever touches memory outside the page.",
  ["histories","inputs","configurations"],
  "for every reachable page state, every row length (fitting, exactly fitting, one too long, far too long), every insertion position, every page size and alignment",
  "The tests fill one page with one row size; the boundary where directory and data meet, and refusals, are never exercised, and out-of-page writes are invisible to them.",
  [NSM,UTIL],[("free-space computation and assertions before the unsafe memory moves", NSM+": PageFormat::max_insert_row_size, insert_row, append_row, remove_row")],
  ["PageFormat::max_insert_row_size","memory around the page"])
p("C03","Binary record encoding returns every value that was put in",
  "For every record type and every value of it, encoding the value into a byte buffer and then reading the buffer back through the same layout returns, for each element, exactly the value that was stored: every primitive, every string's bytes and length, every enum's case, at any nesting depth. What is read for one element never depends on the value of another.",
  ["inputs","programs"],
  "for every type descriptor (all primitives, strings, units, nested tuples/structs/enums, any number of enums sharing bit fields, any number of cases) and every value of that type",
  "Three unit tests cover three fixed types with one or two values; layouts interact through field ordering, bit-field packing, case nesting and variable-field offsets, so faults appear only for particular type shapes and value combinations.",
  [MAR,TYP,DS],[("layout calculation",MAR+": calculate_layout, unroll_type, allocate_bitfields"),("encoding",MAR+": Layout::encode_with_source"),("access by path",MAR+": Marshaller::get_primitive/get_bytes/get_case_tag/get_length, variable_field_offset")],
  ["Marshaller::encode","MarshallerDataSource getters"])
p("C04","Binary record encoding is exact in size and confined to its buffer",
  "Encoding a value needs exactly the number of bytes announced beforehand and reports exactly that number: a buffer of that size is always sufficient at any memory address, bytes beyond it are never written, and the result read back does not depend on what the buffer held before. A buffer that is too small, on encoding or on reading, is refused rather than accessed out of bounds.",
  ["inputs","configurations","fault_sequences"],
  "for every type and value, every buffer length from zero to beyond the announced size, every buffer address alignment and every prior buffer content; for reads, every truncation of an encoded record",
  "Tests always pass an exactly sized zeroed heap buffer; a stray read or write past the end, or reliance on alignment or zeroed memory, does not show up in them.",
  [MAR],[("size computation from the source and from encoded data",MAR+": encoding_size_with_source, Layout::encoding_size"),("raw-pointer accesses",MAR+": encode_with_source, copy_bytes, get_primitive, get_bytes")],
  ["Marshaller::encoding_size","Marshaller::encode return value","memory around the buffer"])
p("C05","JSON written for a value decodes back to that same value",
  "For every type and every value of it, decoding the JSON text produced by the encoder for that type yields the same value again, element by element, including every character, every integer extreme, and every floating-point number (finite ones bit for bit, infinities and not-a-number as such).",
  ["inputs","programs"],
  "for every type descriptor and every value of that type",
  "Encoder and decoder are each tested on three literals; their agreement is never tested, and depends on individual characters, numeric extremes and type shapes.",
  [ENC,DEC,TOK],[("type-directed emitter tree",ENC+": emitter_for_type, write_ch"),("type-directed parser tree",DEC+": parser_for_type"),("string and number scanning",TOK)],
  ["JsonEncoder::encode","JsonDecoder::decode"])
p("C06","JSON output is well-formed, faithful, and complete for any output sink",
  "The text the JSON encoder emits for any value is a single well-formed JSON document (RFC 8259, valid UTF-8) that denotes exactly that value by the documented mapping (structs as objects, tuples as arrays, enums as kind/value objects, unit as null). The bytes delivered are the same for every sink however it splits its writes, and a sink failure at any point is reported as an error, never as success.",
  ["inputs","fault_sequences"],
  "for every type and value, and for every behaviour of the output sink: partial writes of any length, interrupted calls, an error at any byte",
  "Tests compare three literals written to a Vec, which never splits or fails a write; wrong escapes for other characters and lost partial writes are invisible.",
  [ENC],[("character escaping and UTF-8 encoding",ENC+": write_ch, emit_utf8_string"),("emitters",ENC+": EmitTuple, EmitStruct, EmitEnum, EmitNumber")],
  ["bytes received by the writer passed to JsonEncoder::encode","its io::Result"])
p("C07","The JSON decoder accepts exactly the documents of its type, and never crashes",
  "The decoder accepts a text if and only if it is a well-formed JSON document matching the type: struct members in any order but each present exactly once, no unknown members, an enum as its case name `kind` followed by its `value`, arrays of the exact length, scalars in range (numbers may be quoted), and nothing after the document. What it accepts it decodes to the value the document denotes; everything else yields an error, and no input makes it panic or hang.",
  ["inputs","programs"],
  "for every type descriptor and every input text (well-formed, ill-formed, truncated, mutated, trailing material, any whitespace)",
  "Tests feed three valid documents; rejection behaviour is not tested at all.",
  [DEC,TOK],[("struct member bookkeeping",DEC+": StructParser, BitSet"),("enum and tuple parsers",DEC+": EnumParser, TupleParser"),("entry point",DEC+": JsonDecoder::decode")],
  ["JsonDecoder::decode result","contents of the filled data source"])
p("C08","The JSON tokenizer agrees with the JSON grammar on every text",
  "Every text made of valid JSON tokens is split into exactly those tokens with exactly their values (escapes resolved, surrogate pairs combined, number text preserved), with any JSON whitespace in between. Any text containing something that is not a JSON token is reported as an error at that point, and no text makes the tokenizer panic, loop or report success on a malformed token.",
  ["inputs"],
  "for every input string, of any length and over all of Unicode",
  "Tests check a couple of dozen literals; malformed escapes, surrogates, malformed numbers and odd whitespace are not among them.",
  [TOK],[("hand-written scanner",TOK+": Tokenizer::next, match_string, string_control_char, match_number, match_keyword")],
  ["Tokenizer::token","Tokenizer::value","Tokenizer::next result"])
p("C09","The type-descriptor language parses every type to exactly its structure",
  "Writing any type down in the type-descriptor language and parsing it returns that same type: same kinds, same members in the same order with the same names, whatever the whitespace and with or without the optional trailing comma. Text that is not in the language is rejected with an error, never a crash.",
  ["inputs","programs"],
  "for every type structure, every rendering of it, and every token sequence that is not a type",
  "Tests parse about twenty fixed descriptors; nesting, names that look like keywords, and rejections are not covered.",
  [TGR,TYP],[("LALRPOP grammar",TGR),("list building",TYP+": append")],
  ["types::parser::TypeParser::parse"])
p("C10","Element paths resolve, order and compare consistently",
  "A dotted name resolves to a path exactly when it names an element of the type, and following that path reaches that very element. Paths are totally ordered with every element before its descendants, descendants contiguous, order consistent with equality, and the prefix tests agree with what being an ancestor (or the same element) means.",
  ["inputs","programs"],
  "for every type, every dotted name (valid or not), and every pair and triple of paths",
  "The existing test resolves a handful of valid names in one type and compares no paths; the marshaller's and data source's lookups rest on the ordering for all of them.",
  [TYP],[("name resolution and extraction",TYP+": Path::resolve_qualified_name, Type::extract"),("ordering and prefix tests",TYP+": Ord for Path, is_prefix_of, is_proper_prefix_of")],
  ["Path::resolve_qualified_name","Type::extract","Path comparisons"])
p("C11","The in-memory data source stores the latest value per element, and nothing else",
  "After any sequence of stores and clears, reading an element returns the value most recently stored for exactly that element, with its type and full length; elements not stored since the last clear are absent, and reading with the wrong type is refused. Reusing one data source, encoder, decoder or marshaller for record after record gives the same results as fresh ones.",
  ["histories"],
  "for every sequence of store, overwrite, clear, read, encode and decode operations over any set of element paths",
  "One smoke test stores five distinct elements once and reads them back.",
  [DS,DEC,MAR],[("ordered map keyed by path",DS+": IntermediateDataSource")],
  ["DataSource getters on IntermediateDataSource"])
p("C12","Records survive the full JSON / in-memory / binary conversion pipeline",
  "Converting a JSON document to a record, the record to its binary encoding, and the binary encoding back to JSON yields a document denoting the same value as the original, for every type; encoding from the binary form again yields an equally readable record. No stage of the pipeline loses, invents or reorders elements.",
  ["inputs","programs"],
  "for every type and every value, starting from any valid JSON rendering of it",
  "No test chains the components; each is tested alone on its own literals.",
  [DEC,MAR,ENC,DS],[("the shared accessor abstraction",DS+": trait DataSource"),("binary-backed source",MAR+": MarshallerDataSource")],
  ["JsonEncoder::encode fed from MarshallerDataSource"])
p("C13","SQL text parses to the syntax tree its grammar rules prescribe",
  "Every statement and expression the SQL dialect can express, written down with the minimal parentheses its precedence and associativity rules call for (or with more), parses to exactly that tree: operators, operands, clauses, names, flags and literals all in their places. Redundant parentheses, a plus sign and synonymous spellings (such as ISNULL and IS NULL) leave no trace in the tree; otherwise no two different statements are parsed to the same tree, and text outside the dialect is rejected.",
  ["programs","inputs"],
  "for every syntax tree of the dialect's statements, queries and expressions, and every parenthesisation, optional keyword and alias form that denotes it",
  "There are no parser tests at all.",
  [SQLG,AST,SQLM],[("LALRPOP grammar with stratified expression levels",SQLG),("tree types",AST)],
  ["sql parse entry points: resulting tree"],None,
  "sql::verif: read access to the parser and the tree types")
p("C14","SQL parsing is total, and insensitive to keyword case and layout",
  "The SQL parser answers every input text, constructs nested or repeated ten thousand times included, with either a tree or an error and never crashes or hangs. Changing the letter case of keywords, or inserting or changing whitespace or line breaks between tokens, never changes the outcome, while the text of names and literals is preserved verbatim.",
  ["inputs"],
  "for every sequence of tokens and characters, every case variation of its keywords and every whitespace variation between tokens",
  "There are no parser tests at all.",
  [SQLG,SQLM,AST],[("case-insensitive keyword terminals and lexer priorities",SQLG+": match"),("literal conversion helpers",AST)],
  ["sql parse entry points: Ok/Err and resulting tree"],None,
  "sql::verif: read access to the parser and the tree types")
p("C15","SQL names compare case-insensitively and the catalog honours that",
  "Two names denote the same object exactly when they agree up to letter case, and equality, ordering and every lookup agree on that. In the catalog a schema can be created once per name up to case, a second creation is an error that changes nothing, and every created schema is found under any spelling of its name and no other.",
  ["inputs","histories"],
  "for every pair and triple of names and every sequence of schema creations and look-ups",
  "No test touches names or the catalog.",
  [SYM,SCH,SQLM],[("case-folding name type",SYM+": Name"),("in-memory catalog",SCH)],
  ["Name comparisons","catalog create/describe results"],None,
  "sql::verif: access to the catalog implementation")
p("C16","SQL expression typing is total and sound",
  "Type-checking any scalar expression either reports an error or assigns it a type and nullability such that evaluating it by SQL's rules on any row of the declared columns yields a value of that type, and yields null only if marked nullable; it never crashes. Every expression the rules call well-typed is accepted: in particular predicates are logical, comparisons need comparable operands, arithmetic needs numbers, and all branches of a conditional must agree. Being null or not is announced exactly: an expression is marked nullable only if some operand that its value depends on may be null or a CASE has no ELSE.",
  ["programs","inputs"],
  "for every expression over columns of every type and nullability, all operators, predicates, conditionals and literals, at any nesting",
  "There are no typing tests; soundness is a statement about every expression and every row.",
  [TY,"src/sql/types.rs",AST],[("type inference rules",TY+": infer_type, infer_*"),("type compatibility and promotion",TY+": is_compatible, is_numeric")],
  ["validator result for the expression: type, nullability or error"],None,
  "sql typing hook: entry points to infer an expression's type in a given row scope")
p("C17","INSERT, UPDATE and DELETE are accepted exactly when they fit the table",
  "A data-modifying statement is accepted if and only if its table exists, every column it names exists in the table and is assigned at most once, every assigned value's type fits its column, columns that may not be null are not given nullable values or left out, row lengths match, and its condition is a well-typed predicate. Common table expressions of the statement are visible in its source and its conditions. No statement makes validation crash.",
  ["programs","configurations"],
  "for every table schema, every INSERT, UPDATE and DELETE over it and every catalog state",
  "There are no validation tests.",
  [TY,SCH,AST],[("DML validation",TY+": validate_insert/update/delete paths"),("catalog lookups",SCH)],
  ["SqlValidator result for the statement"],None,
  "sql typing hook: validator construction over a catalog")
p("C18","SQL queries resolve names by scope and report exact result columns",
  "Validation of a query resolves each column reference to the one column in scope it denotes and rejects undefined or ambiguous ones, through aliases, joins, nested queries, common table expressions and set operations. An accepted query's announced result has exactly the columns, in order, with the names, types and nullability that the query defines (the optional side of an outer join may be null); columns without a name of their own get names that are unique in the result; ill-formed combinations (unequal column counts, incompatible types, unknown tables) are rejected, and validation never crashes. The answer depends on the statement and the catalog only, not on what was validated before.",
  ["programs","configurations"],
  "for every query over every catalog, with every nesting of scopes, aliases, joins, set operations and common table expressions",
  "There are no validation tests.",
  [TY,AST,SCH],[("scopes and contexts",TY+": SetContext, RowContext and validate_query"),("catalog lookups",SCH)],
  ["SqlValidator result for the query"],None,
  "sql typing hook: validator construction over a catalog")
p("C19","Buffer pool accesses are exclusive and coherent under every interleaving",
  "While one task holds a cached disk block for writing no other task holds that block at all, and readers share it without any writer; at no time do two different blocks share the same memory, however tasks interleave. Every access to a block sees exactly the bytes most recently written to that block, whether or not the block was evicted and fetched again in between.",
  ["schedules","histories"],
  "for every number of tasks and blocks, every pool and lock-table size, every program of block reads and writes per task, and every interleaving at every await and lock point",
  "The buffer pool has no tests; a handful of runs on one scheduler could not reach the rare interleavings anyway.",
  [STO],[("lock and buffer hand-out under one mutex",STO+": BufferPool::buffer_access, LockPool"),("guards",STO+": BufferGuard, BufferAccess::release")],
  ["bytes seen through buffer guards"],[("mapped/in_use/available","which block is in which buffer",STO+": BufferPool")],
  "storage::verif facade with a simulated device and controlled scheduling points")
p("C20","Buffer pool requests always complete: no deadlock, lost wake-up or leak",
  "If every task eventually releases what it holds and no task waits for a further block while holding one, then every block request eventually succeeds however tasks interleave, as long as the blocks modified so far leave at least one buffer to turn over. When all tasks are done, every unmodified buffer is available for other blocks again and every modified block is still reachable; a request abandoned while it waits for a buffer costs nothing.",
  ["schedules","histories"],
  "for every set of task programs, every pool size, and every interleaving at every await and lock point, including requests abandoned while waiting",
  "The buffer pool has no tests; progress is a property of all schedules.",
  [STO],[("waiting on exhaustion",STO+": Condvar wait in BufferPool::buffer_access"),("return of buffers and locks",STO+": release_read_only, release_read_write")],
  ["completion of access futures","which blocks can still be accessed after quiescence"],[("available list","buffers that can be handed out",STO+": BufferPoolMapping")],
  "storage::verif facade with a simulated device and controlled scheduling points")
p("C21","Storage addresses are lossless and volume ids unique",
  "Packing a volume, zone, or block position into a storage address and unpacking it returns the same parts, and distinct positions have distinct addresses. Volume ids handed out are unique, start at the documented first id, and exhaustion is reported as an error rather than by wrapping around or crashing; default volume parameters are mutually consistent powers of two with 4096-byte blocks.",
  ["inputs","histories","configurations"],
  "for every combination of address parts, every number of volumes created, and every requested volume geometry",
  "No test touches storage.",
  [STO,SUT],[("address packing",STO+": Location"),("volume registry",STO+": next_volume"),("defaults",STO+": VolumeParameters::new_with_defaults")],
  ["address accessors","volume ids returned","volume parameters"],None,
  "storage::verif facade for private constructors")
p("C22","Alignment, bit-width and raw value helpers obey their arithmetic definitions",
  "Rounding up to an alignment yields the least multiple not below the value, bit-width is the number of bits needed, and the base-two logarithm inverts powers of two, for every representable argument. A value stored into a byte buffer at any in-range offset reads back identically and changes no other byte, and out-of-range offsets are refused.",
  ["inputs"],
  "for every value, every power-of-two alignment, every value type, every buffer length, offset and memory alignment, including offsets near the integer limit",
  "Tests check a table of literals and always aligned offsets.",
  [UTIL,SUT],[("helpers",UTIL+": align, required_bits, log2, set_value, get_value")],
  ["helper results","buffer bytes"])
p("C23","Creating a storage volume writes consistent, recoverable metadata",
  "Creating a volume leaves a medium from which its parameters and allocation metadata can be recovered from either copy after a crash at any point of the creation.",
  ["crash_points","fault_sequences"],
  "for every volume geometry and every crash point or torn write during creation",
  "No test touches storage.",
  [STO],[("volume creation",STO+": StorageManager::create")],["device contents"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
