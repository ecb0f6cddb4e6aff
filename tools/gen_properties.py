import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PRE="parser/src/parser/preprocessor.rs"; PAR="parser/src/parser/parser.rs"; IFH="parser/src/parser/include_file_handler.rs"; SM="parser/src/parser/source_map.rs"
DOC="parser/src/document/document.rs"; HDR="parser/src/document/header.rs"; CAT="parser/src/document/catalog.rs"; SEC="parser/src/blocks/section.rs"; BLK="parser/src/blocks/block.rs"; PU="parser/src/blocks/parse_utils.rs"; REN="parser/src/parser/inline_substitution_renderer.rs"; ATT="parser/src/document/attribute.rs"

p("C01","Include assembly is faithful to what storage answered, whatever failed",
"For every main document, every tree of included files and every sequence of storage outcomes (found, missing, torn, stale, corrupted, different on every read), the text of the parsed document is exactly the main text with each include directive line replaced by the assembled lines of what storage returned for that request, or by the single line `Unresolved directive in <including file, or (root file)> - <directive line>` when storage returned nothing. No other line is lost, duplicated, reordered or altered, apart from a normalized line terminator. Includes nest to 64 levels; a directive beyond that depth counts as unresolved, so cyclic storage still yields a document.",
["fault_sequences","inputs"],"all main documents and include trees; all sequences of per-request storage outcomes, including cyclic and changing stores",
"The tests include a handful of fixed, healthy two-level trees from an in-memory map that always answers the same; no test has a torn, changing, cyclic or intermittently missing file, or an empty one between two directives.",
[PRE,IFH],[("recursive line assembly","%s process_adoc_include"%PRE),("unresolved-directive line","%s process_adoc_include"%PRE),("depth limit","%s MAX_INCLUDE_DEPTH"%PRE)],
[("output","text handed to the document parser","%s PreprocessorState"%PRE)],["Document::span().data()","IncludeFileHandler::resolve_target call log"])

p("C02","Every line of the document maps back to its true file and line",
"Whatever storage answered, the source map of the document gives, for every line of the document text, the file it was read from (the include target as requested, or the primary file name, or none for an unnamed root) and its 1-based line number there. A line that reports an unresolved directive maps to that directive's own line in the including file. This holds after any nesting, return from an include, failed include, empty file or attribute entry that spans several lines.",
["fault_sequences","inputs"],"all include trees and storage outcome sequences, every line of every resulting document",
"Tests check a few lines of a few healthy trees; none combines failures, empty files, adjacent directives, nested returns and multi-line attribute entries, where the sparse map must be re-anchored.",
[PRE,SM],[("re-anchoring after an include","%s has_reported_file"%PRE),("sparse lookup","%s original_file_and_line"%SM)],
[("source_map","sparse list of anchors","%s PreprocessorState"%PRE)],["Document::source_map().original_file_and_line(n)"])

p("C03","Storage is asked once per directive, in order, with the right arguments",
"During one parse the include handler is called exactly once for every include directive line reached, in assembled document order, never for anything else and never again because an earlier request failed. Each call names the including file, the target as written with references to document attributes replaced by the values assigned up to that point (by the API, or by attribute entries earlier in the assembled text as permitted), and the directive's attribute list. The parser passed to the call reports exactly those attribute values.",
["fault_sequences","histories","inputs"],"all include trees, attribute entries before and inside included files, locks, parser histories, and storage outcome sequences",
"Tests use handlers that ignore all arguments but the target and never fail; nothing checks call counts, order, source file, attribute list, or what the handler sees after a failed or changed read.",
[PRE,IFH,PAR],[("temporary parser that tracks attributes","%s preprocess"%PRE),("target substitution","%s substitute_attributes"%PRE)],
[("attribute_values","attributes in effect","%s Parser"%PAR)],["IncludeFileHandler::resolve_target arguments","Parser::attribute_value inside the call"])

p("C04","API locks on attributes hold over any history; the last permitted entry wins",
"An attribute configured through the API with a restriction (API only, API or header, API or document body) is never changed by a document assignment in a place the restriction forbids, in any document a parser parses over its lifetime, including assignments that reach it through included files or are implied by the document title, author line or revision line; each forbidden attribute entry yields exactly one warning, located at that entry. Every other attribute has, at each point of a document (in rendered text, in what callbacks see through the parser they are given, and after the parse), the value of the last permitted assignment before that point, with unset and re-set honoured. A failed include contributes no assignment.",
["histories","fault_sequences","configurations"],"all sequences of API settings, parses of documents with header and body entries, crashes and storage failures on one parser",
"Tests make one or two assignments to one attribute in one document; the interaction of restriction, place, inclusion, implied values, reuse of the parser and failure is a product space they do not sample.",
[PAR,HDR,ATT,BLK,PRE],[("lock check in header","%s set_attribute_from_header"%PAR),("lock check in body","%s set_attribute_from_body"%PAR),("implied header values","%s set_attribute_by_value_from_header"%PAR)],
[("modification_context","restriction of an attribute","parser/src/parser/attribute_value.rs")],["Parser::attribute_value / is_attribute_set / has_attribute","rendered text","Document::warnings()","renderer callback parameters"])

p("C05","A reused parser behaves like a fresh one with the same attribute values",
"Whatever a parser has parsed before, parsing a document with it gives the same document (structure, rendered text, section numbers and ids, catalog, warnings, source map) and the same attribute values afterwards as a newly created parser that has the same configuration and current attribute values. Nothing else of an earlier document carries over.",
["histories","fault_sequences"],"all sequences of documents, including failed, crashed and re-entrant parses, on one parser",
"Tests reuse a parser twice in one place for one catalog entry; residue of any earlier document in numbering, ids, catalogs, levels or caches needs particular pairs of documents.",
[PAR,DOC,SEC,CAT],[("per-document reset","%s parse"%PAR)],
[("last_section_number, last_appendix_section_number, topmost_section_type, sectnumlevels, catalog","per-document parser state","%s Parser"%PAR)],["Parser::parse result","Parser::attribute_value"])

p("C06","A crash inside a callback leaves the parser usable and unpolluted",
"If an include handler or renderer panics at any call during a parse and the caller catches the panic, the same parser can still be used: its attribute values are those of the permitted assignments of a prefix of the interrupted document's assignments (none of them if the panic came from the include handler), restrictions included. Every later parse gives what a new parser with those attribute values gives; nothing else of the interrupted document shows.",
["crash_points","histories"],"a panic at every callback of every document, repeated, followed by any further parses",
"No test panics inside a callback and goes on to use the parser.",
[PAR,DOC,PRE],[("attribute tracking on a temporary clone","%s preprocess"%PRE),("reset at the start of parse, not at the end","%s parse"%PAR)],
None,["Parser::attribute_value after catch_unwind","next Parser::parse result"])

p("C07","Parses nested in callbacks and the parse they interrupt do not interact",
"A callback may clone the parser it is given and parse other documents with the clone, or with a parser of its own, at any depth and any number of times. The interrupted parse then gives exactly the result it gives without the nested parses, and each nested parse gives exactly what a new parser with the clone's configuration and attribute values gives.",
["histories","schedules"],"every callback position as the start of nested parses, nested again, over all documents",
"No test parses inside a callback.",
[PAR,PRE,REN,IFH],[("clones own their state","%s Parser: Clone"%PAR),("parse starts from clean per-document state","%s parse"%PAR)],
None,["outer and inner Parser::parse results"])

p("C08","Concurrent parses are isolated under every interleaving",
"Any number of threads may each use their own parsers at the same time, from a cold start of the library on. Under every interleaving, with callbacks stalling, failing or panicking in some of them, each thread gets exactly the results, callback sequence and attribute values it gets when run alone in a fresh process, and no thread is blocked forever.",
["schedules","crash_points"],"all interleavings of 2 to 4 client threads at callback and allocation granularity, with cold or warm lazily built statics",
"The test harness runs tests in parallel but controls no interleaving and compares nothing across threads.",
[PAR,"parser/src/content/substitution_step.rs","parser/src/content/macros.rs","parser/src/content/passthroughs.rs"],[("no shared mutable state besides lazily built regexes","LazyLock statics in parser/src/content")],
None,["per-thread results and callback logs"])

p("C09","The result of a parse depends only on document, configuration and storage",
"Parsing the same document with the same configuration and the same storage answers gives the identical document, attribute values and callback sequence every time, whatever the hash seeds of the process, the order in which attributes were configured, whether it is the first parse of the process or the thousandth, the thread it runs on, and where memory happens to be.",
["schedules","configurations","histories"],"all hash seeds, configuration orders, cold and warm processes, threads and heap layouts",
"A unit test runs once per process with one hash seed and cannot see a second outcome.",
[PAR,CAT,"parser/src/parser/built_in_attrs.rs"],[("maps are looked up by key only, never iterated for output","%s"%CAT)],
[("attribute_values, refs, reftext_to_id","hash maps with random seeds","%s, %s"%(PAR,CAT))],["full debug form of the document","callback log"])

p("C10","No state of storage makes parsing panic, hang or misplace positions",
"Whatever bytes the caller and storage hand over as UTF-8 text (torn at any character, with lost, duplicated or swapped lines, flipped characters, mixed line ends, files that include themselves), parsing returns within bounded time without panicking or exhausting the stack. Every source position in the result (blocks, titles, header parts, attribute entries, warnings) addresses the document's own text: the recorded byte offset, line and column are those of the recorded text in it.",
["fault_sequences","inputs"],"all damage to stored files and main documents, at every point",
"Tests parse intact text; a position or index that is right for intact text and wrong for a torn line, or a loop that only ends on intact text, is out of their reach.",
[PU,BLK,SEC,"parser/src/blocks/metadata.rs","parser/src/blocks/simple.rs","parser/src/content/macros.rs","parser/src/content/substitution_step.rs","parser/src/content/passthroughs.rs","parser/src/internal/regex.rs","parser/src/span"],[("progress in block loop","%s parse_blocks_until"%PU),("depth limit","%s"%PRE)],
None,["Parser::parse returning","Span offset/line/col/data"])

p("C11","A document is self-contained and never changes once returned",
"A document returned by a parse reads the same for ever: after its parser, handlers and renderer are dropped, the source strings freed, other documents parsed on the same parser or other threads, and when moved to or read from other threads at the same time.",
["schedules","histories"],"all later histories of parses, drops and concurrent reads",
"Tests look at a document once, right after the parse.",
[DOC,PAR],[("self-owned source and dependents","%s Internal"%DOC)],
None,["full debug form of the document at several times and from several threads"])

p("C12","Storage failures leave no residue: healed storage gives fault-free results",
"After any sequence of parses in which storage failed, returned damaged or old text, stalled or crashed, once storage answers correctly the next parse of a document gives exactly the fault-free result, with every directive requested afresh. No answer or failure of storage is remembered from one request to another or from one parse to the next, except as attribute values the earlier documents assigned.",
["fault_sequences","histories"],"all fault sequences followed by healing, on one parser, on clones of it and on other parsers sharing the handler",
"No test has a storage failure that goes away.",
[PRE,PAR,IFH],[("no caching of answers","%s process_adoc_include"%PRE)],
None,["results and handler call log after healing"])

p("C13","A document assembled from storage reads exactly like one file with its text",
"Whatever storage answered, a document whose text was assembled from included files has exactly the content (structure, rendered text, numbering, ids, catalog, attribute entries, positions, warnings and their lines, attribute values afterwards) that a new parser with the same configuration and attribute values gives for that same text handed over as one file without includes. Following includes has no other effect on the document; only the source map tells them apart.",
["fault_sequences","histories"],"all include trees, storage outcome sequences, configurations and parser histories",
"Tests compare included documents with expectations written by hand for a few trees; none compares the two ways of reading the same text, in particular after failed or damaged reads and for attribute entries in included files, which the parser reads twice.",
[PRE,PAR,DOC],[("attribute tracking on a temporary parser","%s preprocess"%PRE),("parse of the assembled text","%s parse"%PAR)],
None,["Document","Parser::attribute_value","Document::warnings()"])

p("C14","Parsing retains no memory",
"Once a document has been dropped, nothing that parsing it allocated stays allocated, in the parser or in the process, beyond what the parser's current attribute values need. Repeating any history of parses, clones, reconfigurations, failed or damaged reads, crashes in callbacks and nested parses any number of times, with new words each time, leaves memory use where it was.",
["histories","fault_sequences","crash_points"],"all histories of parses, including ones with failing storage, panicking callbacks and nested parses, repeated without bound",
"No test looks at memory, or repeats a parse often enough for retention to matter; a leak on the unwinding path needs a crash at a point that no test has.",
[PAR,DOC,PRE],[("self-owned source and dependents","%s Internal"%DOC),("per-parser state","%s Parser"%PAR)],
None,["bytes allocated by the process between repetitions of the history"])

p("C15","Parsing makes progress in proportion to what it reads",
"The work of a parse (basic blocks of the library executed and bytes it allocates, up to its return and for looking up every line, block and warning afterwards) grows no faster than in proportion to the document: for every text and every tree of included files, a text or file that is k times as long because it is the same text again (other words, names and ids where they occur, in lines or in one line) takes about k times the work, once attribute values no longer grow. And it does not depend on what came before: parsing the same documents again on the same parser, or with new parsers in the same process, after any history of other parses, failing storage and crashes in callbacks, takes no more work than it did at first, beyond what further attributes that those documents set cost.",
["inputs","histories","fault_sequences"],"all texts and include trees at every length; all histories of parses, including failing storage and crashes in callbacks, repeated without bound",
"No test measures work; the tests' documents are a few lines long and no parser in them parses more than a few documents, so a rescan of what was already read, or a table that is searched from its start and grows with each parse, costs nothing there.",
[PRE,PAR,CAT,BLK,SM,"parser/src/content/passthroughs.rs","parser/src/blocks/parse_utils.rs"],[("single pass over lines","%s process_adoc_include"%PRE),("id catalog with constant time lookup","%s Catalog"%CAT),("limits on nesting, retries and attribute value length","parser/src/content/passthroughs.rs MAX_RETRY_DEPTH")],
None,["basic blocks executed and bytes allocated between call and return of Parser::parse"])

p("S01","The spec coverage report is complete and exact, or the tool fails",
"If the coverage tool exits successfully, its output is valid JSON that lists every non-hidden .adoc file below the spec directory exactly once with exactly the coverage that the tracking sources define, whatever order the file system lists directories in, however reads are split or interrupted. If a directory or file cannot be read completely or the output cannot be written completely, it exits with a failure status. When everything can be read, understood and written, it succeeds.",
["fault_sequences","configurations"],"all directory enumeration orders, short and interrupted reads and writes, and I/O errors at every call",
"The tool has no tests at all.",
["sdd/src/main.rs"],[("sorted directory walk","sdd/src/main.rs main"),("coverage matching","sdd/src/main.rs emit_adoc_coverage")],
None,["standard output and exit status of the sdd binary"])

NA=[]
def na(id,title,statement,reason,files,text="all inputs"):
    p(id,title,statement,["inputs"],text,"Pure function of the input text; tests sample a few inputs.",files,[("see files",files[0])])
    NA.append({"property":id,"reason":reason})
R="No schedule, clock, fault, history or second party takes part: "
na("N01","Special characters are escaped once in rendered text","The default renderer's output contains no unescaped <, > or & from the source outside passthroughs, and escapes each exactly once.",R+"it is a function of one paragraph's text, so simulating would only be input generation.",["parser/src/content/substitution_step.rs"])
na("N02","Inline passthrough content is inviolable","Text protected by a passthrough appears in the output unmodified by the substitutions it excludes.",R+"it is a function of one paragraph's text.",["parser/src/content/passthroughs.rs"])
na("N03","Block and section nesting follows the language","Sections nest by level and delimited blocks by matching delimiters; each source line belongs to the block the language assigns.",R+"a grammar property of the text (damage tolerance, which storage faults do reach, is C10).",["parser/src/blocks/section.rs","parser/src/blocks/compound_delimited.rs"])
na("N04","Element attribute lists are parsed as specified","Positional, named, quoted and shorthand attributes give the values the language defines.",R+"a function of one attribute list's text and attribute values.",["parser/src/attributes/attrlist.rs"])
na("N05","Quotes, replacements and macros render as specified","Formatting marks, typographic replacements and inline macros produce the defined HTML.",R+"a function of one paragraph's text.",["parser/src/content/substitution_step.rs","parser/src/content/macros.rs"])
na("N06","Path resolution normalizes web paths","Joining and normalizing image paths never leaves redundant segments and preserves URIs.",R+"a pure string function.",["parser/src/parser/path_resolver.rs"])
na("N07","Ids in a catalog are unique and resolvable","Within one document each id is registered once, a second use is warned about, and reference text resolves to the first id.",R+"within one document it is a function of the text (its independence of hash seeds is C09, of earlier documents C05).",["parser/src/document/catalog.rs"])
na("N08","Preamble, discrete headings and appendices are classified as specified","Content before the first section forms a preamble, discrete headings do not open sections, appendices are lettered.",R+"a function of the text (leaks between documents are C05).",["parser/src/document/document.rs","parser/src/blocks/section.rs"])
na("N09","The ASG schema accepts exactly well-formed semantic graphs","The JSON schema and validator accept valid abstract semantic graphs and reject others.",R+"a declarative schema evaluated by a third-party library on a complete in-memory value; the wrapper script reads one file synchronously, reports only through text and has no contract on failure.",["asg/schema.json","asg/bin/validate-asg.js"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
