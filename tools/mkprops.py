import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
S="src/sources.rs";L="src/lib.rs";R="src/parsers.rs";O="src/options.rs";T="src/types.rs";X="src/lexer.rs"
p("C01","A successful parse contains the whole ledger, whatever I/O did",
 "If loading and parsing a ledger succeeds, the returned directives are exactly those written in the root file and in every file reachable from it through include pragmas (wildcards expanded), each one complete with its date, values, postings, tags, links and metadata as written. This holds whatever I/O faults occurred on the way: open, read, stat and readdir failures, interrupted calls and short reads can turn success into a reported error, but can never yield a success with a file, part of a file or a directive missing, truncated, or duplicated. Without faults, a well-formed ledger parses successfully.",
 ["inputs","fault_sequences"],"all include trees and wildcard includes over a file system, all sequences of failing, interrupted or short file-system calls during loading",
 "The tests parse inline strings and a few healthy on-disk fixtures; none injects an I/O fault, and none compares a multi-file ledger with an independent account of what its files contain.",
 [S,L,R],[("transitive include loading",S+": BeancountSources::read_with_includes"),("read of one file",S+": read"),("include processing",L+": PragmaProcessor::next, Include arm"),("include scanner",R+": includes")],
 [dict(name="included_content",meaning="content or error per included path",where=S),dict(name="included_globs",meaning="expansion of each include glob",where=S)],
 ["BeancountSources::try_from","BeancountParser::parse"])
p("C02","Every file that cannot be loaded is reported at the include that names it",
 "If an included file cannot be opened, read or decoded as UTF-8, or an include matches nothing or cannot be expanded, then parsing fails with an error located exactly at that include in the including file, and for a file which could not be read the error names the file and the cause. One such failure neither hides the failures and syntax errors of other files nor adds errors about files that loaded. If the root file itself cannot be read, loading returns an io::Error of the kind that occurred.",
 ["inputs","fault_sequences"],"all include trees, all sets of failing files and all kinds of failure (missing, permission, I/O error, directory, dangling link, invalid UTF-8, bad pattern, error after part of the file was read)",
 "One fixture covers a missing include; no test makes reads fail, and none combines several failures or checks where each is reported.",
 [S,L],[("error recorded per path",S+": IncludedSource::Error"),("errors raised at include",L+": PragmaProcessor::next, Include arm"),("root failure",S+": try_read_with_includes")],
 [dict(name="error_paths",meaning="paths which failed to load, with message",where=L)],["BeancountSources::try_from","BeancountParser::parse -> ParseError::errors"])
p("C03","The same files always give the same result",
 "Loading and parsing the same file contents gives the same outcome every time: the same directives in the same order, which list their tags, links, metadata and currencies in the same order and print as the same text, the same options (values of lists in the same order), plugins, errors and warnings with the same text, location and order, and byte-identical error reports. It does not depend on hash seeds, on the order in which the operating system lists a directory, on how a read is split into smaller reads or interrupted and retried, or on file metadata such as the reported size.",
 ["inputs","schedules","fault_sequences"],"all ledgers (also erroneous ones), all hash seeds, directory listing orders, read fragmentations and benign interruptions",
 "Hash seeds are random per thread and directory order is fixed on one machine, so a test sees one arbitrary ordering per run and cannot compare orderings.",
 [S,L,R,O],[("file order for lexing and parsing",S+": content_iter"),("glob expansion sorted",S+": glob_with"),("option state threaded through files",L+": parse_declarations"),("leftover push errors",L+": PragmaProcessor::result"),("error context formatting",L+": fmt_include_context")],
 [dict(name="ParserState",meaning="options and warnings threaded across files in parse order",where=R)],["BeancountParser::parse","write_errors_or_warnings"])
p("C04","Loaded sources are a snapshot, unaffected by later events",
 "Once loading has returned, parsing, span resolution and error reporting depend only on what was loaded: files being changed, removed, replaced, made unreadable or failing afterwards has no effect, and no step after loading needs the file system. Parsing any number of times, through any number of parsers or clones of the sources, interleaved with reporting and resolving in any order, always gives the same result, and clones remain usable after the original is dropped.",
 ["histories","fault_sequences"],"all ledgers, all histories of parse, clone, drop, report, resolve and file-system mutation or failure after load",
 "No test mutates files between load and parse, parses twice, or clones the sources.",
 [S,L],[("content owned by sources",S+": BeancountSources"),("parse works from sources",L+": BeancountParser::parse")],
 [dict(name="BeancountSources",meaning="the snapshot",where=S)],["BeancountSources::clone","BeancountParser::new","BeancountParser::parse","resolve_span"])
p("C05","Concurrent use gives each caller what it would get alone",
 "Loading, parsing, resolving spans and writing reports from several threads at once - independently, or sharing the same sources and the same parser - gives every caller exactly the result it would have got running alone. A failure met by one caller (an I/O fault, a bad ledger, a failing writer) is never visible to another, and no interleaving deadlocks. Sources, parser and results can be shared between and sent to threads.",
 ["schedules","inputs","fault_sequences"],"all interleavings of concurrent loads, parses, reports and span resolutions, with faults hitting any one of them",
 "All tests are single-threaded; no interleaving is ever exercised and nothing asserts that the public types are Send and Sync.",
 [L,S,T],[("no shared mutable state: all state is owned or behind &self",L+": BeancountParser"),("read-only sharing of sources",S+": BeancountSources")],
 None,["BeancountParser::parse(&self)","BeancountSources::write_report(&self)"])
p("C06","Reports survive slow writers and surface write failures",
 "Writing error and warning reports to a writer that accepts any part of each write, or is interrupted, produces byte for byte what a perfect writer receives, and each report is written once and in the order given. If the writer fails, the call returns that failure rather than success, does not panic, and what was written is a prefix of the full report.",
 ["inputs","fault_sequences"],"all ledgers producing errors or warnings, with and without annotations, and all sequences of short writes, interruptions, zero-length writes and failures of the writer",
 "Tests write to a perfect in-memory or stderr writer only.",
 [S],[("error propagation with ?",S+": write_errors_or_warnings, write_report"),("annotation",S+": write_fmt of the annotation")],
 None,["BeancountSources::write_errors_or_warnings","BeancountSources::write_report","SyntheticSources::write_errors_or_warnings"])
p("C07","Every span resolves to the file, lines and text it came from",
 "For every directive, posting, tag, option, plugin, error or other spanned element of a parse, resolving its span gives the name of the file it was written in, the first and last line it occupies there, and its exact source text without trailing whitespace, and an error report on it shows it at that file, line and column. This holds in any file of any include tree, whatever multi-byte characters precede or lie within it, and however many other files loaded or failed to load before it.",
 ["inputs","fault_sequences"],"all include trees incl. failed and duplicate includes, all Unicode content",
 "The tests check spans in single inline strings; source identifiers only matter across files, and which file gets which identifier depends on load order and failures.",
 [S,T,"src/trim.rs",L],[("source id assignment",S+": read_with_includes"),("span resolution",S+": resolve_span, get_adjusted_source"),("tokens indexed by source id",L+": BeancountParser::new")],
 [dict(name="source_id_strings",meaning="file name per source id",where=S)],["BeancountSources::resolve_span","error_source_text"])
p("C08","Synthetic spans keep their meaning whatever is created later",
 "A span created for a piece of synthetic text always resolves, from its creation on, to exactly that text under the source name given, with the line numbers it has within everything created under that name, and is shown so in reports. This is unaffected by any later or interleaved creation under the same or other names, by clones, or by resolving or reporting in between; spans of real files also still resolve as they do without synthetic sources.",
 ["histories","inputs"],"all histories of creation under shared and distinct names, interleaved with clone, resolve and report",
 "One test creates a couple of ASCII fragments; no history mixes names, multi-byte text, clones and reports.",
 [S],[("append to shared source",S+": SyntheticSources::create_synthetic_span"),("lookup",S+": SyntheticSources::get_adjusted_source")],
 [dict(name="content",meaning="accumulated text per synthetic source name",where=S)],["SyntheticSources::create_synthetic_span","SyntheticSources::resolve_span","SyntheticSources::write_errors_or_warnings"])
p("C09","Damaged or hostile file contents never crash or hang the library",
 "Whatever bytes the files contain - flipped bits, truncation, torn or misplaced blocks, zero-filled regions, invalid UTF-8, arbitrary Unicode, splices of valid text - loading, parsing, resolving every span and writing every report finish without panic, abort or unbounded running, with a result or with errors. A damaged file which is no longer valid UTF-8 is never partially accepted: parsing fails, and where the includes leading to it are intact it is reported as unreadable there.",
 ["inputs","fault_sequences"],"all storage corruptions of all ledgers at any block or byte, across any files of the include tree",
 "The fixtures are well-formed or contain one deliberate mistake; none models damaged storage.",
 [X,R,T,S,L,O],[("lexer error tokens",X+": lex"),("recovery",R+": declaration recover_with"),("checked spans",S+": trimmed_span")],
 None,["BeancountSources::try_from","BeancountParser::parse","write_errors_or_warnings","resolve_span"])
p("C10","Each file counts exactly once, however it is reached",
 "However many includes lead to a file - repeated or nested includes, overlapping wildcards, cycles, symbolic and hard-to-recognise path aliases such as ./ and ../ - its directives appear at most once in the result and loading terminates. A repeated include in the same push context (the same tags and metadata values pushed, wherever) is harmless and silent; one in a different context, or back to the root file, is reported as a duplicate include at the repeated include, and neither case disturbs any other file.",
 ["inputs","histories"],"all include graphs over files, directories, symbolic links and path spellings",
 "A few fixtures cover one cycle and one duplicate; graphs with several aliases and contexts are not sampled.",
 [S,L],[("canonical path set",S+": canonical_paths"),("duplicate detection with context",L+": PragmaProcessor::next, Include arm")],
 [dict(name="canonical_paths",meaning="files seen by identity",where=S),dict(name="include_by_canonical_path",meaning="first include of each file with its context",where=L)],["BeancountParser::parse"])
p("C11","Directives come in date order, then open, balance, rest, stably",
 "The directives of a successful parse are in non-descending date order; on one date all opens come first, then all balances, then everything else. Within the same date and class, directives keep the order in which they are met when each include is replaced by the contents of the file it names, in every include tree.",
 ["inputs","schedules"],"all ledgers over all include trees (the order among several files matched by one wildcard include is left open)",
 "The sort helper is unit-tested on integers; order across included files is not.",
 [L,"src/sort.rs"],[("stable bucket sort",  "src/sort.rs: Sort::new"),("sort key",L+": BeancountParser::parse"),("include traversal",L+": PragmaProcessor")],
 None,["ParseSuccess::directives"])
p("C12","Pushed tags and metadata apply across files in include order",
 "A directive carries its own tags and metadata plus exactly those tags and metadata entries which have been pushed and not yet popped at its point in the traversal that replaces each include by the contents of the file; its own value for a key wins over a pushed one, and the most recent push of a key wins. An unmatched pop is an error at the pop, and any tag or metadata key still pushed at the end of the ledger is reported as an error.",
 ["inputs","histories"],"all sequences of pushes, pops, includes and directives over all include trees",
 "Fixtures cover pushes in one file or one include level; the state carried through nested includes and nested pushes is not sampled.",
 [L,R],[("push/pop state",L+": PragmaProcessor::next"),("augmentation",R+": augment_tags, augment_key_values"),("leftovers",L+": PragmaProcessor::result")],
 [dict(name="tags, meta_key_values",meaning="active pushes",where=L)],["Directive::metadata","ParseError::errors"])
p("C13","Options are gathered from every file, and conflicts are flagged",
 "The options of a successful parse reflect the option pragmas of every file in the include tree: list-valued options collect all their values, single-valued ones have the value given, options not given have their documented defaults. Giving twice an option which may be given only once, or the same value twice to a list-valued one, in one file or in two, is an error at the repeated option, and an account-type name set in the root file governs account names in all included files. A long_string_maxlines set in the root file likewise holds for all files: each string of more lines than allowed gets one warning, located at the string, and no other string gets one.",
 ["inputs","schedules"],"all placements of options over all include trees",
 "Options tests use single inline files; how option state carries from file to file depends on the order files are visited, which is not sampled.",
 [O,R,L],[("parser options",O+": ParserOptions::assimilate"),("options",O+": Options::assimilate"),("state threading",L+": parse_declarations")],
 None,["ParseSuccess::options","ParseError::errors"])
p("C14","Loading is read-only, bounded and leaves nothing open",
 "Loading never creates, writes, renames or removes anything, opens nothing but the ledger's own files and directories needed to find them, and closes everything it opened also when it fails. It reads each file of the ledger once, so that its file-system work grows linearly with the ledger, and it terminates for every include graph and every ledger size, within ordinary stack limits.",
 ["inputs","fault_sequences"],"all include graphs (cycles, links, deep chains, long files), all fault sequences",
 "No test observes system calls, file descriptors or stack depth.",
 [S,L],[("File dropped after read",S+": read"),("dedup before read",S+": canonical_paths"),("iteration instead of recursion",L+": PragmaProcessor::next")],
 None,["the system calls made by BeancountSources::try_from"])
p("C15","A failed attempt leaves no trace: retry equals a fresh start",
 "After any failed or partially failed load, parse or report, however it failed, loading again once the cause is gone gives exactly the result of a first load in a fresh process. Attempts do not influence each other, in any number and order, including attempts on different ledgers interleaved.",
 ["histories","fault_sequences"],"all histories of load, parse and report attempts with faults that come and go, over several ledgers",
 "Each test makes one attempt on a healthy file system.",
 [S,L],[("no state outside the returned value",S+": BeancountSources"),("fresh parser state per parse",L+": parse_declarations")],
 None,["BeancountSources::try_from","BeancountParser::parse"])
p("C16","Files replaced while loading are seen old or new, never mixed",
 "If files are atomically replaced by new versions while a ledger is loading, the loaded ledger uses for each file one complete version which that file had during the load, consistently for finding its includes, for its directives and for the text shown in reports. Loading and parsing then complete without panic and any include of the version used is either honoured or reported.",
 ["schedules","inputs"],"all ledgers, all points during loading at which any file is replaced, removed or created",
 "Nothing in the tests changes files during a load; the window cannot be hit deliberately without controlling I/O.",
 [S,L],[("content read once and kept",S+": read_with_includes, included_content"),("includes found in the kept content",S+": get_includes(content)")],
 None,["BeancountSources::try_from","BeancountParser::parse"])
# not applicable
p("N01","Each directive's text is parsed to the values it denotes",
 "For every directive of the Beancount grammar supported, the parsed value equals the value the documented syntax denotes: dates, accounts, amounts, costs, prices, flags, strings with escapes.",
 ["inputs"],"all texts of the grammar","unit tests sample the grammar",[X,R],[("grammar",R)],None,["BeancountParser::parse"])
p("N02","Arithmetic expressions evaluate as decimal arithmetic prescribes",
 "Number expressions evaluate exactly in decimal arithmetic with the usual precedence, and the scale of the result follows the operands.",
 ["inputs"],"all expressions","unit tests and property tests sample expressions",[T,R],[("evaluation",T+": Expr::evaluate")],None,["ExprValue::value"])
p("N03","Printed directives parse back to equal directives",
 "Formatting a parsed directive and parsing the text again gives an equal directive.",
 ["inputs"],"all directives","tests compare a handful of strings",[T,"src/format.rs"],[("Display impls",T)],None,["Display for Directive"])
p("N04","Accounts, currencies, tags, links and keys are validated",
 "Text is accepted as an account, currency, tag, link, key or flag if and only if it follows Beancount's lexical rules for it.",
 ["inputs"],"all strings","property tests sample strings",[T,X],[("validation",T+": TryFrom impls")],None,["TryFrom<&str>"])
p("N05","A syntax error spoils only the directive it is in",
 "A malformed directive yields an error located in it, and the directives before and after it are still recognised and checked.",
 ["inputs"],"all files with syntax errors","fixtures sample a few mistakes",[R],[("recovery",R+": skip_then_retry_until")],None,["ParseError::errors"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
for x in P: assert len(x['title'])<=80
