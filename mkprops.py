#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the statements are easy to review and edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
TRIE="src/matcher/trie/node/mod.rs"; LIT="src/matcher/trie/node/literal.rs"; PN="src/matcher/trie/node/parser.rs"; TI="src/matcher/trie/node/interface.rs"
SA="src/matcher/suffix_array/impls.rs"; SI="src/matcher/suffix_array/interface.rs"
p("C01","A reported match is a real match of the whole message",
  "Whenever a matcher (trie or suffix array) reports that a message matches a pattern, that pattern was added to it, and the entire message, first to last character, consists of the pattern's literal texts in order with one piece of text per parser between them, each piece being what that parser accepts at that point. A message that none of the added patterns matches in this way is reported as not matching.",
  ["inputs","configurations"],"every set of added patterns (any order, shared prefixes, multi-byte text) and every message, for both matcher implementations",
  "The tests parse about 15 fixed messages against 1-4 fixed ASCII patterns; no test rejects a truncated, extended or prefix-only message on the suffix array.",
  [TRIE,LIT,PN,SA,"src/utils/common_prefix.rs","src/parsers/*.rs"],
  [("walk of literal children / literal entries",TRIE+" parse; "+SA+" Matcher::parse"),("leaf check on remaining text",PN),("parser merging by hash","src/parsers/*.rs hash_os")],
  ["Matcher::parse return value: MatchResult::pattern().uuid()"])
p("C02","A message that an added pattern matches is never left unmatched",
  "If at least one pattern added to a matcher matches a message on its own, the matcher reports a match for that message, no matter which other patterns were added before or after it and in which order. This holds for both matcher implementations.",
  ["inputs","configurations","histories"],"every pattern set, every insertion order, every message matched by some member",
  "Every test matcher holds at most four patterns in one order, and none asks whether each of several patterns with a common prefix still matches.",
  [TRIE,LIT,PN,TI,SA,SI],
  [("insertion shares prefixes without dropping earlier children",TI+" Entry::insert; "+SI+" Entry::insert; "+LIT+" split"),("fallback from literals to parsers",TRIE+" parse"),("next parser tried when one fails",TRIE+" parse_with_parsers")],
  ["Matcher::parse return value compared with a per-pattern reference match"])
p("C03","Extracted key-value pairs are exactly the text the parsers consumed",
  "A match carries exactly one entry per distinct parser name of the matched pattern; its value is the very slice of the message that the parser of that name consumed (the leftmost one if the name is repeated), and unnamed parsers add nothing. The pattern exposed by the match carries the name, UUID, additional values and tags it was added with.",
  ["inputs","configurations"],"every pattern set, message and naming of parsers, including repeated and missing names",
  "Tests compare the values of four messages; none has repeated names, several patterns differing only in parser names, or multi-byte captures.",
  ["src/matcher/result.rs",PN,SA,"src/parsers/mod.rs","src/parsers/set.rs","src/parsers/greedy.rs","src/parsers/int.rs"],
  [("MatchResult::insert","src/matcher/result.rs"),("parse_then_push_kvpair / push_last_kvpair",TRIE+"; "+PN),("parsers with different names are kept apart","src/parsers/*.rs hash_os")],
  ["MatchResult::values() (text and address of each slice) and MatchResult::pattern() accessors"])
p("C04","Which of several matching patterns wins is fixed by one precedence rule",
  "When several added patterns match a message, the winner is decided left to right: literal text beats a parser (the longest run of literal text is followed first), a pattern that ends where the message ends beats one that goes on with a parser, and among parsers at the same place the one that was added first is tried first, falling back to the next alternative when the rest fails. Of patterns with identical token sequences the one added last is reported. (For patterns as the pattern syntax yields them: no empty literal, no two literals in a row.)",
  ["inputs","configurations","histories"],"every pattern set with overlapping patterns, every insertion order, both matchers",
  "One test checks literal-over-parser on one message; no test has competing parsers, fallback over literals or duplicate patterns.",
  [TRIE,LIT,PN,SA,"src/utils/sortedvec.rs"],
  [("literal lookup precedes parser_children",TRIE+" parse"),("parser_children kept in insertion order",TRIE+" insert_parser; "+SA+" insert_parser"),("set_pattern overwrites",TI+"; "+SI)],
  ["MatchResult::pattern().uuid() against a precedence model"])
p("C05","The trie and the suffix-array matcher are interchangeable",
  "For the same sequence of added patterns, the trie matcher and the suffix-array matcher give the same answer for every message: both no match, or the same pattern with the same key-value pairs; the same pattern file is accepted or rejected by both. (For patterns as the pattern syntax yields them: no empty literal, no two literals in a row.)",
  ["inputs","configurations","histories"],"every sequence of additions and every message or pattern file",
  "The two implementations have separate tests on different inputs; nothing compares them.",
  [TRIE,SA,"src/matcher/suite.rs","src/matcher/factory.rs","src/matcher/pattern_source/mod.rs"],
  [("Matcher trait implemented twice","src/matcher/trie/matcher.rs; "+SA)],
  ["Matcher::parse and PatternLoader::from_file of both factories"])
p("C06","No message, pattern text or pattern file can crash the library",
  "Compiling any pattern text, loading any JSON document or well-formed YAML document as a pattern file, adding any compiled pattern (of up to a few hundred tokens) and parsing any message (any Unicode text, any length) returns normally: no panic, abort, hang, memory error or stack exhaustion. Every string handed back is valid UTF-8 cut at character boundaries.",
  ["inputs"],"every UTF-8 message and pattern text, every file content of the supported formats; message length up to megabytes on a small stack",
  "Tests use ASCII inputs of a few dozen bytes plus one multi-byte message on one matcher.",
  [TRIE,LIT,SA,"src/parsers/set.rs","src/utils/common_prefix.rs","src/grammar/parser/pattern_parser.rs","src/matcher/pattern/deser.rs","src/matcher/pattern_loader.rs"],
  [("cuts at character boundaries","src/utils/common_prefix.rs; src/parsers/set.rs"),("number parsing in parser options","src/grammar/parser/pattern_parser.rs parse_int"),("unwrap/expect/unreachable sites",TRIE)],
  ["panic hook, AddressSanitizer reports, exit status of the process"])
p("C07","Pattern text compiles to exactly the literals and parsers it spells",
  "Pattern text in the documented syntax compiles to the literals and parsers it spells, in order, with their names, character sets and length limits, and the escape \\%\\{ standing for %{ in any literal. Text with an unterminated or misspelled %{...} construct, a bad parser type, parameter, number or name is rejected as a whole with an error; the empty text is rejected. A parser factory supplied by the caller is asked for exactly the parsers spelled.",
  ["inputs","programs"],"every pattern text",
  "About 20 example strings; no options/escapes/literals combined, no systematic malformed inputs.",
  ["src/grammar/parser/pattern_parser.rs","src/grammar/parser/pattern.rustpeg","src/grammar/parser/mod.rs","src/grammar/mod.rs","src/matcher/trie/parser_factory.rs","src/utils/mod.rs"],
  [("PEG parser","src/grammar/parser/pattern_parser.rs"),("unescape_literal","src/grammar/mod.rs"),("set_optional_params","src/matcher/trie/parser_factory.rs")],
  ["grammar::parser::pattern result: tokens, parser names, behaviour of each compiled parser"])
p("C08","SET, INT and GREEDY consume exactly what they document",
  "SET and INT consume the longest leading run of characters from their set (INT: 0-9) and succeed only if that run is non-empty and its number of characters is within min_len and max_len; GREEDY consumes up to the first occurrence of its end text (or everything if it has none), possibly nothing, and fails if the end text does not occur. A successful result is a prefix of the given text and carries the parser's name.",
  ["inputs","configurations"],"every character set, limit combination, end text and input text, including multi-byte characters sharing bytes",
  "Six hand-picked ASCII inputs per parser.",
  ["src/parsers/set.rs","src/parsers/int.rs","src/parsers/greedy.rs","src/parsers/has_length_constraint.rs","src/parsers/base.rs"],
  [("calculate_match_length / is_match_length_ok","src/parsers/set.rs; src/parsers/has_length_constraint.rs"),("find of end string","src/parsers/greedy.rs")],
  ["Parser::parse of directly constructed and grammar-built parsers"])
p("C09","Pattern files load faithfully, in JSON and in YAML alike",
  "Loading a valid pattern file yields exactly the patterns written in it, in order, each with its name, UUID, compiled pattern, additional values, tags and test messages unchanged, and absent optional fields absent. The same content written as JSON or as YAML (extensions json, yaml, yml, YAML, YML) loads to the same patterns, and a matcher built from the file behaves as one to which the file's patterns were added from last to first.",
  ["inputs","configurations"],"every valid pattern file content, field order, optional-field combination, both formats",
  "Tests load three fixed files and check only the number of patterns.",
  ["src/matcher/pattern_loader.rs","src/matcher/pattern/deser.rs","src/matcher/pattern/file/deser.rs","src/matcher/pattern/file/iter.rs","src/matcher/pattern/testmessage/deser.rs","src/matcher/pattern/pattern.rs"],
  [("serde visitors","src/matcher/pattern/deser.rs; src/matcher/pattern/testmessage/deser.rs; src/matcher/pattern/file/deser.rs"),("extension dispatch","src/matcher/pattern_loader.rs load_file"),("IntoIter pops from the end","src/matcher/pattern/file/iter.rs")],
  ["PatternLoader::load_file / from_file results through public accessors"])
p("C10","Defective or unreadable pattern files are rejected, never half-loaded",
  "A pattern file that is syntactically broken, has a missing required field (patterns, uuid, pattern, message), an unknown field, a wrongly typed value, an invalid UUID or an invalid pattern is rejected as a whole with the error of its format, whichever entry is defective. An unsupported or missing extension gives the unsupported-extension error, and a file that cannot be opened or completely read, or is not UTF-8, gives an I/O error, at whatever byte the failure happens, while interrupted and short reads change nothing.",
  ["inputs","fault_sequences"],"every single defect at every position of a file, every read failure point",
  "Two broken files and one missing file are tried; no read fault is ever injected.",
  ["src/matcher/pattern_loader.rs","src/matcher/pattern_source/error.rs","src/matcher/pattern/deser.rs","src/matcher/pattern/file/deser.rs","src/matcher/pattern/testmessage/deser.rs"],
  [("read","src/matcher/pattern_loader.rs"),("From conversions","src/matcher/pattern_source/error.rs"),("missing/unknown field errors","src/matcher/pattern/deser.rs")],
  ["variant of BuildError from PatternLoader::load_file / from_file / from_file_ignore_errors"])
p("C11","Loading succeeds exactly when every test message passes",
  "Building a matcher from a source succeeds if and only if the source yields no failed item and each test message, checked when its pattern has been added after the earlier ones, is matched by its own pattern (by UUID), with every expected value equal to the extracted or additional value (extracted wins) and every expected tag among the pattern's tags; unexpected extra values and tags are no error. The matcher then holds every pattern of the source. Otherwise the first failing item stops the load, and the error of a failed test message tells the kind of failure with the pattern's UUID and the message, key, expected and actual value or tags concerned.",
  ["inputs","histories","configurations"],"every source of patterns with any number of test messages, passing or failing in any way, for both matchers",
  "Seven fixed files, each with one failing condition and only is_err() asserted.",
  ["src/matcher/pattern_source/mod.rs","src/matcher/pattern/testmessage/message.rs","src/matcher/pattern/testmessage/error.rs"],
  [("check_pattern / check_test_messages","src/matcher/pattern_source/mod.rs"),("test_tags, test_values, merge_values","src/matcher/pattern/testmessage/message.rs")],
  ["Result of from_source / from_file, fields and Display of testmessage::Error, TestMessage::test_result"])
p("C12","Error-ignoring loads keep every pattern and log every error",
  "Building a matcher while ignoring errors never fails because of a pattern or test message: the resulting matcher behaves exactly like one to which every well-formed pattern of the source was added, in source order, including patterns whose test messages failed. Each erroneous item of the source is reported in exactly one error-level log record carrying that error's text, and correct items are not reported.",
  ["inputs","histories","fault_sequences"],"every source mixing good patterns, patterns with failing test messages and failed items in any order",
  "from_source_ignore_errors and from_file_ignore_errors are not called by any test.",
  ["src/matcher/pattern_source/mod.rs","src/matcher/pattern_loader.rs"],
  [("from_source_ignore_errors","src/matcher/pattern_source/mod.rs"),("error! log call","src/matcher/pattern_source/mod.rs")],
  ["captured log records; Matcher::parse of the resulting matcher against a reference matcher"])
p("C13","Parsing is read-only, repeatable and leaves nothing behind",
  "Parsing a message never changes the matcher: any number of parses in any interleaving, with any logging level, give the same answer each time and as on a freshly built matcher. Parsing writes nothing to standard output or standard error and keeps no memory once its result is dropped, and dropping a matcher frees all memory it took.",
  ["histories","inputs","configurations"],"every interleaving of parses of matching and non-matching messages, all log levels",
  "Each test parses one or two messages once, with logging off.",
  [TRIE,SA,"src/matcher/mod.rs","src/matcher/result.rs"],
  [("parse takes &self","src/matcher/mod.rs"),("log macros","src/matcher/trie/node/mod.rs")],
  ["Matcher::parse results over a history, Debug rendering of the matcher, counting allocator, captured stdout/stderr"])
p("C14","Adding a pattern changes no result except in favour of that pattern",
  "After a pattern is added to a matcher in use, every message either gets the same result as before (same pattern, same key-value pairs, or no match) or is now matched by the added pattern. In particular a message that matched keeps matching after any further additions.",
  ["histories","inputs"],"every history of additions interleaved with parses, both matchers",
  "No test parses before and after an addition.",
  [TRIE,LIT,TI,SA,SI],
  [("LiteralNode::split keeps pattern, child and has_value of the split node",LIT),("Entry::insert keeps existing children",TI+"; "+SI)],
  ["Matcher::parse results before and after each Matcher::add_pattern"])
p("C15","A cloned matcher is an independent, equivalent snapshot",
  "A clone of a matcher (Clone or boxed_clone) answers every message exactly as the original did when it was cloned, and later additions to the original or to the clone, or dropping either, do not affect the other. Clones of parsers, compiled patterns and patterns behave like their originals in the same way.",
  ["histories","inputs"],"every history of clone, add, parse and drop over several generations of clones, both matchers",
  "No test clones a matcher or calls boxed_clone.",
  [TRIE,PN,SA,"src/matcher/trie/matcher.rs","src/matcher/compiled_pattern.rs","src/parsers/*.rs"],
  [("Clone for ParserNode / ParserE / TokenType",PN+"; "+SA+"; src/matcher/compiled_pattern.rs"),("boxed_clone","src/parsers/*.rs; src/matcher/mod.rs")],
  ["Matcher::parse results of every live clone against its own history"])
p("C16","Matching work is bounded by the pattern set, stack use by the patterns",
  "While one message is parsed, each parser occurrence of the added patterns is tried at most once, so the number of parser invocations never exceeds the number of parser occurrences, whatever the message. Stack use does not grow with the length of the message.",
  ["inputs","configurations"],"every pattern set (including many overlapping alternatives) and adversarial message",
  "No test counts parser invocations or parses a message longer than 100 bytes.",
  [TRIE,PN,SA],
  [("one visit per tree node, no re-trying",TRIE+" parse, parse_with_parsers; "+SA+" parse")],
  ["invocation counts of instrumented parsers added through the public Parser trait; parses on a thread with a small stack"])
p("C17","A syntax error points at the faulty place of the pattern text",
  "The error for rejected pattern text gives a byte offset that is a character boundary inside the text or at its end: the place where the first missing or wrong keyword, name, number or punctuation mark is expected (for an empty character set, an offset from the beginning of that parser to the set). Its line is one more than the number of newlines before that offset, its column the distance in bytes from the start of that line plus one, and both numbers appear in the printed error, together with every text that the error names as expected. Each text, letter or digit named as expected, put in at that place, takes the parse past it, and each that would do so is named (empty character sets aside).",
  ["inputs"],"every invalid pattern text, including several lines, CRLF line ends and multi-byte text",
  "One test prints an error without looking at it.",
  ["src/grammar/parser/pattern_parser.rs"],
  [("mark_failure / max_err_pos","src/grammar/parser/pattern_parser.rs"),("pos_to_line","src/grammar/parser/pattern_parser.rs")],
  ["fields and Display of grammar::parser::ParseError"])
p("C18","The sorted vector and common-prefix utilities keep their contracts",
  "A SortedVec always holds exactly the pushed and not yet removed elements in ascending order, and its find, find_pos and binary_search_by find an element if and only if an equal one is held. The common prefix length of two strings is the longest shared prefix that ends at a character boundary, the same in both directions, and ltrunc and rtrunc remove exactly the given number of bytes from the left or right.",
  ["inputs","histories"],"every history of pushes and removals and every pair of strings",
  "Five pushes in one order; four string pairs.",
  ["src/utils/sortedvec.rs","src/utils/common_prefix.rs","src/utils/mod.rs"],
  [("push sorts","src/utils/sortedvec.rs"),("last_valid_character_boundary","src/utils/common_prefix.rs")],
  ["public API of utils::SortedVec, utils::CommonPrefix, utils::flatten_vec"])
p("C19","A rejected pattern file can be traced to its cause",
  "When a pattern file or a single JSON pattern is rejected because the text of a pattern is missing or invalid, exactly one error-level log record is written, and it carries that pattern's name and UUID as far as they are given, and for an invalid text also the text itself and the line and column of the syntax error. Loading a valid file without test messages writes no error-level record. The error for a missing or unknown field names the field. Every load error prints the message of the I/O, format or test-message error underneath it, and an I/O error is the one the operating system reported.",
  ["inputs","fault_sequences"],"every pattern file with one such defect in any pattern, any field order and format, any log level; every failing open or read",
  "No test looks at a log record or at the text of a load error.",
  ["src/matcher/pattern/deser.rs","src/matcher/pattern_source/error.rs","src/matcher/pattern_loader.rs"],
  [("error! calls of the pattern visitor","src/matcher/pattern/deser.rs visit_map"),("Display for BuildError","src/matcher/pattern_source/error.rs")],
  ["captured log records; Display and payload of BuildError"])
p("C20","The literal level of the trie is an exact map",
  "After any history of insertions of literals into a trie (any order, repeated, one a prefix of another, multi-byte), looking up a text finds it if and only if exactly that text was inserted; inserting it again gives back the node with the pattern and parsers that were attached to it, a first insertion gives a node without a pattern. For a text that is not found, the reported remaining length is that of a tail of the text at a character boundary, and what precedes the tail is the beginning of an inserted literal. Parsers inserted at one place are kept one per distinct parser (kind, name, characters, limits, end text) in the same way.",
  ["histories","inputs"],"every history of literal and parser insertions, attachments, look-ups and clones on one trie",
  "A handful of fixed insertions of ASCII words, with look-ups of a few of them.",
  [TRIE,LIT,PN,"src/utils/sortedvec.rs"],
  [("lookup_literal / lookup_literal_mut / search",TRIE),("insert_literal, insert_literal_tail and LiteralNode::split",TRIE+"; "+LIT),("insert_parser",TRIE)],
  ["SuffixTree::lookup_literal, lookup_literal_mut, insert_literal, insert_parser, is_leaf"])
p("C21","pdb2adb converts pattern databases faithfully",
  "For every patterndb XML file in which rules have UUIDs as ids, every ruleset has a name of its own, and keys are valid parser names, utils/pdb2adb writes a JSON pattern file that actiondb loads. It has exactly one pattern for each convertible pattern of each rule whose ruleset has a program: the same text with @@ as an at sign and every %{ escaped (text that contains \\%\\{ apart, which actiondb cannot express), and in place of each parser INT (NUMBER), a GREEDY followed by the whole end text (ESTRING, which may contain colons), a GREEDY between its quotes (QSTRING), a SET of the right characters (STRING and its additional characters, SET, HOSTNAME, FLOAT, DOUBLE) or a GREEDY (ANYSTRING, addresses), under the given key (pdb2adb2ignore if there is none). The first pattern of a rule carries the rule's id, all UUIDs and names differ, names begin with the ruleset's name. The rule's tags, values without macros and examples (message and expected values, in order; none with --no-examples) are carried over; with -P the program stands in front of patterns and messages. What is left out (a pattern with an unsupported parser or a set with quotation marks, rules without a program, values with macros) is named on stderr, as is each rule with several patterns and examples or with several programs in its ruleset, and no other.",
  ["inputs","configurations"],"every such file, layout and escaping, option and combination of parsers",
  "There is no test for the converter.",
  ["utils/pdb2adb"],
  [("_p2p, _validate_pattern: parsers and literals","utils/pdb2adb"),("rule, example, rule_tag, rule_value handlers","utils/pdb2adb")],
  ["standard output and standard error of pdb2adb; PatternLoader::load_file on the output"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
