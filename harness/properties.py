"""The properties, and how each check decides its own. `python3 harness/properties.py` writes
properties.jsonl and MANIFEST.json from this file."""
import json, os, sys

A = "core/src/typed/template/mod.rs"
REP = "core/src/typed/template/repetition.rs"
SEQ = "core/src/sequence.rs"
CHO = "core/src/choice.rs"
TRA = "core/src/typed/traits.rs"
TRK = "core/src/typed/tracker.rs"
GEN = "generator/src/typed/generator.rs"
GET = "generator/src/typed/getter.rs"
MOD = "generator/src/typed/module.rs"
OUT = "generator/src/typed/output.rs"
COM = "generator/src/common.rs"
MP = "meta/src/parser.rs"
MG = "meta/src/grammar.pest"
MD = "meta/src/doc.rs"
ME = "meta/src/error.rs"
POS = "core/src/position.rs"
SPA = "core/src/span.rs"
FMT = "core/src/formatter.rs"
TOK = "core/src/token/mod.rs"

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, **check):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, observe=observe, check=check))


prop(
    "C01", "Generated parsers recognise exactly what the grammar means",
    "For every valid grammar, every rule of it and every input, parsing with the generated rule accepts a prefix of the input exactly when the PEG semantics of the grammar does (literals, case-insensitive literals, ranges, ordered choice, sequences, options, repetitions, predicates, rule references), and the accepted prefix is the one PEG semantics gives. A parse of the whole input succeeds exactly when that prefix is the whole input.",
    ["programs", "inputs"], "all grammars accepted by the grammar language, all their rules, all UTF-8 inputs and starting offsets",
    "The tests parse a handful of inputs with five fixed grammars; acceptance for all combinations of operators, nesting depths, arities above the built-in ones and multi-byte inputs is never compared with a definition of the semantics.",
    [A, REP, SEQ, CHO, TRA, GEN],
    [("typed nodes", A), ("sequence and choice macros", SEQ), ("code generation per operator", GEN)],
    ["return values of TypedNode::{try_parse_with_partial, try_parse_with, check_with_partial, check_with} of generated rules"],
    run=[("core", "ACC", 280), ("all", "ACC", 120)], nt="backtracks,rep_stop_fail,pred_ok,pred_fail",
)
prop(
    "C02", "Parse, check, partial and full entry points agree",
    "For every rule, input, starting offset and initial stack: the checking entry points succeed exactly when the parsing ones do and end at the same offset; a full parse succeeds exactly when the partial parse ends at the end of the input, and yields the same tree; the convenience entry points (on a string, on a parser type) give the same outcome, offset, tree and error as the explicit ones. Parsing and checking also leave the same stack and record the same failed attempts.",
    ["programs", "inputs"], "all rules of all grammars, all inputs, starting offsets and stacks",
    "Every node type implements parsing and checking twice, by hand; the tests mostly call one of the two on a few inputs.",
    [TRA, A, REP, SEQ, CHO, POS],
    [("TypedNode default methods", TRA), ("paired implementations", A), ("TypedParser", TRA)],
    ["results, end positions, stacks and trackers of ten entry points for the same call"],
    run=[("core", "AGREE", 120), ("stack", "AGREE", 100), ("all", "AGREE", 100), ("trivia", "AGREE", 60), ("builtin", "AGREE", 40)], nt="accepted,backtracks",
    need={"checked:AGREE-simple": 1000},
)
prop(
    "C03", "Token pairs are exactly the matched non-silent rules",
    "For every successful parse, the token pairs of the result are exactly the non-silent rules that took part in the match, in source order, each with its rule, start and end offset, and nested as they matched. Nothing inside silent rules, predicates or trivia yields a pair, and pairs of rules of imported modules carry their module's rule converted to the importing module's rule.",
    ["programs", "inputs"], "all grammars, rules and accepted inputs",
    "The tests compare the pairs of a few rules of one grammar on fixed strings.",
    [TRA, GEN, SEQ, CHO, REP, TOK],
    [("PairContainer and PairTree implementations", TRA), ("generated pair_api", GEN), ("Pair conversion", TOK)],
    ["PairContainer::{for_each_child_pair, for_self_or_for_each_child_pair}, PairTree::{as_pair_tree, get_rule, get_span, ...} and the resulting Pair values"],
    run=[("pairs", "PAIRS", 200), ("modules", "PAIRS", 60), ("all", "PAIRS", 80)], nt="nodes2", need={"pairs_seen": 2000, "long_children": 500000, "deep_pairs": 50000}, special=["long_children"],
)
prop(
    "C04", "The typed tree reproduces the derivation",
    "For every successful parse, the typed tree mirrors the PEG derivation: each rule node spans exactly the text it matched, sequences hold all their items in order, choices hold the first alternative that matched, options and repetitions hold exactly the matches made, and leaf nodes carry exactly the text or character they matched.",
    ["programs", "inputs"], "all grammars, rules and accepted inputs",
    "Tests only inspect the structure of a few trees for fixed inputs.",
    [A, REP, SEQ, CHO, TRA, GEN],
    [("typed nodes", A), ("generated rule structs", GEN), ("full_rule_struct", TRA)],
    ["every field of every node of the typed tree, walked by generated code"],
    run=[("tree", "WALK", 240), ("all", "WALK", 120), ("stack", "WALK", 60)], nt="nodes2", need={"tree_rule_nodes": 5000},
)
prop(
    "C05", "Trivia is matched exactly where the grammar asks for it",
    "Between the items of a sequence joined by `~` the optional trivia of the grammar is matched, by `^` the mandatory trivia, and by `-` nothing; the same holds between (and never before or after) the iterations of repetitions written with `~` or `^`. Trivia that is only followed by a failing iteration is given back, and trivia leaves no trace in the tree or the pairs.",
    ["programs", "inputs"], "all grammars with every mixture of trivia operators and trivia definitions, all inputs",
    "The tests have one grammar with trivia per operator and inputs that almost always have well-placed trivia.",
    [SEQ, REP, GEN, MP],
    [("trivia between sequence items", SEQ), ("trivia between iterations", REP), ("embed_trivia", GEN)],
    ["accepted offset, tree, pairs and recorded attempts against the model, on inputs with trivia at, before, after and missing from every place"],
    run=[("trivia", "ACC,WALK,PAIRS,AGREE,STACK", 260), ("modules", "ACC,WALK,PAIRS", 40)], nt="trivia_nonempty,trivia_fail", need={"ev:trivia_nonempty": 2000, "ev:rep_giveback": 100},
)
prop(
    "C06", "Stack operations follow stack semantics and undo on failure",
    "push, peek, pop, drop, peek_all, pop_all and peek slices act on the stack of matched texts as documented (which texts are compared, in which order, what is removed, when they fail), and report the text they matched. Whenever an alternative, option, iteration or predicate fails or does not consume, the stack is exactly as it was before it; a caller can always restore its own snapshot afterwards.",
    ["programs", "inputs", "histories"], "all grammars mixing stack operations with backtracking, all inputs, all initial stacks",
    "The tests run a few straight-line stack examples; restoration after a failure is only covered for two shapes.",
    [A, CHO, REP, TRA],
    [("stack nodes", A), ("snapshot, restore and clear_snapshot in choices, options, repetitions and predicates", CHO)],
    ["stack contents after every call, its restorability, accepted offset and matched spans against the model"],
    run=[("stack", "ACC,STACK,WALK,AGREE", 320)], nt="stack_reads,stack_restores_nontrivial", need={"ev:stack_restores_nontrivial": 1000, "ev:stack_reads": 500}, special=["long_results"],
)
prop(
    "C07", "Predicates look ahead without consuming or changing anything",
    "A positive predicate succeeds exactly when its expression matches at the current offset, a negative one exactly when it does not; in every case neither the offset nor the stack changes, and later matching is as if the predicate had only been tested. A positive predicate exposes the looked-ahead node in the tree, but no predicate yields token pairs.",
    ["programs", "inputs"], "all expressions under (nested) predicates in all contexts, all inputs and stacks",
    "Tests use predicates over single literals in two rules.",
    [A, TRA, GEN],
    [("Positive and Negative", A)],
    ["accepted offset, stack, tree and pairs against the model"],
    run=[("pred", "ACC,STACK,PAIRS,WALK,AGREE", 260), ("all", "ACC,STACK,PAIRS,WALK", 60)], nt="pred_ok,pred_fail", need={"ev:pred_ok": 1000, "ev:pred_fail": 1000},
)
prop(
    "C08", "Repetitions match greedily within their bounds",
    "`*`, `+`, `{n}`, `{n..m}`, `{n..}`, `{..m}` and their trivia-separated forms match as many iterations as possible but never more than the upper bound, and succeed exactly when at least the lower bound was reached; on failure nothing is consumed. The matched nodes are exactly the iterations, in order.",
    ["programs", "inputs"], "all repeated expressions, all bounds, all inputs",
    "Tests fix two or three bounds and never vary iteration counts around them.",
    [REP, GEN, MP],
    [("RepMinMax", REP), ("RepRange code generation", GEN), ("bounds in the grammar parser", MP)],
    ["accepted offset, node lists and recorded attempts against the model, on inputs around every bound"],
    run=[("rep", "ACC,WALK,AGREE,STACK", 280)], nt="rep_stop_max,rep_under_min,rep_stop_fail", need={"ev:rep_stop_max": 500, "ev:rep_under_min": 500}, special=["long_results"],
)
prop(
    "C10", "Errors report the furthest failure and what was tried there",
    "When a parse fails, the error is located at the furthest offset at which an attempt failed, with the right line and column, and lists exactly the rules expected there, the rules unexpectedly found there (under negative predicates) and the special problems (empty stack, slice out of bounds), each under the rule that tried them. The report depends only on the rule and the input, and is the same from parsing and checking.",
    ["programs", "inputs"], "all grammars, rules, failing inputs, including failures inside predicates, repetitions, imported modules and after the end",
    "The tests check a few messages; the interplay of nesting, negation and equal offsets is unbounded.",
    [TRK, TRA, REP, A],
    [("Tracker", TRK), ("record_* calls in rules and nodes", TRA)],
    ["Tracker::finish of four entry points, and position, line/column and message of the errors returned; every call of random histories of the tracker itself, and its error in full"],
    run=[("fail", "FAIL,AGREE", 220), ("stack", "FAIL", 60), ("all", "FAIL", 80), ("modules", "FAIL", 20)], nt="rejected", need={"error_reports_checked": 5000, "tracker_histories": 100000, "deep_errors": 150},
    special=["node_tracker", "long_errors"],
)
prop(
    "C11", "Results depend only on the rule and the text",
    "Parsing is a pure function: repeating a call, with any other parses in between, on any number of threads at once, in another process, and with the text at another address, gives the same acceptance, tree, pairs, getters and error. Nodes of equal matches of the same text are equal.",
    ["histories", "schedules", "inputs"], "all histories of calls and all interleavings of threads",
    "Every test makes one call in one thread.",
    [TRA, TRK, A, GEN],
    [("per-call stack and tracker", TRA)],
    ["a log of calls recorded once in order and replayed shuffled from eight threads, backwards in another process, and again and again on one thread"],
    run=[("all", "CONC", 70), ("stack", "CONC", 50), ("pred", "CONC", 30), ("core", "CONC", 40)], nt="rule_calls", evaluations=["sessions", "concurrent_calls"], need={"concurrent_calls": 20000, "marathon_calls": 1000000, "thread_switches_seen": 1000, "calls_in_a_fresh_process": 5000}, inputs=16,
)
prop(
    "C12", "Parsing is safe: no panic, hang, overflow, leak or undefined behaviour",
    "For every rule of every grammar and every text, offset and stack, every entry point returns; it does not panic, overflow, exhaust the stack however long the text (the grammar's recursion aside) or read outside the text, and nothing it does is undefined behaviour or a data race. Time and memory grow linearly with the text where the grammar does not backtrack over it. What a call allocated is freed with its results; a tree or error outlives nothing it borrows, can be cloned (giving an equal one), compared, shown and dropped, and used from other threads.",
    ["programs", "inputs", "schedules"], "all rules, texts of any length, offsets, stacks and entry points",
    "The tests run without sanitizers on texts of a few dozen characters.",
    [A, REP, TRA, POS, SPA, TRK, "core/src/typed/mod.rs"],
    [("unsafe constructors of positions and spans", POS), ("repetitions", REP), ("try_unit, restore_on_none", TRA)],
    ["AddressSanitizer and debug assertions, Miri, a counting allocator, thread stacks of 512 KiB, clocks, panics and a watchdog around every call"],
    special=["sanitized", "interpreted", "threads", "long_texts"], technique="sanitizers: AddressSanitizer, Miri, a counting allocator and resource monitors over generated sessions", level_note="Exploration: sanitizers see only the executions the workload drives (red zones miss some overflows inside one object); Miri interprets a few dozen of the calls. Linear growth is judged by the ratio of CPU time and peak memory for texts of 400 and 25,600 items, against a bound 16 times the linear one.",
    evaluations=["sessions", "long_calls", "interpreted_calls"], need={"sessions": 20_000, "allocations_balanced": 20_000, "clones_checked": 10_000, "long_calls": 500},
    rule="Sessions of generated grammars (profile safe: all constructs, modules) under AddressSanitizer with overflow checks, each twice; calls of them replayed under Miri from one and three threads; 25 rules on texts of 400 and 25,600 items in threads with 512 KiB of stack. Non-trivial: distinct sessions that accept or backtrack.",
)
prop(
    "C13", "Getters return exactly the referenced nodes",
    "For every rule, the generated getter of a referenced rule returns exactly the nodes of that reference in the tree, in source order: a reference, an option when it lies under an option or alternative, a list when it lies under a repetition, and a tuple when it is referenced several times. There is no getter for what only occurs under negative predicates, and getters do not reach into other rules.",
    ["programs", "inputs"], "all rules with any nesting and number of references, all accepted inputs",
    "The tests call a handful of getters.",
    [GET, GEN, CHO, SEQ, REP],
    [("GetterByName", GET)],
    ["the value of every generated getter, compared with the nodes the model says it must return"],
    run=[("getters", "GETTERS", 240), ("all", "GETTERS", 80), ("meta", "GETTERS", 40)], nt="nodes2", need={"checked:GETTERS": 5000, "getter:vec": 300, "getter:option": 300, "getter:tuple": 300},
)
prop(
    "C14", "Meta rules mean their body with the arguments substituted",
    "A call of a rule with parameters matches exactly what the rule's body matches with each parameter replaced by the corresponding argument, for every argument expression including calls of other meta rules, for parameters used several times (or, in silent rules, not at all), and whatever the names of rules and parameters are (parameters with the names of other parameters elsewhere included). Calls of silent meta rules leave no node of their own; calls of others appear in the tree and pairs as that rule.",
    ["programs", "inputs"], "all meta rules, arguments and nestings of calls, all inputs",
    "The tests have a few meta rules with at most two parameters and fixed calls.",
    [GEN, MOD, MP],
    [("generic rule structs", GEN), ("inlining of silent rules with arguments", GEN), ("ParseExpr::replace", MP)],
    ["accepted offset, tree, pairs, getters and failure reports against the model"],
    run=[("meta", "ACC,WALK,PAIRS,GETTERS,FAIL,AGREE", 200), ("modules", "ACC,WALK,PAIRS", 40)], nt="meta_calls", need={"ev:meta_calls": 5000},
    assume=["parameter names differ from the names of the rules of the same module", "an inlined body of a silent meta rule of an imported module contains no `~` or `^` (it would use the trivia of the module that calls it)"],
)
prop(
    "C15", "Rules of imported modules work as if defined in their module",
    "A reference to a rule of an imported grammar file, by file name or alias, over any number of levels and with `super`, matches exactly what that rule matches in its own module, with that module's trivia and imports; aliases of built-in rules and modules mean the built-in. Modules imported more than once behave the same each time.",
    ["programs", "configurations", "inputs"], "all import graphs without cycles, all inputs",
    "The tests have two import layouts, used with few inputs.",
    [MOD, GEN, OUT, COM, MP],
    [("ModuleSystem", MOD), ("imports in the grammar parser", MP), ("nested modules in the output", OUT)],
    ["accepted offset, tree, pairs and failure reports of rules at every import depth against the model"],
    run=[("modules", "ACC,WALK,PAIRS,FAIL,GETTERS,AGREE", 150)], nt="inner_mod_calls", need={"ev:inner_mod_calls": 5000},
    assume=["an inlined body of a silent meta rule of an imported module contains no `~` or `^`"],
)

META_TECH = "runtime monitoring: differential oracle (independent reference parser of the grammar language) over every observed result of pest3_meta::parser::parse"
TOOL_LEVEL = "Exploration: the real code is built from /repo (with overflow and debug assertions) and executed on generated and enumerated inputs (deterministic in VERIF_SEED) while a monitor compares every result with an independent model; panics and calls that do not return are violations. What no generated input reaches is not decided. Trusted: the model in harness/model and harness/tools, and rustc."
prop(
    "C16", "Grammar text parses to the tree its notation denotes",
    "For every text of the grammar language, parsing it yields the rules in source order with their names, parameters, silent marks and expressions, where the expression tree is the one the notation denotes: postfix before prefix operators, prefix before infix ones, the three sequence operators of equal precedence before choice, parentheses grouping, calls with all arguments, slices and bounds with their numbers, paths with all segments. White space and comments between tokens never change the result, and tree equality ignores positions.",
    ["inputs"], "all texts of the grammar language: all nestings of operators, calls, paths, literals, bounds, with any layout",
    "The tests parse about forty fixed grammars; combinations of operators and layouts are unbounded.",
    [MP, MG],
    [("parse, parse_rule, parse_node, parse_path", MP), ("grammar of grammars", MG)],
    ["the GrammarModule returned by pest3_meta::parser::parse, dumped completely, against the tree the text was rendered from and the tree of an independent reference parser"],
    special=["meta_tree"], nt="", technique=META_TECH, level_note=TOOL_LEVEL,
    evaluations=["rules_compared"], need={"grammars_parsed": 20000, "op:seq~": 1000, "op:choice": 1000},
    rule="Random syntax trees (depth up to 6) rendered with random layout and parsed back; non-trivial: distinct rendered expressions with at least one operator.",
)
prop(
    "C17", "Literals denote the text they spell",
    "String, case-insensitive, raw string and character literals denote exactly the text their notation spells: every documented escape (\\n, \\r, \\t, \\\\, \\0, quotes, \\xHH, \\u{...}) stands for its character, raw strings are verbatim between delimiters with any number of `#`, all other characters stand for themselves, including multi-byte ones. Range literals denote their two bounds. Literals that denote no character (surrogates, code points beyond the last, unknown or malformed escapes) are rejected with an error.",
    ["inputs"], "all literals of the grammar language",
    "The tests use plain ASCII literals and a few escapes.",
    [MP, MG],
    [("string_content, unescape", MP), ("string, raw_string, character, escape", MG)],
    ["Str, Insens and Range of the returned tree against the text the literal was rendered from; acceptance of malformed literals"],
    run=[("lits", "ACC,WALK,AGREE", 60)], nt="accepted", special=["meta_lit"], technique=META_TECH, level_note=TOOL_LEVEL,
    evaluations=["literals_decoded", "bad_literals"], need={"literals_decoded": 20000, "bad_literals": 500},
    rule="Every character as a literal in every spelling (sharded), plus random texts spelt at random, plus malformed literals; non-trivial: distinct random literal spellings.",
)
prop(
    "C18", "Reading a grammar never panics or hangs and reports every mistake",
    "For every text whatsoever, reading it as a grammar returns: a module when the text belongs to the grammar language and makes sense, otherwise an error whose location lies inside the text, is where the text stops being a grammar (or at the construct that makes no sense), and whose message can be displayed; what it says is expected there could stand there. It never panics, and the time it takes is proportionate to the text, also for deep nesting. Exactly the texts of the grammar language are accepted.",
    ["inputs"], "all texts, including arbitrary bytes of UTF-8, truncated, spliced and mutated grammars",
    "The tests have some fifteen malformed grammars.",
    [MP, MG, ME],
    [("parse and its unwraps", MP), ("grammar of grammars", MG), ("error rendering", ME)],
    ["result or error (kind, position, rendering) of pest3_meta::parser::parse, panics, and calls that do not return in 20 s"],
    special=["meta_total", "meta_growth"], technique=META_TECH + "; hang and panic monitor", level_note=TOOL_LEVEL,
    evaluations=["texts"], need={"texts": 50000, "accepted": 5000, "rejected_syntax": 5000, "rejected_mistake": 500, "expected_tokens": 100000, "flat_texts": 100, "huge_texts": 9, "small_threads": 8},
    rule="Generated grammars mutated by deleting, inserting, replacing, duplicating and splicing tokens and bytes, truncations, random token and character soup, deep nestings; non-trivial: distinct mutated texts.",
    assume=["nesting is at most 60 deep (beyond that only that the process lives): deeper texts overflow the stack of the recursive-descent parser generated by pest 2"],
)
prop(
    "C19", "Spans and doc comments belong to what they annotate",
    "Every rule, expression node and import of a parsed grammar carries the byte span of exactly its own source text (for nodes: from the first to the last token of the expression; blanks and comments that directly follow may be included), and every `///` doc comment is attached, line by line and unchanged, to the rule that follows it, every `//!` line to the grammar. Plain comments are attached to nothing.",
    ["inputs"], "all texts of the grammar language with any layout, comments and multi-byte characters",
    "The tests check spans of none and docs of one grammar.",
    [MP, MG, MD],
    [("Span in parse_node", MP), ("doc comments", MD)],
    ["span of every node and rule and all docs in the returned tree against the reference parser"],
    special=["meta_span"], technique=META_TECH, level_note=TOOL_LEVEL,
    evaluations=["grammars_parsed"], need={"grammars_parsed": 10000, "spans_checked": 100000, "with_docs": 1000},
    rule="Generated grammars with random layout, comments and docs; non-trivial: distinct texts.",
)
prop(
    "C27", "Imports load the named files, once, and broken ones are reported",
    "Reading a grammar loads every file it imports, with the module path taken relative to the importing file and given the extension of grammars, or at the path it names explicitly, into a module under its path or alias, at any depth; the same file imported along several ways is the same module and is complete in each. A missing or broken imported file and a cycle of imports give an error that names the file at fault (with its text for mistakes in it); nothing panics or recurses endlessly.",
    ["configurations", "inputs"], "all graphs of grammar files in nested directories, with missing, broken and cyclic imports",
    "The tests import two files from one directory.",
    [MP, "meta/src/lib.rs"],
    [("_parse and its cache", MP)],
    ["the module tree returned for each generated directory tree, or the error"],
    special=["meta_import"], technique=META_TECH, level_note=TOOL_LEVEL,
    evaluations=["graphs"], need={"graphs": 1000, "imports_resolved": 2000, "fault:cycle": 20, "fault:missing": 20, "fault:broken": 20},
    rule="Random import graphs written to a scratch directory; non-trivial: distinct graphs with at least two files.",
)

CORE_TECH = "runtime monitoring: every observed result compared online with a definition on the text, over enumerated and random inputs"
CORE_LEVEL = "Exploration: the real code is built from /repo (with overflow and debug assertions) and executed on enumerated and random inputs (deterministic in VERIF_SEED) while a monitor compares every result with a definition written independently; panics and calls that do not return are violations. What no input reaches is not decided. Trusted: the definitions in harness/tools, rustc, and the character functions of std and pest 2."
prop(
    "C09", "Character and string built-ins match exactly what they name",
    "Every built-in rule matches exactly the characters it is documented to, for every character at every place of a text: `any` one character, the `ascii_*` rules their ASCII classes, each `pest::unicode::<name>` the characters with that property (as pest 2 defines it), ranges their inclusive bounds, `newline` one `\\n`, `\\r\\n` or `\\r` (the longest), `soi` and `eoi` only the ends of the text; string literals match exactly their text and case-insensitive ones any ASCII-case variant of it. Matches consume whole characters, the matched node carries the character or text, a failing match consumes nothing, and parsing agrees with checking. This holds for the node types used directly, and for their names (also aliased) in a grammar.",
    ["inputs"], "all 1,112,064 characters, all built-in names and spellings, all literals and texts",
    "Tests try a few characters on three built-ins; over 270 named sets of a million characters are not sampled at all.",
    [A, "core/src/typed/unicode.rs", POS, MOD],
    [("character nodes and ASCII aliases", A), ("unicode wrappers", "core/src/typed/unicode.rs"), ("match_string, match_insensitive, match_range, match_char_by, skip", POS), ("names of built-ins", MOD)],
    ["end and node of parsing, end of checking, for every character and every built-in"],
    run=[("builtin", "ACC,WALK,AGREE", 100)], special=["core_chars", "names", "node_strings"], nt="rule_calls", technique=CORE_TECH + "; differential oracle over generated parsers", level_note=CORE_LEVEL,
    evaluations=["matches_observed", "sessions"], need={"matches_observed": 10_000_000, "names_that_matched": 1500, "substitutions": 20000},
    rule="Every character against every built-in used directly; every set boundary and a sample of the other characters against every name in a grammar; random texts against literal nodes; generated grammars rich in character rules. Non-trivial: characters that a named set contains, and distinct matches of literals with content.",
)
prop(
    "C22", "Positions stay on character boundaries and locate themselves correctly",
    "A position exists exactly for the offsets of a text that are character boundaries (its end included; any other offset gives none, without a panic). It reports its offset; its line number is one more than the line feeds before it, its column one more than the characters since the last of them; its line is the text from after that line feed to and including the next one. Positions of one text are ordered and equal as their offsets are, positions of different texts are never equal, equal ones hash alike; the span between two ordered positions covers exactly the text between them, and one between positions of different texts is refused. The position converts to that of pest 2 unchanged.",
    ["inputs"], "all texts (multi-byte, any mixture of line ends) and all offsets, in and out of range",
    "The tests look at offsets of three short texts.",
    [POS],
    [("new, line_col, line_of, find_line_start, find_line_end, span, comparison", POS)],
    ["every public function of Position at every offset of every text"],
    special=["core_position"], technique=CORE_TECH, level_note=CORE_LEVEL,
    evaluations=["positions", "spans_made"], need={"positions": 500_000, "spans_made": 500_000},
    rule="All texts up to 7 characters over {a, line feed, carriage return, é, 中} and random longer ones over 23 characters of all widths, every offset and pair of offsets; non-trivial: distinct multi-byte texts with several lines.",
    assume=["`Position::span` is called with the earlier position first"],
)
prop(
    "C23", "Spans slice, iterate and combine as their text does",
    "A span exists exactly for ordered pairs of character boundaries. Its ends, positions, text and input are those it was made of (the very memory of the text); `get` with any range gives the sub-span that slicing its text would, or none where slicing would panic, for every range however large; `lines` and `lines_span` yield, whole and in order, the lines of the text from the one holding its start up to its end; merging two spans gives their union when they touch or overlap, and nothing otherwise; spans are equal exactly when they have the same ends in the same text, and then hash alike.",
    ["inputs"], "all texts, all spans of them, all ranges and pairs of spans",
    "The tests have one or two examples per function.",
    [SPA, POS],
    [("new, get, lines, lines_span, merge_spans, comparison", SPA)],
    ["every public function of Span for every span of every text"],
    special=["core_span"], technique=CORE_TECH, level_note=CORE_LEVEL,
    evaluations=["spans", "subspans", "merges"], need={"spans": 500_000, "subspans": 1_000_000, "multi_line": 100_000, "merges": 500_000},
    rule="All texts up to 6 characters over {a, line feed, carriage return, é, 中} and random longer ones; every span, random ranges (all eight forms, also at usize::MAX) and other spans; non-trivial: distinct multi-byte texts with several lines.",
)
prop(
    "C24", "Displayed positions and spans show the right text at the right place",
    "Displaying a position or span (with `Display` or own formatters) never panics and shows its lines of text with their line numbers, right-aligned, between a marker line before and after. Control characters show as their pictures. The marker is under the displayed column of the position (counting the width of the characters before it), or under exactly the characters of a one-line span; for a span of several lines `v` is above its first character and `^` under its last, its first and last lines are shown, all lines between them up to three, otherwise the first and last of those around `...`. Exactly the text of the span goes to the span formatter, markers to the marker formatter, numbers and bars to the number formatter. When the writer or a formatter fails, displaying ends with that failure and nothing more is shown.",
    ["inputs"], "all texts (wide, zero-width and control characters, any line ends), all positions and spans",
    "The tests compare the output for two texts.",
    [FMT, SPA, POS],
    [("FormatOption::display_span, display_position", FMT)],
    ["the displayed text and which formatter each part went through, compared with a renderer written from the description"],
    special=["core_format"], technique=CORE_TECH, level_note=CORE_LEVEL,
    evaluations=["spans_shown", "positions_shown"], need={"spans_shown": 500_000, "multi_line": 100_000, "elided": 5_000, "formatter_faults": 20_000, "writer_faults": 80_000},
    rule="All texts up to 6 characters over {a, line feed, carriage return, §, 中}, random longer ones over 29 characters of all widths, and texts of 8 to 102 lines; non-trivial: distinct texts of several lines.",
)
prop(
    "C26", "Nodes of the core crate keep their contracts however they are composed",
    "Node types composed directly, without a generated parser (any arity, trivia types, nesting, also shapes the generator never emits), match what they are defined to match, leave the stack they are defined to leave, record the same attempts parsing and checking, and hold and yield as pairs exactly what was matched; a clone equals, hashes and shows alike; nodes of one text are equal exactly when they hold the same. `restore_on_none` undoes the stack of a failure only. A node that declares it never fails parses as its partial parse does, with and without a stack, and its default is an empty match. Pairs display and convert faithfully.",
    ["programs", "inputs"], "all compositions of the node types of pest3_core, all texts, offsets and initial stacks",
    "The tests of the core crate compose about a dozen types.",
    [A, REP, SEQ, CHO, TRA, TOK, "core/src/typed/wrapper.rs"],
    [("nodes", A), ("never-failing nodes", TRA), ("pairs", TOK)],
    ["fourteen entry points of 480 composed types, and their nodes' contents, pairs, equality, hash and clones"],
    special=["node_nodes", "node_pairs"], technique=CORE_TECH, level_note=CORE_LEVEL,
    evaluations=["sessions", "pairs_made"], need={"sessions": 300_000, "matched": 100_000, "ev:stack_undone": 5_000, "never_failed": 20_000, "compared": 20_000},
    rule="480 composed types (random compositions up to depth 3 with every node type; generated once and committed) on all texts up to 3 characters over {a, b, A, é, CR, LF, space}, a quarter of them on longer texts, from random offsets and stacks; non-trivial: distinct matches with content.",
)


prop(
    "C20", "Mistakes in a grammar are rejected when its parser is generated",
    "Generating a parser is refused, with a message that names what is wrong, whenever the grammar (in the root or an imported module) uses an undefined rule, path or import; gives arguments to a rule without parameters or to a parameter, none or the wrong number to a rule with parameters; slices anything but `peek`; uses a module as a rule; uses trivia that is not defined; defines a rule, trivia, import or a parameter of a rule twice; or has silent rules with parameters that expand without end. (Silent rules with parameters are expanded: what they contain counts where they are called, and an argument where its parameter is used.) Sources that cannot be read and misused attributes of the derive are refused likewise; every valid grammar is accepted. Nothing runs away or crashes otherwise.",
    ["programs"], "all grammars with one mistake anywhere, all attributes",
    "The tests generate valid grammars only.",
    [GEN, MOD, COM],
    [("ModuleSystem::resolve, check_argc, insert_rule", MOD), ("process_expr, check of silent rules", GEN), ("attributes", COM)],
    ["acceptance and message of pest3_generator::typed::derive_typed_parser"],
    special=["gen_reject", "gen_output"], technique=META_TECH, level_note=TOOL_LEVEL,
    evaluations=["mistakes", "attribute_cases", "grammars"], need={"mistakes": 20_000, "attribute_cases": 40, "grammars": 1000, "mistake:two imports of the same name": 500, "mistake:undefined rule of a module": 300, "mistake:arguments for a parameter": 300, "mistake:slice of a parameter": 300, "mistake:two parameters of the same name": 300},
    rule="Valid generated grammars of eight profiles with one of 23 kinds of mistake made at a random place; non-trivial: distinct grammars.",
)
prop(
    "C21", "What is generated depends only on the grammar and declares all of it",
    "The generated code is a function of the grammar: it is the same in every run, thread and process and after failures, for any layout of the grammar's text, for a grammar given in files, inline or split over several attributes. It declares exactly the grammar's rules, imported modules and doc comments, includes exactly the files the grammar was read from (so that changes of any are noticed), and compiles. A grammar file is the one at its path in the package's directory, or, if there is none, in its `src`. Generating ends in seconds for some hundred rules, however they refer to each other.",
    ["programs", "configurations", "schedules"], "all valid grammars and ways to give them, all orders of generation",
    "The tests compare three outputs made once each.",
    [GEN, OUT, COM, GET],
    [("Output::collect", OUT), ("derive_typed_parser", GEN), ("collect_data", COM)],
    ["tokens of pest3_generator::typed::derive_typed_parser across repetitions, threads, processes, layouts and sources; the items declared in them"],
    special=["gen_output", "gen_growth"], run=[("opts", "ACC", 60)], nt="accepted", technique="runtime monitoring: differential oracle over repeated generations and an offline checker of the generated items", level_note=TOOL_LEVEL,
    evaluations=["layouts", "splits", "compared_between_processes", "generated_on_threads", "modules_compared"], need={"compared_between_processes": 3000, "layouts": 1000, "splits": 1000, "docs_compared": 2000, "includes_compared": 2000, "large_generated": 15},
)
prop(
    "C25", "Options of the derive change only what they name",
    "Without pairs, spans or getters, with other names for the module of rules, with boxes only where needed, with generic parser types, or with the grammar split over several sources, in any combination and form, the generated parser compiles, accepts the same texts with the same trees, reports the same errors and, unless they are switched off, gives the same pairs and getters; what is switched off is absent.",
    ["programs", "configurations", "inputs"], "all combinations of options for all grammars and inputs",
    "The tests use two combinations with fixed inputs.",
    [COM, GEN, GET, "derive/src/lib.rs"],
    [("Config", COM), ("create_rule, pair_api", GEN), ("getters", GET)],
    ["all entry points, trees, pairs, getters and errors of parsers generated with random options, against the model of the grammar alone"],
    run=[("opts", "ACC,AGREE,WALK,PAIRS,GETTERS,FAIL,STACK", 200)], nt="accepted", need={"without_pairs": 1000, "pairs_seen": 2000},
)


def load():
    return {p["id"]: p for p in P}


LEVEL_NOTE = "Exploration: the real code is built from /repo and executed on generated workloads (deterministic in VERIF_SEED) while monitors compare every observation with an independent reference model; a violation needs an input that shows it, so what no generated workload reaches is not decided. Trusted: the reference model in harness/model and rustc."


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 harness/setup.py",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./run {p['id']}",
                "thorough_cmd": f"./run {p['id']} --thorough",
                "technique": p["check"].get("technique", "runtime monitoring: differential oracle over recorded parse sessions of generated grammars"),
                "level": p["check"].get("level", "exploration"),
                "level_note": p["check"].get("level_note", LEVEL_NOTE),
            }
            for p in sorted(P, key=lambda p: p["id"]) if not p["check"].get("na")
        ],
        "not_applicable": [{"property": p["id"], "reason": p["check"]["na"]} for p in P if p["check"].get("na")],
        "notes": "No hooks are needed in /repo: the monitors observe public API only. See DESIGN.md.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
