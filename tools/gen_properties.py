#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the wording of every property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Source ranges stay ordered and grow to the smallest covering range",
  "A source range never ends before it starts: building one from any two positions keeps the first and lifts the last to it if needed, positions being ordered by line, then column. "
  "After any sequence of expansions, a location's range is the smallest range that covers its initial range and every included position, and its file name is untouched; an empty file name counts as no file name. "
  "Comparing locations or ranges agrees with comparing (first, last) lexicographically, and equality of locations also compares file names.",
  ["histories", "inputs"], "every construction from a grid of positions (including 0 and the largest 32-bit value), every sequence of expansions up to a depth, every pair for comparison",
  "Unit tests construct four fixed ranges and never expand twice; ordering must hold for every position and every expansion history.",
  ["src/annotations.cpp", "include/libqasm/annotations.hpp"], "Range constructor clamps last; expand_to_include takes min/max; defaulted comparisons")

p("C02", "A source location is always printed in the documented compact form",
  "A location prints as the file name (or '<unknown file name>'), and nothing else when its first line is 0; otherwise ':<line>' follows, and when the first column is 0 only '..<last line>' may follow, if the last line is greater. "
  "Otherwise ':<column>' follows, then '..<last column>' if the range is on one line and its last column is greater, or '..<last line>:<last column>' if it spans several lines. "
  "Streaming and formatting a location give the same text, and printing does not alter the location.",
  ["inputs", "histories"], "every range over a grid of line/column values, with every kind of file name, also after expansions",
  "No existing test prints a location at all; the golden files show only a few single-line ranges.",
  ["src/annotations.cpp", "include/libqasm/annotations_constants.hpp"], "operator<< for SourceLocation")

p("C03", "Case folding and case-insensitive comparison agree on all strings",
  "Lowercasing maps each ASCII uppercase letter to its lowercase letter and leaves every other byte and the length unchanged, whatever bytes the string holds (NUL and bytes above 127 included). "
  "Two strings compare equal ignoring case exactly when their lowercase forms are equal, so the comparison is reflexive, symmetric and transitive.",
  ["inputs"], "every byte, every string up to a length over an alphabet of representative bytes, every pair of them",
  "The tests try a dozen ASCII words; agreement must hold for every pair of byte strings.",
  ["src/utils.cpp"], "to_lowercase and equal_case_insensitive")

p("C04", "URL encoding is reversible and leaves only unreserved characters",
  "URL-encoding any byte string keeps letters, digits, '-', '_', '.' and '~' as they are and turns every other byte into '%' and its two uppercase hexadecimal digits, byte by byte and in order. "
  "The result therefore holds only unreserved characters and such escapes, and percent-decoding it gives back the original bytes.",
  ["inputs"], "all 256 bytes, all pairs of bytes, all strings up to a length over a representative alphabet",
  "The tests encode seven strings; the guarantee is about every byte and every position.",
  ["src/utils.cpp"], "url_encode")

p("C05", "JSON string encoding is valid JSON that decodes to the original text",
  "Encoding any text for JSON yields the body of a valid JSON string: it never contains a bare double quote, a stray backslash or a control character below 32. "
  "Decoding that JSON string gives back exactly the original text, including backslashes, quotes, control characters, NUL, and any UTF-8 (non-ASCII) text.",
  ["inputs"], "all 256 bytes, all byte pairs, all strings up to a length over a representative alphabet with multi-byte UTF-8 letters",
  "The tests encode a handful of ASCII strings; none holds a byte above 127, where sign extension matters.",
  ["src/utils.cpp", "src/error.cpp"], "json_encode, used for every error message sent to LSP clients")

p("C06", "An error reports its message and location the same way in text and in JSON",
  "An error's text is 'Error: <message>', or 'Error at <location>: <message>' when it has a location, where an empty message reads '<unknown error message>'. "
  "A location is taken from a node only if the error has none yet and the node has one, is copied at that moment, and never changes afterwards. "
  "Its JSON form is valid JSON: a range (zeros without a location), the exact message, severity 1, and exactly one related-information entry with a 'file:///<url-encoded name>' URI if and only if a file name is known.",
  ["histories", "inputs"], "every constructor, message and location combination over small domains followed by every sequence of attach-context, copy, move and print operations up to a depth",
  "The existing error tests fix one message and one location each and never exercise histories (attach twice, copy, print, attach).",
  ["src/error.cpp", "include/libqasm/error.hpp"], "Error constructors, context, what, to_json")

p("C07", "Versions parse, print and compare consistently as a total order",
  "A dotted sequence of non-negative decimal numbers parses to those components and prints back in canonical form, so printing then parsing gives an equal version; a component that is negative or not a number is rejected with an error. "
  "Comparison is numeric component by component, a missing component counting as 0: it is a total order in which equal, less and greater are mutually exclusive and consistent, and '3' equals '3.0'.",
  ["inputs"], "every string up to a length over digits, dot, minus and a letter; every pair and triple of versions over a small component domain",
  "No test compares or parses versions beyond '3.0'; order laws quantify over all pairs and triples.",
  ["src/version.cpp", "include/libqasm/version.hpp"], "Version constructor, compare, operator<<")

p("C08", "Overload resolution picks the last applicable registration",
  "Resolving a callable by name and arguments picks, among the overloads registered under exactly that (case-sensitive) name with the same number of parameters, the most recently registered one to which every argument can be promoted, and hands over the arguments promoted to its parameter types in order. "
  "If no overload has that name the failure says so by name, and if none applies the failure reports the name and argument types; earlier resolutions and registrations under other names never affect the outcome.",
  ["histories", "inputs"], "every sequence of registrations (names x signatures) and resolutions up to a depth",
  "Existing tests register each overload once; the guarantee is over registration orders and histories.",
  ["include/libqasm/overload.hpp", "include/libqasm/v3x/resolver.hpp", "src/v3x/resolver.cpp"], "OverloadResolver::resolve iterates overloads in reverse; table keyed by name")

p("C09", "Values are promoted only along bool to int to float, and values are preserved",
  "A value can be given a parameter type exactly when the types are equal, or a constant widens from bool to int, bool to float, or int to float; nothing else converts, and array types, bits and qubits never convert. "
  "A successful promotion has the requested type, denotes the same number (true is 1), and keeps the source location of the original value, which is itself unchanged. "
  "Asking whether a type can be promoted agrees with actually promoting a constant of that type. (Values are those of the language: constants, and references to qubit and bit variables, arrays of them, and elements of these.)",
  ["inputs"], "every pair of value kind (constants with boundary values, references to each variable type, index references of size 1 and more) and target type",
  "test_values checks a few pairs; the relation and its agreement with the check are over the whole product.",
  ["src/v3x/values.cpp", "src/v3x/types.cpp"], "promote, check_promote, type_of, type_check, size_of")

p("C10", "The instruction set accepts exactly the documented names, parameters, operands",
  "A gate or instruction is accepted exactly when its name is one of the documented ones (case-sensitive), it has the documented number of parameters, each of which can widen to the documented type, and its operands are qubits or qubit arrays of equal size in the documented number (bit targets of matching size for measure). "
  "inv and pow(n) keep the number of qubits of a single-qubit gate, ctrl adds one control qubit, and a modifier on a gate that already acts on two qubits is rejected. "
  "Every name falls into exactly one category (single-qubit gate, two-qubit gate, modifier, non-gate) and the category queries agree with each other and with what is accepted.",
  ["inputs", "programs"], "every instruction name and near-miss, every parameter list and operand list up to the documented arity plus one over all operand kinds, every modifier chain up to a depth",
  "The tests touch a few gates; the table has 60 gate and 16 non-gate entries and every parameter/operand combination must be decided correctly.",
  ["src/v3x/instruction_set.cpp", "src/v3x/register_instructions.cpp", "src/v3x/semantic_analyzer.cpp"], "named_gate_map/non_gate_map/gate_modifier_map, resolve_parameters, check_gate, operand size checks")

p("C11", "Constant expressions evaluate to the exact type and value, and never crash",
  "Every constant expression (literals, the constants pi, eu, tau, true and false, all operators and built-in functions) evaluates at compile time to the documented type and value: operators use the boolean, then integer, then float form, the first to which all operands widen, with 64-bit integer and IEEE double arithmetic, truncating integer division and remainder. "
  "An expression with no applicable operator or function form, or an integer division or remainder by zero, is an error reported with its location; no expression makes the library crash or hang. (The value of a shift by a negative amount or by more than 63 is not fixed.)",
  ["programs", "inputs"], "every expression tree up to a depth over a literal pool with boundary values, all operators, functions and arities",
  "The tests evaluate a few functions at a few points; golden files hold about thirty expressions.",
  ["include/libqasm/v3x/register_consteval_core_functions.hpp", "src/v3x/register_consteval_core_functions.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp"], "register_consteval_core_functions, visit_*_expression, resolve_function")

p("C12", "Operators group by the documented precedence and associativity",
  "An expression's tree is the one fixed by the language: parentheses, then unary + - ~ ! (tighter than **), ** (right-associative), * / %, + -, shifts, relational, equality, &, ^, |, &&, ^^, ||, then ?: (right-associative), all other binary operators being left-associative. "
  "Unary plus and redundant parentheses leave no trace in the tree, and fully parenthesising an expression according to its tree and parsing it again gives the same tree.",
  ["programs", "inputs"], "every sequence of operators up to a length (unary, binary, ternary, parentheses, calls, indexing) around operands",
  "Golden files hold a handful of mixed-operator expressions; there are hundreds of ordered operator pairs and thousands of triples.",
  ["src/v3x/CqasmParser.g4", "src/v3x/syntactic_analyzer.cpp"], "expression rule alternatives and visitors")

p("C13", "Exactly the documented grammar is accepted, statement by statement",
  "A sequence of tokens is accepted exactly when it is a version statement followed by statements of the documented forms (declarations, gate instructions with modifiers, measure, reset, init, barrier, wait, assembly), each separated from the previous one by at least one newline or semicolon. "
  "The resulting tree holds precisely those statements, in order, with the names, sizes, parameters and operands as written; anything else is refused with one syntax error.",
  ["programs", "inputs"], "every token sequence up to a length over the token alphabet, in several statement contexts, plus every single-token edit of a set of valid programs",
  "Each integration test is one program; acceptance is a property of every token sequence.",
  ["src/v3x/CqasmParser.g4", "src/v3x/syntactic_analyzer.cpp"], "parser rules and visit* methods")

p("C14", "Text is split into tokens by longest match, and literals keep their value",
  "Source text is split by longest match, keywords winning over identifiers only on an exact (case-sensitive) match; blanks, line comments and block comments separate tokens and are dropped, a version number is read as such only right after 'version', and a character that starts no token is an error at its position. "
  "Integer and float literals in range denote exactly their decimal value, and a literal outside the 64-bit integer or double range is an error at the literal, never a wrapped or truncated value. (Float literals below the smallest normal double are not covered.)",
  ["inputs"], "every string up to a length over a representative character alphabet, in several contexts; literal spellings and boundary values",
  "Tests hold a few literals and comments; longest match matters for every adjacent pair of characters.",
  ["src/v3x/CqasmLexer.g4", "src/v3x/syntactic_analyzer.cpp"], "lexer rules; get_int_value, get_float_value, get_bool_value")

p("C15", "Every input gives exactly one tree or at least one error, and always the same",
  "Parsing any text terminates without crashing and yields either a complete tree and no errors, or no tree and at least one error; analysing it yields a complete tree and no errors, or at least one error. "
  "Every error carries a message, and a location that starts inside the text (or at its end), with the file name that was given, if any; text that is not valid UTF-8 is refused as a whole, without a location. "
  "Running the same text again, before or after any other texts, gives the identical outcome. (Expressions nested more than a few hundred levels deep are not covered.)",
  ["inputs", "histories"], "every string up to a length over a hostile alphabet, every truncation and single-character edit of a corpus of programs, every ordered pair of a set of texts",
  "Tests only feed texts with known answers, once each.",
  ["src/v3x/parse_helper.cpp", "src/v3x/antlr_scanner.cpp", "src/v3x/antlr_custom_error_listener.cpp", "src/v3x/analyzer.cpp", "src/v3x/semantic_analyzer.cpp"], "ParseHelper::parse, error listener, Analyzer::analyze")

p("C16", "Tree nodes carry the position of the source text they stand for",
  "Every located node of the syntax tree carries the 1-based line and column at which its defining token (name, keyword, operator or literal) starts, and the position just past the token's end, and the given file name; a declared type with a size extends to just past its closing bracket. "
  "A syntax error at a token covers exactly that token, if it lies on one line. "
  "Semantic nodes, values and error messages carry over the position of the syntax they come from, however lines, blanks, comments and semicolons are laid out.",
  ["programs", "inputs"], "a set of programs covering every node kind, under every placement of blanks, newlines, comments and semicolons from a layout alphabet",
  "Golden files fix one layout per construct, nearly always one statement per line at column 1.",
  ["src/v3x/syntactic_analyzer.cpp", "src/v3x/semantic_analyzer.cpp"], "setNodeAnnotation, expandNodeAnnotation, copy_annotation")

p("C17", "Layout and comments never change the meaning of a program",
  "Replacing blanks by other blanks or comments, adding blanks or comments between tokens, exchanging newlines and semicolons between statements, repeating separators, and adding leading or trailing separators leave the syntax tree and the semantic tree unchanged apart from positions. "
  "Newlines inside a block comment do not separate statements, and a line comment never swallows the newline that ends it. (Between 'version' and its number only blanks may stand.)",
  ["programs", "inputs"], "a set of programs times every assignment of layout alternatives to the gaps between tokens, up to a number of changed gaps",
  "A few comment tests exist; the guarantee is over every gap of every statement form.",
  ["src/v3x/CqasmLexer.g4", "src/v3x/CqasmParser.g4"], "skip rules, statementSeparator")

p("C18", "Analysis accepts exactly the valid programs and resolves them faithfully",
  "A program that parses is accepted exactly when its version is 3.0 and every statement is valid given the declarations before it: names are declared before use and once only, array sizes are positive, indices are in range, and operands and parameters fit the instruction. "
  "The resulting tree lists the declared variables and the instructions in program order, each with the operands, parameter values, modifiers and instruction that the source names, qubit of size 1 and arrays of their declared size.",
  ["programs"], "every program up to a number of statements over a statement pool of declarations and instructions, valid and invalid",
  "Each integration test is a single program; validity is about every order and combination of declarations and uses.",
  ["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/resolver.cpp", "include/libqasm/v3x/semantic_analyzer.hpp"], "visit_variable, visit_gate_instruction, visit_non_gate_instruction, scopes")

p("C19", "Each invalid statement yields exactly one error, in order, and harms no other",
  "When analysis fails, the errors are exactly one per invalid statement, in source order (plus one for a wrong version, first), each located in its own statement and naming that statement's problem. "
  "Removing an invalid instruction removes exactly its error, inserting an invalid instruction adds exactly one, and the errors of all other statements stay the same.",
  ["programs"], "every program up to a number of statements over a pool of valid and invalid statements, and every deletion/insertion of an invalid one",
  "Nearly all failing tests contain a single bad statement.",
  ["src/v3x/semantic_analyzer.cpp"], "per-statement try/catch pushing to result errors")

p("C20", "Indexing selects exactly the listed elements, in order, within bounds",
  "Indexing an array by a list of items and inclusive ranges selects exactly those element numbers, in the written order with ranges ascending, each within 0 and size-1; any other index, a range whose end is below its start, or indexing something that is not an array is an error. "
  "An index may be any constant expression that widens to an integer; any other index is an error, and no index outside the array, however large, makes the library crash or hang.",
  ["inputs", "programs"], "every index list up to a number of entries over item and range entries with values around the bounds and huge values, over array sizes",
  "Tests use a few indices; boundary behaviour is over all combinations of entries and sizes.",
  ["src/v3x/semantic_analyzer.cpp", "src/v3x/values.cpp"], "visit_index, visit_index_list, visit_index_range, check_out_of_range, type_of/size_of")

p("C21", "Analysing never changes the analyzer: results do not depend on history",
  "One analyzer may be used for any number of analyses: each result equals what a freshly set-up analyzer gives for that input, whatever valid or invalid inputs were analysed before, and results returned earlier stay unchanged. "
  "Copies of an analyzer are independent of each other for registrations of variables, functions and instructions.",
  ["histories"], "every sequence of analyses up to a length over a pool of valid, invalid and unparsable inputs, interleaved with registrations and copies",
  "Every existing test builds a new analyzer per analysis.",
  ["src/v3x/analyzer.cpp", "include/libqasm/v3x/analyzer.hpp", "src/v3x/semantic_analyzer.cpp"], "scope stack state, documented as not changed by analyze")

p("C22", "Scopes nest: inner names shadow outer ones until the scope is left",
  "After any sequence of opening and closing scopes and of registrations, a name resolves to its definition in the innermost open scope that defines it, a name defined twice in the same scope is an error that changes nothing, and closing a scope restores exactly the outer view. "
  "Statements and variables are added to the innermost scope only, in order; a block's location covers all its statements that have one.",
  ["histories"], "every sequence of open, close, register and add operations up to a depth over a small alphabet of names",
  "test_analyzer checks five fixed sequences.",
  ["src/v3x/analyzer.cpp", "include/libqasm/v3x/scope.hpp", "src/v3x/resolver.cpp"], "scope_stack_ as a list; resolve loops front to back")

p("C23", "Trees survive serialization unchanged",
  "Serializing a syntactic or semantic tree, or any primitive value in it (text with arbitrary bytes, booleans, 64-bit integers, doubles including infinities, complex numbers, versions, axes, instruction and function references), and deserializing the result gives an equal tree or value. "
  "This holds for every tree that parsing or analysis can produce, including empty lists, absent optional parts and references to variables.",
  ["inputs", "programs"], "boundary values of every primitive, every small reference signature, and the trees of every program of the enumerated pools",
  "Tests serialize but never read back.",
  ["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/semantic.tree", "src/v3x/syntactic.tree", "src/v3x/values.tree", "src/v3x/types.tree"], "serialize/deserialize specialisations used by the tree code")

p("C24", "Results report either a tree or errors, consistently in every form",
  "The list form of a result has one more entry than it has errors: the first is the serialized tree if there are no errors and empty otherwise, and the others are the error texts in order. "
  "The JSON form is the JSON form of the tree without errors, and otherwise a valid JSON object with the list of all the errors' JSON forms in order. "
  "Unwrapping a result returns the tree without errors, and otherwise writes every error text, one per line, to the given stream and throws the analysis-failed exception.",
  ["inputs", "histories"], "every result built from zero to several errors over message/location domains, with and without a tree",
  "test_result uses one tree and two errors.",
  ["include/libqasm/result.hpp", "src/v3x/parse_result.cpp", "src/v3x/analysis_result.cpp"], "to_strings, to_json, unwrap")

p("C25", "All entry points give the same answer for the same input",
  "Parsing or analysing the same text through the file, string, list-of-strings, JSON, free-function, object, Python-facing and web-facing entry points gives the same tree or the same errors, in the form that entry point documents. "
  "Parse errors reach the analysis result unchanged and in order, without a tree. "
  "The file name only appears in error texts and locations: an empty one is the same as none, and it never affects acceptance or the tree. A file that cannot be read is reported as a parse error, alike at every entry point that takes a file.",
  ["inputs", "configurations"], "a pool of valid, semantically invalid and unparsable texts, times every entry point, times file-name choices",
  "Each test uses one entry point; their agreement is never compared.",
  ["src/v3x/cqasm.cpp", "src/v3x/cqasm_python.cpp", "src/v3x/parse_helper.cpp", "src/v3x/analyzer.cpp", "emscripten/emscripten_wrapper.cpp"], "facade functions delegating to parse and analyze")

p("C26", "Python and C++ agree on the serialized form of primitive values",
  "A primitive value (text, boolean, integer, float, version, instruction reference) that the C++ library serializes is read by the Python module as the same value, and a value the Python module serializes reads back in Python as the same value. "
  "A Python version equals the tuple of its dotted components.",
  ["inputs"], "boundary values of every primitive and every small instruction reference, across both languages",
  "Python tests need the full extension module and look at one program; nothing checks the two sides' field names against each other.",
  ["python/module/cqasm/v3x/primitives.py", "python/module/cqasm/v3x/instruction.py", "src/v3x/primitives.cpp", "src/v3x/instruction.cpp"], "serialize/deserialize in primitives.py and the C++ specialisations")

p("C27", "An interrupted generator download never leaves a broken parser generator behind",
  "Whenever the parser-generation script is stopped or fails at any point while fetching the parser generator archive, a later run either uses a complete archive or fetches it again: it never uses a truncated or empty one. "
  "A failed download ends the script with an error status and without running the generator, and a complete archive that is already there is used as it is, without downloading again.",
  ["crash_points", "fault_sequences"], "every crash point and every short read, failed write and network error of the download, followed by a second run",
  "There is no test of the script; crash points cannot be sampled by running it once.",
  ["scripts/generate_antlr_parser.py"], "AntlrJarFileDownloader: existence check and direct write to the final path")

p("C28", "Independent analyses running concurrently do not interfere",
  "Parsing and analysing on different threads, with different analyzers, gives on each thread exactly what it gives when run alone, under every interleaving. "
  "This includes the first use of the library by several threads at once, and analyzers that are copies of one another. Accesses of the library that the C++ memory model calls a data race count as interference.",
  ["schedules"], "two threads running parse and analysis of small programs, all interleavings of their accesses to shared memory up to a preemption bound, from a cold start and after use",
  "All tests are single-threaded.",
  ["src/v3x/instruction_set.cpp", "src/v3x/analyzer.cpp", "src/v3x/parse_helper.cpp", "include/libqasm/error.hpp"], "InstructionSet singleton; absence of other shared mutable state")

p("C29", "Assembly text and backend names pass through verbatim",
  "The text between the triple quotes of an assembly declaration reaches the syntax tree and the semantic tree byte for byte, whatever it contains (quotes, newlines, comment markers, braces, non-ASCII text), and so does the backend name; the text ends at the first closing triple quote. "
  "The declaration is kept in program order as one statement and affects nothing else.",
  ["inputs", "programs"], "every text up to a length over an alphabet of quotes, newlines, comment markers, braces and letters, alone and between other statements",
  "Golden files hold a few assembly bodies.",
  ["src/v3x/CqasmLexer.g4", "src/v3x/syntactic_analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "src/utils.cpp"], "RAW_TEXT_STRING, remove_triple_quotes, visit_asm_declaration")

p("C30", "Every place that reports the library version reports the same one",
  "The version compiled into the library, the one the packaging scripts extract from its header, and the one reported to web users are the same dotted number, and the packaging extraction returns the number from the version line whatever else the header holds around it.",
  ["inputs", "configurations"], "the shipped header and every header assembled from a pool of surrounding lines and version numbers",
  "No test reads the version.",
  ["include/libqasm/versioning.hpp", "version.py", "emscripten/emscripten_wrapper.cpp"], "get_version in C++ and in version.py")

p("C31", "Escape sequences and fragments build exactly the intended string",
  "Building a string from fragments and escapes, in any order and number, appends each fragment verbatim and for the escapes \\t, \\n, \\r, \\', \\\" and \\\\ exactly the one character they stand for, an unknown escape being kept verbatim. "
  "Taking the quotes off a triple-quoted text gives exactly what is between the first three and last three characters.",
  ["histories", "inputs"], "every sequence of fragment/escape operations up to a depth; every quoted text up to a length",
  "Nothing tests string building.",
  ["src/string_builder.cpp", "src/utils.cpp"], "StringBuilder::push_string/push_escape, remove_triple_quotes")

p("C32", "Hand-built and annotated syntax trees mean what their text means",
  "Analysing a syntax tree that was read back from bytes, put together from parts of other trees or copied, with or without source positions, gives the same semantic tree and the same error messages as analysing the text it stands for; without positions nothing of the result has one. "
  "Analysing never changes the syntax tree. Annotations attached to statements and gates (nested ones too) appear on the corresponding semantic nodes, in order, with interface, operation and the values of their operands, and change nothing else; every operand that cannot be evaluated is left out and is one error, like that of the same expression in a program. "
  "Errors of a statement are reported whatever annotations it carries.",
  ["histories", "inputs"], "every program of a bounded space without positions, every statement put together from parts of two others, every short list of annotations and operands at every place",
  "No test analyses a tree that was not just parsed, and no test has an annotation.",
  ["src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/syntactic.tree", "src/v3x/semantic.tree"], "Analyzer::analyze(syntactic::Program&), visit_annotated, visit_annotation_data")

p("C33", "The locale the host program has chosen never changes a result",
  "Whatever locale the host program has set (with setlocale, for one thread with uselocale, or as the global locale of C++, a named one or one with facets of its own), before the library is first used, between uses or while an analyzer is kept, parsing and analysing give the same trees, values, errors, error texts and JSON of errors as in the classic locale, "
  "and so do case folding, URL and JSON encoding, versions and source locations printed with fmt. The library never changes the host's locale. (Trees printed as text or JSON are the tree generator's, and what is written to a stream of the host follows that stream; both are left out when the global locale of C++ is changed.)",
  ["histories", "inputs"], "all short sequences of locale changes and uses; every locale change with every text of a pool, every float literal of a grid and every byte",
  "All tests run in the classic locale.",
  ["src/utils.cpp", "src/v3x/syntactic_analyzer.cpp", "src/annotations.cpp", "src/error.cpp", "src/version.cpp"], "to_lowercase, url_encode, get_float_value, operator<< of SourceLocation and Version")
p("C34", "A call that fails in the middle leaves nothing behind",
  "At whatever point parsing, analysing, registering, copying or printing is interrupted - memory runs out (operator new throws, once or from there on), or a registered function throws an exception of any type at any of its calls - the call either ends with an exception or an error in the result, or gives exactly the answer it gives undisturbed: never another tree, never the end of the process. "
  "What it allocated and opened is released, the caller's analyzer, parse results and trees are as they were (a registration is there wholly or not at all), and the same call made again gives what it would have given. An analysis error thrown by a registered function becomes one error of the result, with a place; all other exceptions reach the caller unchanged. A registered function may use the library itself. (Text printed from trees goes through streams, which may cut it short when memory runs out; only its leaks and the state are judged then.)",
  ["faults", "inputs"], "every allocation of every use of a pool of programs, every call of a registered function, every way of failing",
  "The tests never fail an allocation and their registered functions never throw anything but analysis errors; the points of failure are thousands per program.",
  ["src/v3x/analyzer.cpp", "include/libqasm/v3x/analyzer.hpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/syntactic_analyzer.cpp", "src/v3x/parse_helper.cpp", "src/v3x/scanner_antlr.cpp", "src/error.cpp", "include/libqasm/overload.hpp", "include/libqasm/v3x/core_function.hpp"],
  "ScopeRestorer, push_scope, Analyzer::analyze, SemanticAnalyzer visit_* catch blocks, Error::what, Overload moves, register_*")
p("C35", "Results depend on nothing but the input, and stand alone",
  "The same input gives the same bytes - in texts, JSON, serialized trees, error texts and their order - whatever fresh memory, released memory and the stack happen to hold, and whether addresses rise, fall or alternate. "
  "Trees, errors, analyzers and their copies stay as they are when the text, the file name, the analyzer, the parse result or any other object they were made from or together with is changed or destroyed, in any order; an analyzer keeps no reference to the strings it was given at registration.",
  ["inputs", "histories"], "every use under every pattern of memory; every subset of the objects destroyed, in both orders",
  "The tests run once, on whatever memory they get, and destroy everything at the end of a scope.",
  ["src/v3x/parse_helper.cpp", "src/v3x/syntactic_analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/instruction.cpp", "src/v3x/resolver.cpp", "src/error.cpp", "src/annotations.cpp", "src/v3x/cqasm_python.cpp"],
  "SyntacticAnalyzer::file_name_, AnalysisResult, InstructionRef, Error::context, SourceLocation::file_name, V3xAnalyzer")

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
