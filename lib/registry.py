"""Which program decides which property."""

ASSERTS = ['-D_GLIBCXX_ASSERTIONS']


def plain(src, **kw):
    return dict(sources=['checks/' + src], lib='plain', flags=ASSERTS, lib_flags=ASSERTS, **kw)


def tree(src, **kw):
    return dict(sources=['checks/' + src], lib='tree', flags=ASSERTS, lib_flags=ASSERTS, **kw)


def v3x(src, define=None, **kw):
    return dict(sources=['checks/' + src], lib='v3x', flags=ASSERTS + (['-D' + define] if define else []), lib_flags=ASSERTS, **kw)


SANITIZE = ('-O1', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift,vptr', '-fno-sanitize-recover=all')


def python(name, **kw):
    """a check driven from Python: checks/python_checks.py"""
    def run(tier):
        import os
        import sys
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
        import python_checks
        return getattr(python_checks, name)(tier)
    return dict(run=run, **kw)


def web(*names):
    """sources of the web wrapper, and the flags to build them with a stand-in for Emscripten"""
    import os
    repo = os.environ.get('VERIF_REPO', '/repo')
    here = os.path.dirname(os.path.abspath(__file__))
    return ['checks/' + n for n in names] + [repo + '/emscripten/emscripten_wrapper.cpp'], ['-I' + here + '/stub', '-I' + repo + '/emscripten']


CHECKS = {
    'C01': plain('c01_ranges.cpp', bounds='positions over a grid of 8 lines x 8 columns with 0 and 2^32-1; expansion histories up to 4 (thorough: 5) steps; all pairs of ranges over a 16-position grid and all pairs of 8 file names'),
    'C02': plain('c02_location_text.cpp', bounds='all ranges over a 12^4 (thorough: 23^4) grid of values, all ranges with lines and columns up to 14 (thorough: 25), 11 file names, expansion histories of 2 steps'),
    'C03': plain('c03_case.cpp', bounds='all strings of up to 2 bytes, 3 and 4 over representatives, up to 6 (thorough: 8) over six, one odd byte at every position up to length 140 (thorough: 300), long strings up to 65537; all pairs of strings of up to 3 (thorough: 4) over representatives'),
    'C04': plain('c04_url.cpp', bounds='all strings of up to 2 bytes, 3 and 4 over representatives, up to 6 (thorough: 8) over six, one odd byte at every position up to length 140 (thorough: 300), long strings up to 65537'),
    'C05': plain('c05_json.cpp', bounds='all ASCII strings of up to 2 characters, all 2-byte UTF-8 letters alone and next to controls, 3 and 4 over representatives up to 4-byte letters, up to 6 (thorough: 8) over six, one odd letter at every position up to length 140 (thorough: 300), long strings up to 32768'),
    'C06': tree('c06_error.cpp', bounds='8 ways to construct an error x 26 messages x 12 file names x 11 ranges; all sequences of up to 4 (thorough: 5) of 15 operations on an error and two nodes'),
    'C07': tree('c07_version.cpp', bounds='all texts of up to 6 (thorough: 7) characters over 019.-x and up to 10 (12) over 01., every byte next to versions, all pairs of 54 components, all pairs of versions with up to 3 components over 6 values and up to 6 (8) over 2 values, all pairs around every power of two'),
    'C31': tree('c31_string_builder.cpp', bounds='all sequences of up to 3 (thorough: 4) of 39 operations and up to 7 (9) of 5, every byte as fragment and escape, lengths up to 5000; quotes taken off all texts of up to 2 bytes, of up to 6 (8) over representatives, one odd byte at every position up to length 140 (300)'),
    'C08': v3x('c08_overload.cpp', bounds='generic resolver, function table, instruction table and analyzer: all sequences of up to 3 (thorough: 4) registrations with every question, all interleavings of up to 4 (5) of 14 registrations, questions and copies, up to 70 registrations, up to 12 parameters, all pairs of the 7 types, all triples of 15 names'),
    'C26': python('c26', bounds='texts of up to 3 (thorough: 4) characters over 20 and up to 6 (8) over 4, long texts, all integers up to 70000 and around every power of two and ten, every sign and exponent of a double with 9 mantissas, versions of up to 3 (4) components over 16 values and 7 (9) over 3, references with up to 4 (5) operand types over all 7'),
    'C27': python('c27', technique='explicit-state exploration of the download directory under every fault and crash point, on the real script',
                  bounds='all reachable directory states up to 2 (thorough: 3) disturbed runs; 30 (50) server faults, death, SIGINT, SIGTERM, errors and torn writes at every file operation; each followed by an undisturbed run, a run without network and one where the generator fails'),
    'C30': python('c30', bounds='19 version numbers and 125 of three components, 7 line tails, 2 line endings, 30 neighbouring lines at every place and all pairs (thorough: triples) around the version line; 7 (25) numbers compiled into the library and the web wrapper'),
    'C12': v3x('c12_precedence.cpp', bounds='all sequences of up to 2 binary or conditional operators with prefix operators at every operand and of 3 (thorough: with prefixes), up to 5 (6) over fewer operators, parentheses, calls and indices around all pairs, conditionals with an operator at each place for all triples, chains and nests up to 24 (60) deep, all sequences of up to 4 (5) of 10 tokens'),
    'C18': v3x('c18_programs.cpp', bounds='all sequences of up to 3 (thorough: 4) of 37 statements, all pairs of 160 statements after two sets of declarations, 12 version numbers with every statement, every statement at every place of two longer programs, 6 kinds of two-operand statements on all pairs of 60 operands after 4 sets of declarations, 3 to 257 of one kind of statement, 24 of two kinds in turns, programs of up to 2000 statements'),
    'C19': v3x('c18_programs.cpp', define='ERRORS', bounds='the programs of C18, with the place and text of every error; in the model, taking out each instruction of each program'),
    'C20': v3x('c20_indices.cpp', bounds='arrays of 1 to 5 (thorough: 7) elements with all index lists of one and two entries (items and ranges) over -1 to size+1, all lists of 3 entries over 3 elements, up to 4 (6) over 8 entries, 70 index expressions of every type and size alone, in lists and ranges on 9 names, all pairs as ranges, arrays of up to 2^63-1 elements at their ends'),
    'C09': v3x('c09_promotion.cpp', bounds='every kind of value (394 of them: constants around every power of two, references and index references of each type and size), with and without a location, times all sequences of up to 3 (thorough: 4) target types over all 7; all pairs of types times sizes'),
    'C11': v3x('c11_constants.cpp', bounds='all 38 operators and functions on all lists of up to 2 arguments of 48 boundary values of every type (3 for the conditional, and over 14 values for the others; up to 6 over 4), 24 other names; as text: all operators on all pairs of 17 leaves, all pairs of operators over 5 leaves, conditionals, functions, each as float, int and other'),
    'C10': v3x('c10_instructions.cpp', bounds='all 33 names and 400 near them: every category and parameter query; all lists of up to 2 (thorough: 3) of 19 operands and of 3 of 7, all lists of up to 2 of 10 parameters, of 3 (5) of 4 and up to 7 with one odd one, for every gate and instruction; all chains of up to 2 of 7 modifiers on every gate, of 4 (6) of 3, up to 31 long'),
    'C13': v3x('c13_grammar.cpp', bounds='after a version: all sequences of up to 3 of 53 tokens, 4 of 17 (thorough: 22), 4 (5) of 12, 6 (7) of 7, the same behind the starts of 11 statements; all edits of one token of each of 21 statements, of two tokens of the short ones (all); all pairs (triples) of statements with 12 separators; all version sections of up to 5 (6) of 9 parts; expressions nested in one another twice over calls, indices and operators, in every place for one; lists of up to 4 (5) of 3 to 6 entries; every statement repeated around every other; lists and chains of up to 300; in every form, all pairs of 16 (39) tokens inserted at every place and all triples of 12 (26) at the end'),
'C14': v3x('c14_tokens.cpp', bounds='the tokens of all strings of up to 3 of 50 characters (thorough: 4 of 22), up to 5 or 6 (5 to 8) over 7 alphabets of comments, numbers, quotes, signs, versions and line ends; every spelling by case of every keyword, with a character more or less; every token at columns and lines up to 70000; integer literals around every power of two, with leading zeros, up to 1000 digits; float literals of 8 whole parts, 9 fractions and 32 exponents and all exponents'),
    'C16': v3x('c16_positions.cpp', bounds='180 programs (every form of statement, every statement of the pools) with 11 fillers and 13 separators at every gap alone, 4 at all pairs of gaps (neighbours, for the pools; thorough: all), at all gaps at once, 8 beginnings, 12 ends; 9 replacements of every token; 6 kinds of file name; all pairs of 17 values of an analyzer whose constants have a position of their own; every line, column, name and literal length up to 300 (600)'),
'C17': v3x('c17_layout.cpp', bounds='the layouts of C16, and 13 block and 11 line comments at every gap, runs of 5000 blanks, comments and separators'),
    'C29': v3x('c29_assembly.cpp', bounds='contents: every ASCII character and 10 others, all pairs of them, all sequences of 3 of 21 fragments and of up to 4 (thorough: 6) of 8, of quotes up to 7 (9), 7 fillers up to length 300 and 30000, at every place among other statements; 60 backend names; 660 endings'),
    'C15': v3x('c15_total.cpp', opt=SANITIZE, bounds='under the address and undefined behaviour sanitizers: all texts of up to 2 bytes, 3 of 26 characters, 5 (thorough: 6) of 8 tokens, every byte after 23 beginnings, up to 4 (5 or 6) of 4 alphabets inside statements; all truncations of 24 programs and all edits of one character to 44 others; every token of 21 statements replaced and preceded by 24 others; 3 kinds of file names; all pairs of 72 texts one after the other, all triples (quadruples) of 12; texts of up to 100000 characters'),
    'C21': v3x('c21_histories.cpp', bounds='11 texts, 8 registrations and scope operations, copies, assignments, changed results on two analyzers: all sequences of up to 2 (thorough: 3) of 42 operations, of 3 (4) of 17 on one analyzer, of 4 (6) of 7, up to 7 (9) of 3; of up to 4 (5) of 12 and 4 (6) of 9 on two; up to 100 analyses'),
    'C22': v3x('c22_scopes.cpp', bounds='all sequences of up to 4 (thorough: 5) of 15 operations (open, close, names, instructions, functions, statements at 5 locations or none, variables), 5 (7) of 8, 8 (10), 7 (9) and 6 (8) over names, instructions and statements alone; nests up to 300 deep with something at each level; up to 500 additions'),
    'C23': v3x('c23_serialization.cpp', bounds='texts of up to 2 bytes, 3 (thorough: 4) over 16, 6 (8) over 3, long ones; integers up to 70000 and around every power of two; every sign and exponent of a double with 8 mantissas, not-a-number and infinities; pairs and triples of 14 doubles; versions of up to 3 (4) components over 12, up to 40; references with up to 4 (5) types over all 7, with sizes; 15120 (thorough: 151200) semantic trees and 30000 syntax trees put together by hand; trees of all pairs of 160 statements and programs of up to 1000 statements'),
    'C24': v3x('c24_results.cpp', bounds='both kinds of result: all lists of up to 3 (thorough: 4) of 11 errors without a tree and with one, of up to 2 with three others, of up to 7 (9) of 3, up to 1000 errors; all sequences of up to 4 (5) of 11 operations on a result, of up to 7 (8) of 5; the results of all pairs of 160 statements and of all truncations and insertions of programs'),
    'C25': python('c25', bounds='21 ways to parse or analyse, with 7 names of files, on 230 texts of every kind, their truncations, and 37 times 160 pairs of statements; 10 names on disk, 10 paths to no file, 15 versions; all sequences of up to 2 (thorough: 3) of 11 registrations with and without defaults through both interfaces; all sequences of up to 2 (3) of 24 calls on one object; the Python class on every kind of answer of the library'),
    'C32': v3x('c32_trees.cpp', bounds='without positions, as a copy and as analysed from text: all pairs of 160 statements after declarations; put together from nodes of other programs: all sequences of up to 2 (thorough: 3) of 37 statements, all pairs of 160, up to 1000; gates times operands, modifiers times gates, types times names of 27, 20, 4, 7 and 9; annotations on 19 statements and their gates: all lists of up to 2 (3) of 28 operands, up to 5 of 3, up to 3 (4) annotations of 6, at all places at once, on all pairs and triples of statements, up to 500'),
    'C33': v3x('c33_locale.cpp', bounds='8 named locales made for the check, 7 ways to set each, 5 sets of facets, 4 values of errno: first use of the library in each of them and in all pairs of 11 (thorough: 11 and 72); each with 1700 programs, float literals, bytes, versions, locations; all triples of 11 changes; all sequences of 3 (4) of 20 changes and uses, of 4 and 5 (up to 7) of 6'),
    'C34': v3x('c34_failures.cpp', bounds='9 uses of the library on 250 programs (thorough: all pairs; quick: parse, analyze, to_strings, to_json), 8 registrations, 2 versions, 3 files, 14 broken programs: memory runs out at every allocation, for that one or for all from there on; the first use in a process of its own for every third (every) allocation; 7 ways in which a registered function fails at every call of it in 80 programs of 2 versions'),
    'C35': v3x('c35_memory.cpp', bounds='10 uses of the library on 240 programs, parsing and analysing on 870 more (thorough: 3200 more), registrations, versions, helpers, under 15 (36) combinations of what fresh memory, released memory and the stack hold and of where memory lies; for 240 programs, of 9 objects that a use leaves all subsets of up to two destroyed or remaining (all 510 subsets), each in both orders'),
    'C28': dict(sources=['checks/c28_threads.cpp', 'checks/c28_runtime.cpp'], lib='v3x', flags=ASSERTS, lib_flags=ASSERTS + ['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], ldflags=('-rdynamic',), technique='stateless exploration of the schedules of two threads on the real code under a controlled scheduler, with partial-order reduction', bounds='two threads, all pairs of 21 jobs (analyses of valid and invalid programs, parsing, the interfaces, an analyzer with additions and its copy, copies of an analyzer made before, trees written and read, errors, helpers) from a cold start and after use, and 160 statements against themselves: all schedules with up to 2 (thorough: 4) preemptions at accesses to shared memory, up to reordering of independent accesses; and no two conflicting accesses that are not ordered by synchronisation in any of these executions'),
}
