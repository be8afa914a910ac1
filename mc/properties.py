"""Registry: which harness decides which property, and within which bounds."""
CHECKS = {}


def add(pid, harness, quick, thorough, level="model_checking", assumptions=(), ccalc=()):
    if isinstance(harness, str):
        harness = [{"name": harness}]
    CHECKS[pid] = {"harness": harness, "bounds": {"quick": quick, "thorough": thorough}, "level": level,
                   "assumptions": list(assumptions), "ccalc": list(ccalc)}


add("C01", "h_parser",
    "all token sequences of length<=4 over 18 documented tokens, 5 over 11, <=7 over 6; all sentences of <=7/<=9 tokens; "
    "all lines of <=5 fragments; sizes 1..130 and around every power of two to 1025; all 1485 consistent small operator sets with sequences <=3 and sentences <=6",
    "the same with length 6/7/9, sentences 8/11, lines 6, sizes 1..400, operator sets with sequences 5 and sentences 8")

add("C19", "h_trie",
    "all add/remove sequences of length<=5 over 6 sets of 6 strings (shared prefixes, empty string, both ends of the character range, 28 characters) "
    "with 8-byte payload, <=4 with 0, 1 and 20 bytes; removal of strings that are not stored; every query, payload and iteration compared after the sequence; families of up to 1025 strings of four shapes",
    "the same with one more operation")
add("C20", "h_list",
    "all sequences of append/insert_at/insert_after/delete_at/delete_node at every position: length<=6 from the empty list (<=5 for other payload sizes), "
    "<=3 from lists of 1..6, <=2 from 7..12, 1 from 13..60 elements and at sizes to 70000",
    "the same with one more operation and up to 200 elements")
add("C21", "h_vector",
    "all vector operation sequences of length<=5 (10 operations, start capacities 0..8, element sizes 1,3,8,24), string builder sequences of length<=3 over "
    "12 operations from 27 start states, all pairs of append lengths 0..60 from capacities 0..24, lengths around 4096, every ensured size up to 200; every character appended; blocks of elements pushed at once; vectors to 33000 elements",
    "sequences one longer, lengths 0..140, capacities 0..60, sizes to 1000")
add("C27", "h_strutil",
    "all strings of length<=9 over 3 characters for strip and line access, <=8 over 4 for color codes and <=7 over 4 for splitting (5 delimiter lists), <=12 over 2 for "
    "4..8 delimiters (4 lists), texts of up to 80 repeated pieces (10 kinds) and sizes to 4097, "
    "all prefix/string pairs of total length<=8, all 256 characters; buffers of exact size under the address sanitizer",
    "strings two characters longer")
add("C03", "h_tokens",
    "all lines of length<=5..7 over 5 to 10 characters for 10 keyword sets (nested, digit-led, none), all sequences of <=4 fragments over 20 for the documented "
    "operators, <=4 over 10 odd bytes, every byte between every class, repetitions up to 300 and sizes to 1025",
    "the same with one more character")
add("C22", "h_registry",
    "all sequences of <=4 operations over 37 (21 additions, 12 deletions, 4 glue settings; 3 overlapping names, all placements), <=3 for a second name set, "
    "5..6 over 9 operations; families of up to 301 operators (4 naming styles), names to 4097 characters, with a contradiction at every place, glue of every arity, one name in all placements; lookup, attributes, ids, list, keywords compared after each",
    "sequences <=5, <=4 and 5..7; families of up to 200 operators")
add("C02", "h_print",
    "all trees of <=4 operators over 12 operators covering every precedence class and placement, <=2 over all documented operators, <=2 over 25 kinds of "
    "leaves, <=4 with user-defined names; chains of depth 1..150 in 10 shapes and sizes to 1025; 4000 numbers; all trees of <=3 operators for 6750 other operator sets (nine choices of names, every consistent precedence and associativity)",
    "<=5 operators over the classes, <=3 over all documented operators, <=3 with user-defined names, chains to 400, 40000 numbers, <=4 operators for the other sets")
add("C24", "h_treeutil",
    "all trees of <=4 operators over 7 operators (3 leaf rotations), <=2 with every leaf combination; every helper, buffer size, variable, replacement and list "
    "length on each; all pairs of 700 trees and pairs of nearly equal ones for comparison; wide (to 257 operands), deep and many-variable trees",
    "<=5 operators, <=3 with every leaf combination, all pairs of all listed trees")
add("C16", "h_match",
    "all patterns sum(...) of <=3 operands over 10 kinds (variables, list variables, repeated, nested, constant), 4 over 5, 5 over 3, against 1274 expressions; "
    "nested patterns of <=2 operators against every expression of <=3 operators; up to two conditions on every pattern of <=2 operands; limits; wide and deep subjects of up to 1025 operands",
    "patterns of <=4 operands over 10 kinds, 5..6 over 4..5, nested patterns of <=3 operators, two conditions on patterns of <=3 operands")
add("C17", "h_rules",
    "27 rules (list variables, repeated variables, conditions, growing, swapping) alone on 4000 expressions of <=3 operators, all ordered pairs on those of <=2 (a third), "
    "a fifth of all ordered triples on 40 expressions, step limits 1..6 and none; all conditions of <=2 operators over 9 leaves, count, every operator of the rule language on small constants, <=3 with rotated leaves; rule validity on 160000 pairs; subjects of up to 513 operands",
    "all ordered pairs on expressions of <=3 operators, all ordered triples on 1200, conditions of <=4 operators")

add("C18", "h_rulefile",
    "all lines of <=5 of 15 fragments, 16 left sides x 12 right sides x up to 4 of 8 conditions (rule and pattern); every pair of 13 operators with 6 signs at each of 3 operands as condition; all files of <=4 of 21 kinds of lines with and without final newline "
    "and 1..3 sections read; line lengths 1..400 and to 4097, files of up to 1025 rules; all sequences of <=3 of 10 files (good, short, surplus, malformed, missing, empty, shipped) and 4 commands loaded into a session; up to 257 loads in one session",
    "lines of <=6 fragments, files of <=5 lines, sequences of <=4 loads")

add("C23", "h_table",
    "all tilings by spanning cells of grids up to 3x3, 2x4 and 4x2 (every 40th of 3x4 and 4x3), every filled subset of 3x3 with spans, x 12 texts x alignments x 7 border settings; all 2x2 texts x 9 alignments; "
    "27x27 line settings x 144 overrides; 1..11 columns; tables of up to 1025 rows, cells of up to 1025 characters or lines; all sequences of <=4 of 22 operations and 5 of 13",
    "every text step and alignment on the tilings, a third of all tilings of 3x4, 4x3 and 4x4, sequences of <=5 of 22 and 7 of 13 operations")

add("C04", "h_values",
    "every operator, function (0..4 operands) and constant on all tuples over 12 values, every ordered pair of operators nested in each operand position (12 tuples), a seventh of all "
    "triples; every pair of 60 grid values for every two-operand form, nCk for every k, factorial/gamma/fib for every argument to 200, calls with 5..20 operands and to 257; numbers with 0..11 digits before and "
    "0..7 after the point; random draws; with and without rules",
    "64 tuples per nested pair, all triples, dense arguments to 1050, calls to 40 operands")

add("C05", "h_undef",
    "32 undefined constant expressions (division, powers, roots, history) in every operand position of every operator and function with 4 neighbours each, an eighth of all "
    "two-level nestings, samples of three levels, all pairs of undefined operands; every pair of grid values for two-operand forms (refused or answered, as predicted), an undefined operand at every place of calls with 1..20 operands; 0, 1 and 2 results in the history, with and without rules",
    "all two-level nestings, every form on the outside of three levels")

add("C06", [{"name": "h_simplify", "variant": "plain"}],
    "all trees of <=3 operators over + - * / ^ and negation with every combination of x, y, 2, 3 (a third), <=4 with rotated leaves (half), all documented operators and functions "
    "of <=2 operators with every leaf, samples of 3, what the rules mention <=3, sums and products of three variables <=5, powers <=4; instances of the left side of every rule of the current rule file (consistent, and with one occurrence differing); 8 points of positive values each; "
    "printed line = simplified tree",
    "all of these without sampling, one operator more for the arithmetic ones",
    assumptions=["values are compared in double arithmetic with error bounds estimated by perturbing every inexact intermediate value; points where rounding decides are left open"])

add("C07", [{"name": "h_terminate", "variant": "plain"}], 
    "all expressions of <=2 operators over + - * / ^ and negation with 6 kinds of leaves (0 included), 3 (a 19th, and all with rotated leaves), 4 (a third); derivatives <=3, all documented "
    "operators <=2, lists and powers <=4, opposite terms and zero divisors <=4, three variables <=5; instances of every rule's left side; 16 growing shapes up to 14 terms; 18x18 sequences A B C A B C in one session; "
    "each simplified twice in a worker's session, 20 s per expression",
    "all without sampling, up to 6 operators for some sets, growing shapes up to 24 terms, all 5832 sequences",
    assumptions=["an expression that needs more than 20 s is taken not to end; on the current tree the slowest explored one needs under 2 s"])

add("C08", [{"name": "h_deriv", "variant": "plain"}],
    "(f)' and deriv(f, x) for all f of <=2 operators over arithmetic (3 for a half), 39 functions <=2 (3 mixed for a twelfth), functions with a rule <=3 with rotated leaves (a twelfth); deriv by x, y and both "
    "for two variables; second derivatives; all trees with derivatives inside <=3; calls of max, min, sum, prod, avg, var, gcd, lcm with 1..5 operands; 24 derivatives that have to be refused; 8 points of positive values",
    "without sampling; arithmetic <=4, nested derivatives <=4",
    assumptions=["the reference is a symbolic differentiation written for the harness; functions it does not know are compared with difference quotients"])

add("C09", "h_define",
    "all sequences of <=3 lines over 27, 27 and 22 lines (definitions with 0..4 parameters, redefinitions, recursive, unbound, undefined, prefix names, operator names, "
    "bodies using the history or each other, clears, evaluations) without rules and 19 with the shipped rules, each followed by 14 to 21 probes against substitution; families of larger sessions (recursion at every operand place, many uses per line, chains of functions "
    "cleared in different orders, 1..n parameters, names resembling each other, up to 513 definitions, names to 1025 characters, bodies to 513 operands, define/use/clear cycles to 257); leak check",
    "sequences of <=4 lines without rules")

add("C10", "h_reject",
    "160 kinds of rejected lines (syntax, undefined, definitions, clears, tables, loads of lines and of rules) after every sequence of <=2 of 12 session lines (a quarter), before 12 kinds "
    "of next lines and 33 probes, byte-identical with the session without it; pairs of rejected lines; each kind 3 to 129 times in a row and all kinds in turn",
    "every sequence of 2 session lines, eight pairings of rejected lines")

add("C11", "h_history",
    "all sequences of <=3 of 30 lines (numbers, symbolic, failing, definitions, tables without, with and with failing fold, files, history references) and 4 of 17 without rules, "
    "<=2 of 30 and 3 of 19 with the shipped rules: the whole history after every line and through 10 references; 0..120 results with every index, histories to 1025 results and, filled directly, to 16384",
    "4 of 30 and 5 of 14 without rules, 3 of 30 and 4 of 14 with, 0..300 results, to 32769")

add("C12", "h_tablecmd",
    "33 expressions x 25 first and last bounds x 20 steps (a fifth; a thirteenth with rules or interactive), 28 folds on a sample of those, 8 layouts of the command, ranges of 1..76 rows over 20 "
    "denominators, tables of up to 1025 rows; rows, fold result and history against the reference; with and without rules, interactive with header",
    "all bounds and steps for every expression (a third with rules or interactive), every fold on a seventh of them, ranges over 60 denominators")

add("C13", "h_load",
    "all files of <=3 of 20 kinds of lines (<=2 of 30: comments, empty, blank, failing, definitions, tables, nested loads, rules, a line of 4121 characters) with and without a final newline, loaded with and without "
    "interactive mode; all contents of <=5 bytes over 6 and <=4 over 8 (carriage returns, tabs, foreign bytes); nesting to 40 files, line lengths and line counts to 129, line lengths to 4097, up to 1025 loads in one session; compared with typing the lines (those of nested files too) in output, errors, status and 11 probes",
    "files of 3 of 30 and 4 of 18 lines, contents of <=7 bytes, lengths to 399")

add("C14", [{"name": "h_cli", "variant": "plain"}],
    "the program itself, run with all argument lists of <=2 of 29 arguments (and 3 after a switch) and all standard inputs of <=3 of 12 lines with and without final newline; "
    "argument lists of <=2 with a terminal as input; 6 rule files found at startup; up to 257 commands, lines or switches with a failing one at any place, commands, lines and arguments to 4097 characters",
    "lists of 3 after every switch and 4 after -c or two switches, inputs of <=4 lines", ccalc=[{"variant": "plain"}])

add("C15", "h_hostile",
    "all byte strings of <=3..5 over 8 alphabets of 8 to 22 bytes, 241 hostile lines alone, in all pairs, and with every character removed, doubled or replaced by 9 others, 49 shapes "
    "(nesting, chains, long names and numbers, many different variables) of 32 sizes to 1025; expression trees of 1 operator (2 with rotated leaves with rules) as lines and definitions; plain, interactive and with the shipped rules; address sanitizer and heap empty after every session",
    "strings one longer, a seventh of all triples of lines, trees of 2 and 3 operators, sizes to 4097 (33 with rules)")

add("C25", [{"name": "h_oom", "extra_src": ["ccalc_main.c"], "wraps": ["malloc", "calloc", "realloc", "getline", "__getdelim", "atexit"]}],
    "every single heap allocation (and buffer of a line read) made by 16 runs of the whole program from start to end fails once (evaluations; distinct by call site): expressions, definitions, tables, files, rules, "
    "errors, help, switches, quit; a sixteenth of those while loading and using the shipped rules",
    "all of them with the shipped rules", level="fault_enumeration")

add("C26", "h_marker",
    "all strings of <=4 of 20 words as a line and of <=2 in 20 places (sides of definitions, arguments of table and fold, clear, calls, long lines), 31 kinds of error at every column 0..130 in lines, definitions "
    "and table arguments, names of length 1..20, columns and names to 1025, all trees of <=2 of 12 symbols with user-defined functions, without and with the shipped rules; each not interactive and interactive",
    "one word or operator more (a quarter of the trees with rules)")

add("C28", "h_help",
    "help after all sequences of <=3 of 26 lines (two alphabets of definitions, redefinitions, clears, failing lines, results) and <=2 of 18 with the shipped rules, help operators after those of <=2; "
    "a definition with every right side of <=2 operators over arithmetic with negative constants and over all functions, 3 (a third), with rules (a third); 0..60 definitions and clears, names to 40 characters and 1025, 1..10 parameters, "
    "chains of 129, calls of 1..129 operands in the body, define/list/clear cycles to 129; heap empty afterwards",
    "sequences of 4 (first alphabet) and 3 with rules, all right sides of 3 operators")
