#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json:  python3 mc/propdefs.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import CHECKS

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Expressions are parsed exactly as the documented grammar says",
     "For every operator set that can be built and every input, the parser accepts exactly the sentences of the documented "
     "grammar and builds the one tree fixed by precedence, associativity, operator placement, parentheses, argument lists and "
     "implicit multiplication. Every other input is rejected with an error, an error position inside the input, and no tree.",
     ["inputs", "configurations"], "every token sequence and input line, for the documented operators and for every consistent operator set",
     "tests/test_parser.c holds some dozens of fixed expressions for one operator set; wrong acceptance or a wrong tree needs a "
     "particular mix of placements, precedences and nesting that no list of examples covers.",
     ["src/engine/parsing/parser.c", "src/engine/parsing/tokenizer.c", "src/engine/parsing/context.c", "src/client/core/arith_context.c"],
     [("shunting-yard loop", "parse_tokens"), ("operator popping by precedence and associativity", "op_push"),
      ("arity counting and node construction", "op_pop_and_insert"), ("glue operator insertion", "parse_tokens step I"),
      ("documented operator table", "get_arith_ctx")], observe=["parse_tokens", "parse_input", "parse_easy"])

prop("C02", "Printed expressions read back as the same expression",
     "For every expression tree over the documented operators (and user-defined functions and constants) whose constants are "
     "non-negative and shown exactly by ten digits without an exponent, the text printed for the tree parses back to an equal tree. "
     "The same holds for every other operator set the registry accepts, unless infix and postfix operators share a name or one name mixes letters and symbols. "
     "Printing with colors yields the same text once the color codes are removed.",
     ["inputs", "configurations"], "every expression tree, of any shape and size, for the documented operators and every consistent operator set",
     "tests/test_tree_to_string.c compares 20-odd fixed strings; whether parentheses suffice depends on each pair of parent and "
     "child operators and on what stands left and right of them.",
     ["src/engine/tree/tree_to_string.c", "src/util/string_builder.c"],
     [("parenthesis insertion and left/right protection", "to_str, infix_to_str, prefix_to_str, postfix_to_str"),
      ("growing output buffer", "vstrbuilder_append")], observe=["tree_to_str", "tree_append_to_strbuilder", "print_tree"])

prop("C03", "Tokenization loses nothing and always takes the longest match",
     "For every input line and every set of keywords, the tokens written one after the other give back the line. Each token is "
     "a maximal run of letters, or the longest keyword that starts there (keywords are never looked for inside a run of letters), or a "
     "run of digits and dots (ended where it ends or a keyword starts), or a single other character.",
     ["inputs", "configurations"], "every string and every keyword set",
     "The tests only see tokens indirectly through a few parsed expressions; overlapping keywords and digit/letter borders are not sampled.",
     ["src/engine/parsing/tokenizer.c", "src/util/trie.c", "src/util/string_util.c"],
     [("token state machine", "tokenize"), ("longest keyword lookup", "trie_longest_prefix"), ("character classes", "is_letter, is_digit")],
     observe=["tokenize"])

prop("C04", "Every operator, function and constant has its documented value",
     "A constant expression built from documented operators, functions and constants evaluates to its documented mathematical "
     "value (to the ten digits shown), for every number of operands the operator takes and whether or not simplification rules are "
     "loaded; operands that have to be integers are truncated first.",
     ["inputs", "configurations"], "every operator applied to every operand tuple in its documented domain, alone and nested",
     "The tests evaluate about a dozen expressions; operators such as C, mod, fib, lcm, var, frac, trunc or negative operands are never computed.",
     ["src/client/core/arith_evaluation.c", "src/client/core/arith_context.c", "src/engine/tree/tree_util.c", "src/client/commands/cmd_evaluation.c"],
     [("evaluation by operator id", "arith_op_evaluate"), ("operator numbering", "get_arith_ctx"), ("bottom-up evaluation", "tree_reduce")],
     observe=["arith_op_evaluate", "printed result of a line"])

prop("C05", "Undefined expressions are refused, never answered with a number",
     "A constant expression containing a division by zero, zero raised to a non-positive power, a negative number raised to a "
     "non-integer power, an even or other root of a negative number, or a history entry that is not set is answered with an error message. No "
     "result is printed and nothing is added to the history, wherever in the expression it occurs and whether or not simplification "
     "rules are loaded.",
     ["inputs", "configurations"], "every constant expression that contains an undefined subexpression, in every position and under every other operator",
     "The tests contain no failing evaluation at all; rules such as 0*x -> 0 can silently swallow an undefined subexpression.",
     ["src/client/core/arith_evaluation.c", "src/client/core/arith_context.c", "src/client/simplification/simplification.c", "src/engine/tree/tree_util.c"],
     [("error codes of evaluation", "arith_op_evaluate"), ("error propagation", "tree_reduce, tree_reduce_constant_subtrees"),
      ("error report", "arith_simplify")], observe=["stdout, stderr and history after a line"])

prop("C06", "Simplification never changes the value of an expression",
     "For every expression with variables and every assignment of positive numbers to them under which each subexpression is a defined "
     "real number, the simplified expression the shipped rules produce is also defined and has the same value (up to rounding and the range of floating-point numbers).",
     ["inputs"], "every expression over + - * / ^, negation, postfix operators and the documented functions, and every such assignment",
     "tests/test_simplification.c pins the printed form of about 60 inputs; one wrong rule or a wrong interplay of rules shows only on "
     "particular shapes.",
     ["simplification.ruleset", "src/client/simplification/simplification.c", "src/engine/transformation/rewrite_rule.c",
      "src/engine/transformation/matching.c", "src/engine/transformation/transformation.c"],
     [("rewrite rules", "simplification.ruleset"), ("phases", "simplify"), ("negative constants", "replace_negative_consts")],
     observe=["simplify", "printed result of a line"])

prop("C07", "Simplification always terminates and is deterministic",
     "For every expression of bounded size, simplification with the shipped rules ends, and simplifying an equal expression again in the "
     "same session gives the same result.",
     ["inputs", "histories"], "every expression, and every history of previously simplified expressions",
     "Termination of a rewrite system is a statement about all inputs; two rules that undo each other loop only on shapes both match.",
     ["simplification.ruleset", "src/client/simplification/simplification.c", "src/engine/transformation/rewrite_rule.c"],
     [("rule application to a fixed point", "apply_simplification, apply_ruleset_by_iterator"), ("restart after each application", "iterator_reset")],
     observe=["simplify"])

prop("C08", "Derivatives are correct or refused",
     "For every expression in one variable, f' and deriv(f, x) either produce an expression whose value is the mathematical derivative "
     "of f wherever both are defined and f is smooth, or an error is reported. A derivative with respect to something that is not a "
     "variable, and the shorthand on an expression with several variables, are refused wherever the result depends on them.",
     ["inputs"], "every expression and every variable, including nested and higher derivatives",
     "The tests contain a handful of derivatives as strings; chain, product and power rule combine over all nestings.",
     ["simplification.ruleset", "src/client/simplification/simplification.c"],
     [("derivation rules", "simplification.ruleset, second RULESET"), ("shorthand expansion and checks", "apply_derivatives")],
     observe=["printed result of a line"])

prop("C09", "User-defined functions and constants mean exactly their definition",
     "After any sequence of definitions, clears and evaluations, a call of a defined function or constant has the value of its right "
     "hand side with the arguments substituted simultaneously and everything else evaluated as it stood when it was defined. A name is usable "
     "exactly from its successful definition until it is cleared, and clearing or failing to define one name affects no other name.",
     ["histories"], "every sequence of define, clear, evaluate over several names, arities and bodies, with and without simplification rules",
     "The tests define no functions through the command layer; aliasing between definitions appears only in particular define/clear orders.",
     ["src/client/commands/cmd_definition.c", "src/client/commands/cmd_clear.c", "src/client/core/arith_context.c",
      "src/engine/parsing/context.c", "src/engine/transformation/rewrite_rule.c"],
     [("definition checks and rule creation", "add_function"), ("removal", "remove_composite_function, clear_composite_functions"),
      ("operator ids", "ctx_add_op"), ("substitution before simplification", "arith_simplify")],
     [("composite functions", "rules of all definitions", "g_composite_functions"), ("operators", "all usable names", "g_ctx")],
     observe=["result lines and errors of a session"])

prop("C10", "A rejected command changes nothing",
     "A line that is answered with an error leaves the session as it was: the same definitions exist with the same meaning, the history "
     "is unchanged, the same simplification rules are in force, and every later line is answered as if the rejected line had never been entered.",
     ["histories", "inputs"], "every session and every kind of rejected line (bad definition, redefinition, recursion, unbound variable, bad evaluation, bad table, bad clear, bad load)",
     "No test looks at the state after an error; every error path has its own partial work to undo.",
     ["src/client/commands/cmd_definition.c", "src/client/commands/cmd_table.c", "src/client/commands/cmd_load.c", "src/client/commands/cmd_clear.c",
      "src/client/simplification/simplification.c"],
     [("goto error cleanup", "add_function"), ("rule reload", "cmd_load_exec, init_simplification"), ("refusal to clear built-ins", "remove_composite_function")],
     observe=["result lines and errors of later lines"])

prop("C11", "History entries always name the right earlier result",
     "After any sequence of lines, ans and @0 are the latest numeric result and @n is the n-th before it, for as many results as were "
     "produced; every evaluation that prints a number (and every table fold) appends exactly that number and nothing else appends. An index beyond "
     "the results so far is refused.",
     ["histories"], "every sequence of successful, failing and non-numeric lines, of any length, with and without simplification rules",
     "The tests never use the history; whether a result is stored depends on the kind of result and on loaded rules.",
     ["src/client/core/history.c", "src/client/commands/cmd_evaluation.c", "src/client/commands/cmd_table.c", "src/client/core/arith_evaluation.c"],
     [("append", "history_add"), ("indexing from the end", "history_get"), ("which results are stored", "cmd_evaluation_exec, cmd_table_exec")],
     [("results", "all numeric results so far", "ans_vec")], observe=["result lines of a session"])

prop("C12", "The table command lists exactly the requested values",
     "For valid arguments the table has one row per step from the first bound up to and including the second (in the direction of the "
     "second bound, whatever sign the step has), each with the argument and the value of the expression there, or Error where it is undefined. "
     "With fold, the fold result is the left fold of the defined values starting from the initial value; invalid arguments are refused without printing a table.",
     ["inputs"], "every expression, bounds, step, fold expression and initial value",
     "No test runs the table command.",
     ["src/client/commands/cmd_table.c", "src/util/string_util.c", "src/engine/tree/tree_util.c"],
     [("argument splitting", "str_split, strip"), ("row loop and step direction", "cmd_table_exec"), ("variable substitution", "replace_variable_nodes")],
     observe=["stdout of the command"])

prop("C13", "Loading a file is the same as typing its lines",
     "Loading a file, at any nesting of loads, leaves the session and prints results exactly as if the lines of the file had been typed one by one: "
     "comments and empty lines are ignored, a failing line does not stop the rest, and a last line without a newline counts in full. "
     "Interactive mode is the same after the load as before it, and the load itself fails if one of the lines did.",
     ["inputs", "histories"], "every file content (including missing final newline, empty files, long lines, failing lines, nested loads)",
     "No test loads a file of commands.",
     ["src/client/commands/cmd_load.c", "src/client/commands/commands.c", "src/util/console_util.c"],
     [("line loop", "process_input"), ("reading a line", "ask_input_getline"), ("interactive mode saved and restored", "cmd_load_exec")],
     observe=["stdout and later lines of the session"])

prop("C14", "Command line switches and exit status behave as documented",
     "For every argument list: an unknown argument is refused with failure before anything is executed; help and version print and succeed; "
     "commands after the commands switch are executed in order until the first failing one, and the program ends after them unless interactive mode is forced. "
     "The exit status is success exactly when no executed line failed, and quit ends the program with that same status.",
     ["inputs", "histories"], "every argument list over the documented switches and every sequence of succeeding and failing input lines",
     "The tests link everything except main.c.",
     ["src/client/main.c", "src/client/commands/commands.c"],
     [("argument loop", "main"), ("switch lookup", "parse_arg"), ("status of all lines", "process_input")], observe=["exit status, stdout and stderr of the program"])

prop("C15", "No input crashes, hangs, corrupts or leaks memory",
     "Every sequence of input lines, of any bytes, is answered in bounded time without a crash, an out-of-bounds or use-after-free access or an "
     "internal-defect exit, and after the session is unloaded no memory is left allocated.",
     ["inputs", "histories"], "every byte string as a line, and every sequence of lines",
     "The randomized test only parses random token strings; command handling, definitions, tables and rule loading are not exercised with hostile input.",
     ["src/client/commands/commands.c", "src/client/commands/cmd_definition.c", "src/client/commands/cmd_table.c", "src/engine/parsing/parser.c", "src/util/string_util.c"],
     [("input dispatch", "exec_command"), ("buffer growth", "vec_ensure_size"), ("cleanup paths", "free_result, add_function")],
     observe=["process status, memory checker"])

prop("C16", "Pattern matching finds exactly the matchings that exist",
     "For every pattern (with plain variables, list variables, repeated variables, constants and constraints) and every expression, the set of matchings "
     "reported at a node is exactly the set of variable assignments that turn the pattern into that expression and satisfy all constraints, each once. "
     "Searching a tree yields the outermost, leftmost node that has a matching.",
     ["inputs"], "every pattern and expression",
     "The tests match a dozen fixed patterns; list variables make the number of matchings exponential and each split must be right.",
     ["src/engine/transformation/matching.c"],
     [("enumeration of argument list splits", "match_parameter_lists, fill_suffix"), ("binding and constraint check", "extend_matching"),
      ("constraint trigger points", "get_pattern"), ("top-down search", "find_matching")], observe=["get_all_matchings", "get_matching", "find_matching"])

prop("C17", "Rules rewrite by substitution, in order, until none applies",
     "Applying a rule replaces the outermost, leftmost subexpression that matches and satisfies the rule's conditions (type, equal, comparisons, logic over the matched parts) by the rule's right hand side with every variable (single or list) replaced by what it "
     "matched, and changes nothing else. A set of rules is applied with earlier rules first until no rule matches or the given number of steps is reached, and "
     "the number of steps is reported.",
     ["inputs", "configurations"], "every rule set, expression and step limit",
     "The tests apply single rules to fixed trees.",
     ["src/engine/transformation/rewrite_rule.c", "src/engine/transformation/transformation.c", "src/engine/tree/tree_util.c"],
     [("rule order and restart", "apply_ruleset_by_iterator"), ("substitution", "transform_by_matching, tree_replace_by_list"), ("rule validity", "get_rule")],
     observe=["apply_rule", "apply_ruleset"])

prop("C18", "Rule files are loaded exactly as written or rejected",
     "For every rule file, each rule line (with its optional conditions, comments stripped, last line with or without newline) ends up in the rule set of its "
     "section, in order, with the pattern, result and all conditions it states; a file with a malformed line, an unbound right hand variable, a list used (right of the arrow or in a condition) where a single "
     "operand belongs, or too few sections is refused "
     "with an error and never reported as loaded.",
     ["inputs"], "every rule file",
     "The tests only load the one shipped file.",
     ["src/engine/transformation/rule_parsing.c", "src/client/simplification/simplification.c", "src/client/commands/cmd_load.c"],
     [("line splitting", "parse_rule, parse_pattern, parse_constraints"), ("sections", "parse_rulesets_from_file"), ("load result", "init_simplification, cmd_load_exec")],
     observe=["parse_rule", "parse_rulesets_from_file", "load simplification"])

prop("C19", "The string trie is an exact set of strings with payloads",
     "After any sequence of insertions and removals, membership, payload, count, longest stored prefix and iteration (each stored string once, in character order; strings of up to 28 characters) agree with the "
     "set of strings inserted and not removed; removing a string never affects another.",
     ["histories"], "every sequence of operations over strings with shared prefixes, including the empty string",
     "The tests add and remove a few fixed words.",
     ["src/util/trie.c"], [("insertion", "trie_add_str"), ("removal of dead branches", "remove_rec"), ("lookup", "trie_longest_prefix"), ("iteration", "find_terminal, get_next")],
     [("trie", "stored strings", "Trie")], observe=["trie_contains", "trie_longest_prefix", "trie_count", "iteration"])

prop("C20", "The linked list is an exact sequence",
     "After any sequence of insertions and deletions at any position, indexing, iteration, first and last element and count agree with the sequence of "
     "elements that results, and nodes keep their address and payload until deleted.",
     ["histories"], "every sequence of operations",
     "The tests cover one fixed sequence.",
     ["src/util/linked_list.c"], [("insertion", "list_insert_after"), ("deletion", "list_delete_node"), ("two-sided search", "list_get_node")],
     [("list", "elements in order", "LinkedList")], observe=["list_get_at", "list_get_node", "iteration", "list_count"])

prop("C21", "Vectors and string builders keep exactly what was appended",
     "After any sequence of pushes, bulk pushes, pops, trims, clears and formatted appends, from any starting capacity, a vector holds exactly the elements of the corresponding "
     "sequence and a string builder exactly the concatenation of the appended text, NUL-terminated; no append is lost or truncated at any capacity.",
     ["histories", "inputs"], "every sequence of operations, element size, start capacity and text length",
     "The tests push some elements from one start capacity.",
     ["src/util/vector.c", "src/util/string_builder.c"], [("growth", "vec_ensure_size"), ("bulk append", "vec_push_many"), ("two-pass formatting", "vstrbuilder_append")],
     [("buffer", "elements and spare capacity", "Vector")], observe=["vec_get", "vec_count", "iteration", "strbuilder_to_str"])

prop("C22", "The operator registry stays consistent under every change",
     "After any sequence of adding and deleting operators, lookup by name and placement returns exactly the operators present with the attributes they were added with, an addition is refused exactly "
     "when name and placement are taken or an infix operator of the same precedence has the other associativity, every present operator has an id shared by no other, and every present name is recognised by the tokenizer.",
     ["histories"], "every sequence of add, delete, set-glue over overlapping names and placements",
     "The tests add one fixed operator set and never delete from it.",
     ["src/engine/parsing/context.c", "src/engine/tree/operator.c"], [("addition and checks", "ctx_add_op"), ("deletion", "ctx_delete_op"), ("lookup", "ctx_lookup_op"), ("glue operator", "ctx_set_glue_op")],
     [("registry", "operator list, tries, keywords", "ParsingContext")], observe=["ctx_lookup_op", "tokenize"])

prop("C23", "Tables are rendered with every cell, border and alignment in place",
     "For every table within the column limit, whatever its cell texts (multi-line and colored included), alignments, horizontal and vertical spans, borders and row "
     "lines, printing yields lines of equal display width in which every cell's text appears completely, inside its own columns and rows, aligned as "
     "requested, with every requested border drawn; and printing twice gives the same output.",
     ["inputs", "configurations"], "every combination of cell texts, sizes, alignments, spans and borders",
     "tests/test_table.c compares a few fixed tables.",
     ["src/table/table.c", "src/util/string_util.c"], [("column and row sizes", "get_dimensions_of_columns, get_dimensions_of_rows"), ("text placement", "print_text"), ("border joints", "print_intersection")],
     observe=["fprint_table"])

prop("C24", "Tree operations compute exactly what they say on every tree",
     "Copying, comparing, counting and listing variables, replacing variables, finding an operator, replacing a child by a list, and reducing constant subtrees give exactly the result defined on the "
     "expression, for every tree; copies share nothing with the original, the original is unchanged where it is not the target, and buffers are never overrun.",
     ["inputs"], "every tree, variable name, buffer size and list",
     "The tests run each helper on one or two trees.",
     ["src/engine/tree/tree_util.c", "src/engine/tree/node.c"], [("recursive helpers", "tree_copy, tree_equals, replace_variable_nodes, tree_replace_by_list, tree_reduce_constant_subtrees")],
     observe=["functions of tree_util.h"])

prop("C25", "Running out of memory always ends the program cleanly",
     "If any single heap allocation of the program fails, the program stops with an out-of-memory message and failure status before printing a wrong "
     "result; it never crashes, hangs or continues with damaged data.",
     ["fault_sequences"], "every allocation site and occurrence along every explored session",
     "No test injects an allocation failure.",
     ["src/util/alloc_wrappers.c", "src/util/vector.c", "src/engine/tree/node.c", "src/util/trie.c", "src/util/linked_list.c", "src/table/table.c"],
     [("checked allocation", "malloc_wrapper, realloc_wrapper, calloc_wrapper")], observe=["exit status and stderr of the program"])

prop("C26", "Interactive error markers point at the offending input",
     "On a terminal, an error with a place in the line is one line of output: the message a non-interactive run prints, and a marker (^~~ or ~~^, separated by one blank) that starts at the "
     "column of the place at fault in the typed line and is as long as it: the token at which the line stops being the beginning of a correct one (its end: one mark), the function called with a "
     "wrong number of operands, the operator that can not be evaluated - the call in the line when it stands in a user-defined function -, or the whole argument or left side a command can not use. "
     "In arguments of table and right sides of definitions the column counts from the start of the line. Without a terminal no marker is printed.",
    ["inputs"], "every rejected line",
     "No test runs in interactive mode.",
     ["src/util/console_util.c", "src/client/core/arith_context.c", "src/client/commands/cmd_table.c", "src/client/commands/cmd_definition.c"],
     [("marker layout", "report_error_at"), ("token position", "show_error_at_token")], observe=["stderr in interactive mode"])

prop("C27", "String helpers split, strip, measure and skip exactly",
     "For every string: splitting at a list of delimiters cuts at the first occurrence of each in turn and stops at the first that is missing; stripping removes exactly the "
     "spaces at both ends; the n-th line of a text is found with its length; color codes are skipped wherever they stand; none of them reads or writes outside the string.",
     ["inputs"], "every string over spaces, newlines, delimiters and escape sequences",
     "The tests do not call the string helpers directly.",
     ["src/util/string_util.c"], [("helpers", "str_split, strip, get_line_of_string, skip_ansi, begins_with")], observe=["functions of string_util.h"])

prop("C28", "Help lists every operator and every definition in force as it is",
     "After any sequence of lines, help lists each built-in operator, function and constant exactly once with its placement and number of operands, and exactly the user-defined "
     "functions and constants in force, each once with its parameters and a right side that, read as an expression without any other definition, has the value of the definition "
     "for every argument. The list of operators (help operators) states precedence, associativity, number of operands, current value and description of each as the parser and the "
     "evaluation use them. Neither of them changes the session.",
     ["inputs", "histories"], "every sequence of definitions, redefinitions, clears and evaluations; every right side",
     "No test runs help; what is listed depends on the history and on how every body is written back.",
     ["src/client/commands/cmd_help.c", "src/client/core/arith_context.c", "src/engine/tree/tree_to_string.c", "src/table/table.c"],
     [("list", "print_short_help, print_ops_between"), ("tables", "print_op_table, OP_DESCRIPTIONS")], observe=["lines 'help' and 'help operators'"])

if __name__ == "__main__":
    root = os.path.dirname(HERE)
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        c = CHECKS.get(p["id"])
        if c is None:
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": c.get("technique") or "explicit-state model checking: exhaustive enumeration on the real code against an executable reference model",
                       "level": c["level"], "level_note": c["bounds"]["quick"],
                       "evidence_file": "evidence/%s.json" % p["id"]})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. No hooks in /repo are needed; fix: commits in /repo are listed in known_findings.json."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties,", len(checks), "checks")
