#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CL = "src/client/"; EN = "src/engine/"; UT = "src/util/"

prop("C01", "No input makes the calculator crash or execute undefined behaviour",
 "For every sequence of input lines (any bytes, with or without the shipped simplification rules, with or without a final newline) the calculator never reads or writes memory it does not own, never executes undefined behaviour and never dies from a signal. It ends only by end of input, by the quit command or by a diagnosed exit, whose status is 0 or 1.",
 ["inputs", "histories"],
 "All sequences of lines up to a few hundred bytes each: expressions, definitions, clear, load, table, help, rubbish and arbitrary bytes, and all their interleavings within one session; expression nesting within what a default 8 MB stack carries.",
 "The tests run a few dozen well-formed expressions (plus a short random-token parser run) without any memory or undefined-behaviour instrumentation, and never drive the command layer.",
 ["src/"], [("ownership conventions: every tree, token vector and table is released by its creator", EN+"tree/node.c, "+EN+"parsing/parser.c"), ("bounds kept by the vector/string-builder growth policy", UT+"vector.c"), ("null and error checks on each parse result", CL+"core/arith_context.c, "+CL+"commands/")],
 ["sanitizer reports and exit status of the running calculator"])

prop("C02", "All memory a session acquires is released, and work leaves none behind",
 "When a session ends by end of input or by quit, every heap block acquired by the calculator has been released, whatever commands were executed, including failing ones. Executing a command that leaves no definition and no result behind (failing commands, symbolic evaluations, help, tables without fold, define followed by clear) leaves the amount of live heap memory unchanged once it is repeated. Every operation of the library interfaces (parsing, also of malformed text, trees, matching, rewriting, containers, tables) releases everything it acquired once its results have been released by their documented owner.",
 ["histories", "inputs"],
 "All command histories, including every error path of every command, loading rules repeatedly and quitting at any point other than from within a loaded file.",
 "The test program never checks memory; each error path releases a different set of partially built objects, and the number of such paths grows with histories.",
 ["src/"], [("release of partial results on error exits", EN+"parsing/parser.c, "+CL+"commands/cmd_definition.c, "+CL+"commands/cmd_table.c"), ("exit handler that frees all global state", CL+"commands/commands.c")],
 ["live-block accounting at the allocator boundary between lines and at exit"])

prop("C03", "Constant expressions evaluate to the documented mathematical value",
 "For every well-formed expression without variables built from number literals, the documented constants, operators and functions, the calculator prints the value obtained by applying the documented mathematical function of each operator to the values of its operands in double precision (relative tolerance 1e-9; expressions so ill-conditioned that rounding decides their value are not covered). The integer-valued functions (C, !, fib, gcd, lcm, mod and powers of integers) are exact as long as operands and result are integers below 2^53. If an operator is applied outside its real domain the whole expression is rejected instead: division by zero (also zero to a non-positive power) and complex results (square or n-th root of a negative number, non-integer power of a negative number).",
 ["inputs"],
 "All expressions over all documented operators except rand, with any nesting, any real operand values including zero, negative, fractional and very large ones, and any argument count for variadic functions (at least one for var).",
 "The tests check about thirty fixed expressions; every operator is exercised on one or two operand tuples, mostly small positive integers.",
 [CL+"core/arith_evaluation.c", CL+"core/arith_context.c", EN+"tree/tree_util.c"],
 [("operator evaluation by operator identity", CL+"core/arith_evaluation.c"), ("bottom-up reduction of trees", EN+"tree/tree_util.c"), ("order in which operators are registered", CL+"core/arith_context.c")],
 ["printed result of an evaluation"])

prop("C04", "Expressions are structured by the documented precedence and associativity",
 "Every well-formed expression is parsed into the one tree determined by the documented precedences and associativities: implicit multiplication binds like explicit multiplication, the dollar sign extends as far right as possible, round and curly brackets are interchangeable and arguments keep their order and count. Splitting the input into tokens loses and invents no character, takes the longest known symbol first, and additional spaces between tokens change nothing.",
 ["inputs"],
 "All well-formed token sequences over all documented operators, functions, constants, user-defined names, variables, literals, both bracket kinds and any spacing; any nesting and length.",
 "The tests fix about forty expressions; combinations of prefix, postfix, implicit multiplication, right-associative and equal-precedence operators grow exponentially.",
 [EN+"parsing/parser.c", EN+"parsing/tokenizer.c", EN+"parsing/context.c", CL+"core/arith_context.c", UT+"trie.c"],
 [("operator-precedence parsing with an operator stack", EN+"parsing/parser.c"), ("longest-prefix keyword search", UT+"trie.c"), ("insertion of the implicit multiplication", EN+"parsing/parser.c")],
 ["tree returned by the parser", "value printed for an expression"])

prop("C05", "Exactly the well-formed expressions are accepted",
 "An input that is not a command is accepted as an expression if and only if it follows the expression grammar: operands where operands are due, balanced brackets, non-empty arguments, the documented number of arguments for every function, valid number literals. Every other input is rejected with a diagnostic on standard error, prints no result and makes the session exit with failure status.",
 ["inputs"],
 "All token sequences, in particular every single-token deletion, insertion, duplication, swap or bracket change applied to well-formed expressions.",
 "The tests list about twenty-five malformed inputs; malformed inputs are an infinite language and past errors (accepted dangling operators) were in combinations nobody listed.",
 [EN+"parsing/parser.c", EN+"parsing/tokenizer.c"],
 [("expect-operand / expect-operator state of the parser", EN+"parsing/parser.c"), ("argument counting against operator arity", EN+"parsing/parser.c")],
 ["exit status", "standard error", "standard output"])

prop("C06", "Printed expressions read back as the same expression",
 "The text printed for any expression tree over the documented operators whose literals are finite and print without exponent, entered again, yields a structurally identical tree (literals equal up to the ten printed digits, negative literals as negation). Hence what the calculator shows is what it would compute with.",
 ["inputs"],
 "All trees over every prefix, postfix, infix operator and function, variables and non-negative literals, in any nesting; coloured output after removing the colour codes is the same text.",
 "The tests print about fifteen hand-written expressions (a randomised test compares only fixed small shapes); necessary parentheses depend on pairs and triples of operators and on which side they occur.",
 [EN+"tree/tree_to_string.c", EN+"parsing/parser.c"],
 [("parenthesis and adjacency protection rules of the printer", EN+"tree/tree_to_string.c"), ("printf format of constants", EN+"tree/tree_to_string.h")],
 ["string produced by the printer, re-parsed tree", "evaluation output fed back as input"])

prop("C07", "The result history holds exactly the constant results in order",
 "After any sequence of commands, ans and @0 denote the most recent constant result (of an evaluation or of a table fold), @1 the one before it and so on; anything beyond the number of results so far is rejected. Definitions, failing commands, symbolic results, clear, load and help leave the history unchanged, and a history reference inside a definition is resolved when the definition is made.",
 ["histories"],
 "All sequences of evaluations (constant positive, negative, zero, huge or symbolic), failing inputs, definitions, clears, loads, tables with and without fold and rule loading, with history references at any index in between; sessions with and without simplification rules.",
 "No existing test executes more than one command in a session; the history is pure session state.",
 [CL+"core/history.c", CL+"commands/cmd_evaluation.c", CL+"commands/cmd_table.c", CL+"core/arith_evaluation.c"],
 [("append on constant result", CL+"commands/cmd_evaluation.c"), ("indexing from the end", CL+"core/history.c")],
 ["printed results of history references"], [("history", "past constant results, newest last", CL+"core/history.c")])

prop("C08", "A call of a user-defined function equals substituting its arguments",
 "Applying a user-defined function or constant gives the same result as textually replacing the call by the parenthesised right-hand side in which every parameter is simultaneously replaced by the corresponding parenthesised argument, no matter which variable names occur in arguments, parameters or elsewhere and how many calls there are (with simplification rules loaded: the same value, for expressions every part of which can be evaluated). The meaning is fixed at definition time: redefining or clearing something used by an earlier definition does not change that definition.",
 ["inputs", "histories"],
 "All families of definitions with up to ten parameters, calls nested in arguments of other calls, argument expressions that mention parameter names or swap them, functions built on functions, interleaved with clearing and redefinition.",
 "No existing test defines a function through the command layer; capture, ordering and early binding need specific name clashes and multi-step histories.",
 [CL+"commands/cmd_definition.c", CL+"core/arith_context.c", EN+"transformation/rewrite_rule.c", EN+"transformation/matching.c", EN+"transformation/transformation.c"],
 [("function elimination by rewrite rules", CL+"core/arith_context.c"), ("simultaneous substitution by variable ids", EN+"transformation/transformation.c")],
 ["printed results of calls and of their expansions"])

prop("C09", "A rejected command has no effect",
 "A command that is rejected (malformed or failing expression, definition, clear, load or table) leaves the session exactly as if it had not been entered: every later command prints the same results and errors, and the names, the history and the loaded simplification rules are unchanged. (Commands executed by a loaded file before the one that fails keep their effect.)",
 ["histories", "inputs"],
 "All sessions with rejected commands of every kind inserted at every position, compared with the same session without them.",
 "The tests never look at session state after an error.",
 [CL+"commands/cmd_definition.c", CL+"commands/cmd_clear.c", CL+"commands/cmd_load.c", CL+"commands/cmd_table.c", CL+"simplification/simplification.c"],
 [("withdrawal of the provisional operator when a definition fails", CL+"commands/cmd_definition.c"), ("rules are replaced only after the new file parsed", CL+"simplification/simplification.c")],
 ["output of all later commands"])

prop("C10", "Definitions behave as a map from names to meanings",
 "A definition is accepted if and only if its left side is a new name alone or applied to distinct plain variables (at most ten), and its right side is a valid expression without other variables than those parameters (after simplification, if rules are loaded) that does not use the name itself; built-in and already defined names are refused. clear NAME removes exactly that user-defined name and nothing else, clear removes all of them, and afterwards the names are free again; distinct names never influence each other.",
 ["histories"],
 "All histories of define, redefine, use, clear NAME and clear over overlapping sets of names (prefixes of each other, names containing operator names), any order and length.",
 "The tests never define or clear anything; identity of names after deletions only goes wrong in particular orders of operations.",
 [CL+"commands/cmd_definition.c", CL+"commands/cmd_clear.c", CL+"core/arith_context.c", EN+"parsing/context.c", UT+"trie.c", UT+"linked_list.c"],
 [("operator table with per-placement tries and unique operator ids", EN+"parsing/context.c"), ("list of elimination rules", CL+"core/arith_context.c")],
 ["acceptance of definitions and clears", "values of names afterwards", "user-defined section of the help output"],
 [("definitions", "name -> parameters, body", CL+"core/arith_context.c")])

prop("C11", "Simplification never changes the value of an expression",
 "With the shipped simplification rules loaded, the expression printed for any input has the same value as the input for every assignment of positive numbers to its variables for which the input is defined and every base of a non-integer or symbolic power (or root) in it is built to be positive.",
 ["inputs"],
 "All expressions over +, -, *, /, ^, sqrt, root, exp, ln, trigonometric functions, min, max, sum, prod, avg, percent and user-visible constants with up to four variables, any nesting, and all positive assignments; functions other than the algebraic ones occur with arbitrary arguments.",
 "Twenty-odd golden strings are compared; a wrong rule shows only for operand shapes (position, number of neighbouring factors, equal subterms) that nobody listed.",
 ["simplification.ruleset", CL+"simplification/simplification.c", EN+"transformation/"],
 [("each shipped rewrite rule is an identity", "simplification.ruleset"), ("constant folding after every rule application", CL+"simplification/simplification.c"), ("list-variable matching and splicing", EN+"transformation/matching.c, "+EN+"transformation/transformation.c")],
 ["printed expression, evaluated numerically by an independent evaluator"])

prop("C12", "Derivatives are correct",
 "For every expression built from the operators for which rules are shipped, deriv(expr, v) and the quote shorthand print an expression whose value equals the derivative of the input at every point where the input is smooth, or report that it is not differentiable or malformed; a well-formed request over the operators with a rule (+, -, *, /, ^, sqrt, root, exp, ln, trigonometric ones) is not refused, and the quote shorthand is accepted only if at most one variable is left in its simplified operand. Nothing else than a correct derivative is ever printed.",
 ["inputs"],
 "All expressions over +, -, *, /, ^, sqrt, exp, ln, sin, cos, tan, asin, acos, atan and user-defined functions in up to three variables, derivatives nested and combined with other operators, at many smooth points.",
 "Five golden derivatives are tested; product, chain and power rules interact with simplification of arbitrary operand shapes.",
 ["simplification.ruleset", CL+"simplification/simplification.c"],
 [("derivation rules", "simplification.ruleset"), ("expansion of the shorthand and detection of unresolved derivatives", CL+"simplification/simplification.c")],
 ["printed derivative, compared with automatic differentiation of the input"])

prop("C13", "Results depend only on definitions, history and loaded rules",
 "The output of a command is a function of the command, the current definitions, the result history and the currently loaded rules: it does not depend on how that state was reached, on earlier symbolic evaluations, failures, tables or help pages, or on how often the rules were loaded before. For expressions without variables and calls of user-defined functions that evaluate successfully the printed value is moreover the same with and without simplification rules loaded.",
 ["histories"],
 "All pairs of histories that lead to the same definitions, results and rules, e.g. with names defined in another order, defined and cleared in between, rules loaded once or repeatedly, before or after the definitions.",
 "Each test runs in a fresh context; dependence on leftovers of earlier commands (identifiers, caches, token positions, global rule sets) needs histories.",
 [CL+"simplification/simplification.c", CL+"core/arith_context.c", EN+"parsing/context.c", EN+"transformation/"],
 [("rule matching by operator identity", EN+"transformation/matching.c"), ("re-initialisation of rule sets", CL+"simplification/simplification.c")],
 ["output of probe commands after different histories"])

prop("C14", "Pattern matching finds exactly the matchings the pattern denotes",
 "Matching a tree against a pattern returns exactly the set of assignments of subtrees to plain variables and of (possibly empty) runs of consecutive operands to list variables under which the pattern becomes the tree and every condition of the pattern holds, each once; repeated variables must denote equal subtrees (conditions over infinite, undefined or rounded numbers are not covered). Searching for a matching finds one in the tree if and only if some subtree has one, preferring the outermost and then leftmost.",
 ["inputs"],
 "All patterns with up to ten variables (several list variables per operand list, repeated plain and list variables across nested operand lists, constants, conditions triggered at different variables) against all trees of small size.",
 "The tests check a dozen fixed pattern/tree pairs with known counts.",
 [EN+"transformation/matching.c", EN+"tree/tree_util.c", CL+"simplification/propositional_evaluation.c"],
 [("enumeration of partitions with shared prefixes", EN+"transformation/matching.c"), ("condition trigger index", EN+"transformation/matching.c"), ("tree equality", EN+"tree/tree_util.c")],
 ["set of matchings returned, compared with a brute-force matcher"])

prop("C15", "Rewriting replaces a matched subtree by the instantiated right-hand side",
 "Applying a rule changes the tree if and only if some subtree matches, and then replaces exactly the chosen subtree by the right-hand side with every plain variable replaced by its subtree and every list variable spliced in place, leaving the rest of the tree untouched. A rule set applies the first applicable rule in order again and again until no rule applies or the given number of applications is reached, and reports how many it made.",
 ["inputs"],
 "All rules (list variables at any position including empty runs, repeated and dropped variables, right-hand sides that are a single variable or constant) applied to all small trees, and all short sequences of such rules.",
 "The tests exercise rewriting only through golden simplification results.",
 [EN+"transformation/rewrite_rule.c", EN+"transformation/transformation.c", EN+"tree/tree_util.c"],
 [("substitution and splicing", EN+"transformation/transformation.c, "+EN+"tree/tree_util.c"), ("rule priority loop", EN+"transformation/rewrite_rule.c")],
 ["tree before and after", "number of applications"])

prop("C16", "A rule file is loaded completely or rejected as a whole",
 "Loading simplification rules succeeds if and only if the file is readable, contains all seven rule sets and every rule line is well-formed (an arrow, both sides and all conditions valid, no unbound variable, list variables on the right and in conditions only as operands of variadic operators, limits respected); then exactly the rules listed in the first seven sets are in force, in order. Comments, blank lines, indentation by spaces and a missing final newline do not matter; otherwise an error is reported and the previously loaded rules stay in force.",
 ["inputs", "histories"],
 "All rule files obtained by editing valid ones: comments and spaces anywhere between tokens, truncation at any byte, corrupted, deleted, duplicated or reordered lines, too many conditions or variables; loaded at any point of a session.",
 "The tests load the one shipped file once.",
 [EN+"transformation/rule_parsing.c", CL+"simplification/simplification.c", CL+"commands/cmd_load.c"],
 [("line-wise rule parser", EN+"transformation/rule_parsing.c"), ("counting of rule sets", CL+"simplification/simplification.c")],
 ["exit status and messages of the load command", "results of probe expressions that each rule rewrites"])

prop("C17", "The table command lists and folds the right values",
 "table prints one row per value of the arithmetic progression from the start in steps of the given size (its sign adjusted toward the end) up to and including the end, each with the value of the expression at that point or an error mark; non-constant bounds, a zero step, an expression of more than one variable and a fold expression with other variables than x and y are refused without output. With fold, the result is the left fold of the fold expression over the successfully computed values in row order starting with the initial value; it is printed once and appended to the history.",
 ["inputs"],
 "All one-variable and constant expressions, all finite start, end and step values (up to some thousand rows) with any signs and fractional steps, fold expressions in x and y, user functions, with and without rules; malformed variants are rejected without output.",
 "No existing test runs the table command.",
 [CL+"commands/cmd_table.c", "src/table/table.c", UT+"string_util.c"],
 [("row loop with direction adjustment", CL+"commands/cmd_table.c"), ("substitution of the accumulator and the value", CL+"commands/cmd_table.c")],
 ["printed rows", "fold result", "history afterwards"])

prop("C18", "Rendered tables are rectangular and contain every cell intact",
 "Every rendered table consists of lines of equal display width (counted in characters, without colour codes) in which each cell's text lines appear complete, once, in order, inside the cell's area, aligned as requested (left, right, centred; top, bottom, centred), columns being as wide as needed and no wider. Borders appear exactly where they were requested and meet in the junction characters fitting the adjacent borders.",
 ["inputs"],
 "All tables with up to ten used columns, texts of one or more lines including empty lines and colour codes, empty cells, column/row alignments and per-cell overrides, spans in both directions, borders per table, row, column and cell.",
 "The tests render a few fixed tables for manual inspection.",
 ["src/table/table.c", UT+"string_util.c"],
 [("column width constraints", "src/table/table.c"), ("text placement", "src/table/table.c"), ("junction lookup", "src/table/table.c")],
 ["bytes written by the renderer"])

prop("C19", "Loading a file equals typing its lines",
 "A load command prints, to both output channels, exactly what typing the lines of the file at that point would print, and leaves the same definitions, history and rules behind, wherever the file ends and whatever it contains (comments, blank lines, failing commands, further loads, quit). The load counts as failed if and only if the file could not be read or one of its commands failed.",
 ["histories", "inputs"],
 "All ways of cutting a command sequence into files and nested files, with and without final newline.",
 "No existing test loads a command file.",
 [CL+"commands/cmd_load.c", CL+"commands/commands.c", UT+"console_util.c"],
 [("same input loop for files and standard input", CL+"commands/commands.c"), ("line reading", UT+"console_util.c")],
 ["standard output, standard error and exit status"])

prop("C20", "Command-line switches and the exit status are reliable",
 "Commands given by the commands switch behave as if typed in, up to and including the first that fails; with the interactive switch the session then continues on standard input. The exit status is success if and only if no executed command failed; help and version only print their text, an unknown switch is refused before anything is executed.",
 ["inputs", "configurations"],
 "All argument vectors over long and short switches in any order and all command sequences given as arguments, on standard input, or both.",
 "The test program does not contain the program entry point at all.",
 [CL+"main.c", CL+"commands/commands.c"],
 [("switch table and argument loop", CL+"main.c"), ("exit status accumulation", CL+"commands/commands.c")],
 ["exit status, standard output, standard error for an argument vector"])

prop("C21", "A terminal session gives the same results and marks the right error position",
 "On a terminal the calculator accepts the same commands and produces the same results and failures as when fed through a pipe, only adding prompts, headers and confirmations. For a rejected expression the marker printed below the input starts at and spans the first token from which the input cannot be continued (or one column behind the end of the input; for a wrong number of operands: the name of the function), and for a failed evaluation without rules the operator that failed or, inside a user-defined function, its call; a refused table argument or left side of a definition is marked as a whole.",
 ["inputs", "configurations"],
 "All command sequences, all malformed expressions and failing evaluations, with any spacing and token lengths and any message length relative to the position.",
 "The tests never run in interactive mode.",
 [UT+"console_util.c", CL+"core/arith_context.c", CL+"commands/"],
 [("token index carried by tree nodes", EN+"tree/node.c"), ("placement of the message left or right of the marker", UT+"console_util.c")],
 ["terminal output through a pseudo terminal"])

prop("C22", "Containers behave like their abstract models",
 "Under every sequence of operations, the growable array behaves like a sequence, the linked list like a sequence with stable element references, the prefix tree like a finite map from strings over the characters ! to | with longest-prefix lookup and ordered complete iteration, and the string builder like concatenation of formatted pieces. Iterators visit every element exactly once in order and can be reset.",
 ["histories"],
 "All sequences of operations with any element sizes and contents, any initial capacity including zero, insertions and deletions at all positions, keys that are prefixes of each other.",
 "The tests perform one fixed short sequence per container.",
 [UT+"vector.c", UT+"linked_list.c", UT+"trie.c", UT+"string_builder.c", UT+"iterator.c"],
 [("capacity growth", UT+"vector.c"), ("link maintenance", UT+"linked_list.c"), ("node pruning and depth-first iteration", UT+"trie.c")],
 ["results of every operation, compared with a reference model"])

prop("C23", "Running out of memory ends the program cleanly",
 "If any single allocation made by the calculator itself fails, at any moment of any session, the calculator either completes normally or prints a diagnostic that it is out of memory and terminates with failure status; it never crashes, corrupts memory, hangs or prints a wrong result.",
 ["fault_sequences", "histories"],
 "Every allocation made by the calculator in a set of sessions that together exercise every command, failed one at a time.",
 "The tests never inject faults; there are thousands of allocation points per session.",
 [UT+"alloc_wrappers.c", UT+"vector.c", UT+"trie.c", EN+"tree/node.c"],
 [("checked allocation wrappers", UT+"alloc_wrappers.c")],
 ["exit status, diagnostics and output under injected allocation failures"])

prop("C24", "Help shows the operators and definitions that are really in force",
 "The help commands list exactly the operators, functions and constants the expression language accepts, with the precedence, associativity, number of arguments and value each actually has and a description of it, and list every user-defined name once, in order of definition, with a left and right side that, entered again in a fresh session, define the same thing.",
 ["histories", "configurations"],
 "All operators and all sets of user definitions, after any history of definitions and clears.",
 "Nothing tests the help output.",
 [CL+"commands/cmd_help.c", CL+"core/arith_context.c", EN+"tree/tree_to_string.c"],
 [("tables generated from the operator list", CL+"commands/cmd_help.c")],
 ["help output compared with observed behaviour of each operator"])

prop("C25", "rand stays within its bounds and covers them",
 "rand(a, b) yields an integer at least a and less than b (after truncating both) whenever such an integer exists between them and -1 otherwise (bounds below 2^53 in magnitude). For small ranges every integer of the range occurs and none is strongly preferred, and sessions started at different times draw different series.",
 ["inputs"],
 "All bounds including negative, fractional, equal, reversed and huge ones; many draws per range.",
 "The tests contain no rand call because its result is not fixed.",
 [CL+"core/arith_evaluation.c"], [("reduction of the random number to the range", CL+"core/arith_evaluation.c")],
 ["printed values of many draws"])

prop("C26", "Every command is answered with bounded work",
 "Every command whose result does not inherently require more work is answered after a bounded number of execution steps: numeric functions need a number of steps independent of the magnitude of their operands, and evaluating, defining, clearing and parsing need steps at most polynomial in the length of the line. Simplifying an expression of up to about a dozen operands always comes to an end.",
 ["inputs"],
 "All finite, infinite and not-a-number operands for every numeric function; long lines of every syntactic shape; expressions of small size with the shipped rules.",
 "A hang cannot be seen by tests over a few small operands.",
 [CL+"core/arith_evaluation.c", EN+"transformation/rewrite_rule.c", CL+"simplification/simplification.c", EN+"parsing/parser.c"],
 [("loops over operand magnitude", CL+"core/arith_evaluation.c"), ("rewriting until no rule applies", EN+"transformation/rewrite_rule.c")],
 ["number of executed basic blocks per input line"])

prop("C27", "Tree operations obey the laws of terms and substitution",
 "Copies of a tree are equal to it, independent of it and carry the same source positions; equality is an equivalence that distinguishes any two different trees. Replacing a variable replaces exactly its occurrences, counts and lists of variables agree with the occurrences, and reducing constant parts neither changes the value nor leaves a reducible part behind.",
 ["inputs"],
 "All trees over all operators, variables and constants; all variable names and replacement trees, including replacements that contain the replaced variable.",
 "The tests check one or two hand-made trees per function.",
 [EN+"tree/tree_util.c", EN+"tree/node.c"],
 [("recursive traversals", EN+"tree/tree_util.c")],
 ["results of the tree functions, compared with reference terms"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
