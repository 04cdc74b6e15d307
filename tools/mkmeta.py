"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "acaciamc/"
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None,
         na=None, observe=()):
    P.append(dict(
        d={"id": id, "title": title, "statement": statement,
           "quantifier": {"over": over, "text": text},
           "why_tests_cant": why,
           "anchors": {"files": [A + f for f in files],
                       "mechanism": [{"name": n, "where": A + w}
                                     for n, w in mech],
                       "observe_at": list(observe) or
                       ["text of the generated .mcfunction files"],
                       "hook_needed": None}},
        claim=claim, na=na))


TESTS = ("The existing tests compare a handful of compiled programs with "
         "stored output or only check that they compile; ")

prop("C01", "Run-time integer arithmetic is 32-bit arithmetic",
     "Executing the commands generated for an assignment or augmented "
     "assignment of an integer expression (+, -, *, /, %, unary + and -, "
     "any nesting of literals, variables and compound operands, on either "
     "side) leaves in the target exactly the value of the expression in "
     "32-bit wrap-around arithmetic with truncating division. No other "
     "variable changes, also when the target occurs in the expression.",
     ["inputs", "programs"],
     "all 32-bit values of all variables and literals, all shapes and "
     "nestings of operands, all aliasings of target and operands",
     TESTS + "no test executes the commands, and no finite set covers all "
     "operand shapes, aliasings and values.",
     ["objects/integer.py", "mccmdgen/generator.py", "mccmdgen/cmds.py"],
     [("operation groups and their export", "objects/integer.py"),
      ("visit_BinOp / visit_UnaryOp / visit_AugmentedAssign / _assign",
       "mccmdgen/generator.py"),
      ("score commands", "mccmdgen/cmds.py")],
     claim=dict(level="proof", technique="contracts on the integer "
                "code-generation functions; obligations generated by path "
                "exploration of the real code, discharged by z3/cvc5",
                note="All obligations of the integer code discharged for "
                "all values; compound operands enter through their "
                "contract (induction hypothesis). Trusted: dv/sym.py, "
                "dv/mc.py command semantics. Bounded random whole "
                "programs (labelled) complement."))

prop("C02", "Constant folding agrees with run-time arithmetic",
     "An integer expression made only of constants is folded to the value "
     "the same expression has at run time whenever the exact mathematical "
     "result of every step fits 32 bits, including truncating division "
     "and remainder with negative operands and all comparisons. When a "
     "step does not fit 32 bits or divides by zero, compilation is "
     "rejected with an error and never continues with a wrong number.",
     ["inputs", "programs"],
     "all pairs of 32-bit constants and all operators, all nestings",
     TESTS + "2^64 operand pairs per operator; the sign and overflow "
     "corner cases are not sampled at all.",
     ["objects/integer.py", "mccmdgen/generator.py"],
     [("constant integer class and operator table", "objects/integer.py"),
      ("remainder / c_int_div", "objects/integer.py")],
     claim=dict(level="proof", technique="contracts on the constant "
                "folding functions; obligations discharged by z3",
                note="Folding proved equal to the exact/truncating "
                "specification for all 32-bit operands; the truncating "
                "division lemma is proved separately. Python integers "
                "are mathematical integers."))

prop("C03", "Boolean expressions and comparisons have their logical value",
     "Executing the commands generated for a boolean expression built from "
     "literals, variables, not, and, or, integer comparisons (chained, any "
     "operand kinds, any constants) and boolean == and != stores exactly "
     "its logical value (0 or 1) in the target and changes nothing else. "
     "Merging of comparisons with constants into ranges never changes the "
     "result.",
     ["inputs", "programs"],
     "all values of variables and constants, all operand classes, all "
     "operand lists, target aliasing an operand",
     TESTS + "boolean code is optimised by operand class (dozens of "
     "combinations) and by constant ranges, which samples do not cover.",
     ["objects/boolean.py", "objects/integer.py", "mccmdgen/generator.py"],
     [("and/or groups, range merging, export", "objects/boolean.py"),
      ("integer comparisons", "objects/integer.py"),
      ("visit_CompareOp / visit_BoolOp / visit_UnaryOp",
       "mccmdgen/generator.py")],
     claim=dict(level="proof", technique="contracts on the boolean "
                "code-generation functions; obligations discharged by "
                "z3/cvc5",
                note="All class combinations and all values; conjunctions "
                "of any length by induction over an abstract conjunction; "
                "abstract comparisons stand for any comparison by "
                "contract. Trusted: dv/sym.py, dv/mc.py."))

prop("C04", "Control flow runs the right statements the right number of times",
     "Executing the commands generated for if/elif/else, while and for "
     "statements, in any nesting and with any bodies, has the effect of the "
     "source statements run in order: exactly the branch selected by the "
     "value the condition had when it was evaluated runs, once, even when "
     "the branch changes what the condition depends on; a while loop "
     "re-evaluates its whole condition (function calls included) before "
     "every iteration and runs until it is false; a for loop runs its body "
     "once per item of the compile-time iterable in order; statements after "
     "the construct run exactly once.",
     ["inputs", "programs"],
     "all conditions of every operand class, all bodies, all variable "
     "values, any number of iterations",
     TESTS + "no test executes the commands; bodies that change the "
     "condition and loops of unbounded length cannot be sampled.",
     ["mccmdgen/generator.py", "objects/boolean.py"],
     [("visit_If, visit_While, visit_For, visit_stmts",
       "mccmdgen/generator.py"),
      ("as_execute / to_BoolVar of the condition", "objects/boolean.py")],
     claim=dict(level="proof", technique="contracts on the statement "
                "code-generation functions; while loops by a loop equation "
                "over an arbitrary continuation; obligations discharged by "
                "z3",
                note="All obligations discharged; bodies and conditions are "
                "abstract (uninterpreted) statements and booleans, so any "
                "nesting follows by induction. for: items lists of length "
                "up to 3 (the generator's loop body is the same per item). "
                "Bounded random programs complement."))

prop("C05", "Variables, structs and references store what was assigned",
     "After an assignment, a definition, a struct copy, a struct "
     "construction or a swap, the target holds the value the source had "
     "before it (field by field for structs, nested and inherited ones "
     "included) and every other variable is unchanged, also when source "
     "and target overlap; a reference (&x) denotes the very variable it "
     "was bound to; temporaries and internal scores never coincide with a "
     "variable or with each other while in use.",
     ["inputs", "programs", "histories"],
     "all values, all variables and fields, all overlaps of source and "
     "target, all allocation histories",
     TESTS + "aliasing and reuse of temporaries need specific combinations "
     "of expressions, and wrong values appear only when executed.",
     ["mccmdgen/generator.py", "compiler.py", "objects/struct.py",
      "objects/struct_template.py", "modules/builtins.py"],
     [("allocation of scores and temporaries", "compiler.py"),
      ("Struct.export / struct construction", "objects/struct.py"),
      ("_assign, visit_VarDef, visit_AutoVarDef, visit_ReferenceDef",
       "mccmdgen/generator.py"), ("swap", "modules/builtins.py")],
     claim=dict(level="proof", technique="contracts on storage code "
                "generation (source templates against scalar specification "
                "programs, all values), allocation invariant; z3",
                note="For each enumerated source shape the emitted commands "
                "are proved to meet the specification for all values. The "
                "allocation invariant is proved over abstract states of "
                "the allocator. Random whole programs and allocation "
                "histories are bounded complements."))

prop("C06", "Calls bind arguments and deliver results like the declaration says",
     "A call of a function (normal or inline, and calls nested in arguments, "
     "results, conditions and other calls) binds each argument to its "
     "parameter by position, keyword or default, evaluates every argument "
     "exactly once in order, runs the body once with by-value parameters "
     "copied, reference parameters (&) denoting the caller's variable and "
     "const parameters being the constant, and yields the result last given; "
     "variables, parameters and temporaries of caller and callee do not "
     "disturb each other. Calls that do not fit the declaration (missing, "
     "surplus, duplicate, unknown or wrongly typed arguments, wrong result "
     "type) are rejected with an error.",
     ["inputs", "programs"],
     "all bodies, argument expressions, argument shapes and values",
     TESTS + "no test executes a call; interference needs specific "
     "expressions around nested calls.",
     ["objects/functions.py", "mccmdgen/generator.py", "compiler.py"],
     [("ArgumentHandler.match", "objects/functions.py"),
      ("AcaciaFunction.call, InlineFunction.call", "objects/functions.py"),
      ("visit_FuncDef, visit_InlineFuncDef, visit_Result, visit_Call, "
       "call_inline_func", "mccmdgen/generator.py"),
      ("separate_tmps, allocate_tmp", "compiler.py")],
     claim=dict(level="proof", technique="contracts on call code "
                "generation with abstract bodies and abstract argument "
                "expressions; z3",
                note="vc_bind: bodies and argument expressions are "
                "uninterpreted, so the result holds for all of them; three "
                "parameters; the remaining contracts cover enumerated "
                "source shapes for all values. Recursion and arguments "
                "modifying variables read by the same expression are "
                "outside the specified fragment."))

prop("C07", "The optimizer does not change what the program does",
     "For every program and every configuration, the files emitted with the "
     "optimizer on do the same as those emitted with it off: started from "
     "the same scores at any entry point (main, interfaces, scheduled "
     "functions), they leave the same scores in every variable and run the "
     "same other commands (tellraw, raw commands and so on) in the same "
     "order under the same executors.",
     ["inputs", "programs", "configurations"],
     "all call graphs (cyclic ones included), all conditions on calls, all "
     "bodies and all values of max_inline_file_size",
     TESTS + "the optimizer tests check a few fixed programs for the number "
     "of files; whether merging is sound depends on what bodies read and "
     "write and on the whole call graph.",
     ["mccmdgen/optimizer.py", "mccmdgen/cmds.py", "compiler.py"],
     [("Optimizer: inlining, dead and empty file removal",
       "mccmdgen/optimizer.py"),
      ("scb_did_read / scb_did_assign / func_ref of commands",
       "mccmdgen/cmds.py")],
     claim=dict(level="proof", technique="relational contract on the "
                "optimizer passes (equations over arbitrary callee "
                "behaviour), obligations discharged by z3",
                note="Obligations range over call graphs of representative "
                "shape with arbitrary callee behaviour inside the frame the "
                "command classes declare; the frame declarations are proved "
                "separately (vc_frame). Bounded whole programs compared "
                "with and without optimizer complement."))


prop("C08", "The generated pack is closed, consistent and deterministic",
     "For every accepted program and every output configuration: every "
     "function a command calls or schedules, and every function of the "
     "tick list, exists under that path in the output; no two generated "
     "functions share a path; everything lies below the root folder and "
     "internal functions below the internal folder; each scoreboard "
     "objective in use is added exactly once, by the initialisation, "
     "before any use; every constant and internal flag is set before it "
     "is read, also with a separate init file. Names given in the "
     "configuration (root folder, main/init file, prefixes of scoreboard "
     "and tags) only rename, debug comments only add comments, and "
     "compiling the same source twice, in whatever process, gives "
     "identical files.",
     ["programs", "configurations"],
     "all programs, all configurations, all hash seeds",
     TESTS + "closure and initialisation depend on which constructs are "
     "combined with which options.",
     ["compiler.py", "mccmdgen/cmds.py", "mccmdgen/optimizer.py",
      "mccmdgen/generator.py"],
     [("OutputManager, generate_init, add_int_const, allocate",
       "compiler.py"), ("OutputManager / MCFunctionFile", "mccmdgen/cmds.py")],
     claim=dict(level="proof", technique="contracts on the output manager: "
                "closure invariant of the emitted files, initialisation "
                "proved for arbitrary constants, renaming equivalence "
                "between configurations; z3",
                note="Constructs: one template per kind of construct that "
                "creates files, scores, tags or tick commands, under every "
                "combination of the output options; constants symbolic. "
                "Random whole programs and compilations under several hash "
                "seeds are bounded complements."))

prop("C09", "Source text parses to what the grammar says",
     "An accepted program means what the documented grammar and precedence "
     "say: an expression without parentheses denotes the tree given by "
     "the precedence table (postfix operators, unary, * / %, + -, "
     "comparisons, not, and, or; binary operators left-associative, "
     "comparisons chained, and/or n-ary); an elif or else belongs to the "
     "if it is aligned with; a statement belongs to the block of its "
     "indentation; and the tree does not depend on redundant parentheses, "
     "blank lines, comments, amount of indentation, line continuation or "
     "white space.",
     ["inputs", "programs"],
     "all expressions and statements of the grammar, all layouts",
     TESTS + "the number of operator combinations and layouts is "
     "unbounded.",
     ["parser.py", "tokenizer.py", "ast.py"],
     [("Parser.expr, logic_expr, arithmetic levels, statement_block, "
       "*_stmt", "parser.py"), ("indentation handling", "tokenizer.py")],
     claim=dict(level="proof", technique="contracts on the parser at the "
                "level of meaning: source templates against fully "
                "parenthesised specifications, all operand values; z3",
                note="All triples and chosen quadruples of operators with "
                "atoms standing for any operand; longer expressions and "
                "all statement forms through bounded random trees printed "
                "in compact and free layout."))

prop("C10", "Lexemes denote the characters and values they spell",
     "A number literal denotes its value in its base (decimal, 0x, 0b, "
     "0o); a string literal or command denotes exactly its characters, "
     "with every escape sequence (\\\\, \\x, \\u, \\U, \\n, "
     "\\#, \\#(...) and escaped delimiters) replaced by what it stands "
     "for and every ${...} by the text of the constant; comments, blank "
     "lines and continuation contribute nothing; every identifier is one "
     "name. Malformed lexemes (unknown escape, unterminated string, "
     "comment, bracket or command, bad digit, unbalanced or inconsistent "
     "indentation, character that belongs to no token) are rejected.",
     ["inputs"],
     "all source texts",
     TESTS + "the space of texts is unbounded and each special character "
     "has a meaning in each of three kinds of text.",
     ["tokenizer.py"],
     [("Tokenizer: handle_number, read_escapable_char, handle_string, "
       "handle_command, handle_indentation", "tokenizer.py")],
     claim=dict(level="exploration", technique="contracts on the tokenizer "
                "decided by complete enumeration of its finite tables "
                "(every character, escape, pair of pieces, malformed "
                "form); bounded random sequences beyond",
                note="The tokenizer is a character automaton without "
                "arithmetic: its per-character tables are enumerated "
                "completely, sequences of length > 2 are sampled "
                "(bounded)."))


prop("C11", "A program is compiled or rejected with a located error",
     "For every source text the compiler either produces a pack or rejects "
     "the program with one of its documented errors; it never fails with an "
     "internal (Python) exception. The error is the kind the fault calls "
     "for; its message is complete, naming the operators, types, names and "
     "values concerned; its location (file, line, column) is that of the "
     "offending construct whatever text precedes it (blank lines, comments, "
     "multi-line commands, continuation lines) and wherever it stands (in a "
     "block, a function, an inline function expanded elsewhere, an imported "
     "module), and calls and imports that led there are listed. On the "
     "command line a rejected program gives exit status 1 and the located "
     "message, and leaves an existing output folder exactly as it was, "
     "also with --override-old. (Not included: compile-time programs that "
     "do not terminate or recurse without bound, and failures of the file "
     "system or of the chosen encoding while writing.)",
     ["inputs"],
     "all source texts",
     TESTS + "invalid programs are as varied as valid ones and the tests "
     "contain none.",
     ["error.py", "compiler.py", "cli.py", "tokenizer.py", "parser.py",
      "mccmdgen/generator.py"],
     [("Error, ErrorType, SourceLocation", "error.py"),
      ("Generator.error_c, fix_error_location, call_function",
       "mccmdgen/generator.py"),
      ("Compiler.raise_error, current_location", "compiler.py"),
      ("run, fatal", "cli.py")],
     claim=dict(level="exploration", technique="contracts on error kind, "
                "message, location, call frames and command line behaviour, "
                "decided by complete enumeration of an error table (142 "
                "programs, all reachable kinds but four) in every context "
                "and option set, and of all call sites against the message "
                "texts; bounded mutation of valid programs beyond",
                note="Absence of internal exceptions for all texts is "
                "sampled (bounded); the table covers every error kind that "
                "a program can reach except NON_RT_*, CANT_CREATE_ENTITY."))



prop("C17", "Entity variables and fields denote one entity each",
     "An entity variable denotes one entity. Assigning it (also from a "
     "parameter, a result, a struct field, a swap or a base template) "
     "makes it denote the same entity as the source and changes no other "
     "variable; creating an entity gives a new one of the template named, "
     "of the type and at the position given, initialised by its "
     "constructor. Reading, assigning and aug-assigning a field acts on "
     "the field of exactly the entity the variable denotes at that time, "
     "also when several variables denote the same entity; no other "
     "entity's field changes. Ill-formed templates (an attribute defined "
     "twice, attribute and method of the same name, no consistent order "
     "of bases) and ill-typed uses (a base entity where a derived one is "
     "needed) are rejected.",
     ["inputs", "programs"],
     "all aliasings of the entity variables, all field values, all "
     "32-bit operands, any number of entities in the world",
     TESTS + "no test has any entity in it; wrong aliasing shows only "
     "when two variables denote the same entity.",
     ["objects/entity.py", "objects/entity_template.py",
      "mccmdgen/generator.py"],
     [("TaggedEntity, EntityReference", "objects/entity.py"),
      ("EntityTemplate, default_entity_new", "objects/entity_template.py")],
     claim=dict(level="proof", technique="contracts on entity code "
                "generation: emitted tag/score/summon commands executed "
                "symbolically over a universe of arbitrary entities; z3",
                note="Universe: one arbitrary entity per variable plus one "
                "(commands treat entities pointwise); trusted: nothing "
                "else is at the place entities are summoned at, at least "
                "one player exists. Random programs over random template "
                "hierarchies are a bounded complement."))

prop("C18", "Methods run the implementation of the right template",
     "Calling a method of an entity runs, with `self` denoting that "
     "entity and the arguments given: for a virtual method the "
     "implementation of the template the entity was created from (the "
     "nearest in its method resolution order, which is Python's C3 order "
     "of the bases), whatever the template of the variable; for any other "
     "method, a static one, or a virtual one called through upcast(), the "
     "one found in the resolution order of the variable's (named) "
     "template. It runs exactly once, its result is the value of the "
     "call, and several calls in one expression or in one another do not "
     "disturb each other. Redefinitions of inherited methods are accepted "
     "exactly as the table in the documentation says.",
     ["inputs", "programs"],
     "all template hierarchies, all dynamic templates and aliasings of "
     "the entities, all arguments, inline and other implementations",
     TESTS + "no test creates an entity; dispatch depends on the template "
     "the entity has at run time.",
     ["objects/entity_template.py", "objects/functions.py"],
     [("_MethodDispatcher, _SimpleMethod, EntityTemplate.__init__",
       "objects/entity_template.py"),
      ("BoundMethod, BoundVirtualMethod", "objects/functions.py")],
     claim=dict(level="proof", technique="contracts on method binding, "
                "dispatch and constructors over symbolic entities of "
                "arbitrary templates; table of redefinitions enumerated; "
                "z3",
                note="Hierarchies: enumerated shapes; dynamic templates, "
                "aliasings, fields and arguments for all values. Random "
                "hierarchies are a bounded complement."))

prop("C19", "Entity groups are sets and filters select what they say",
     "An Engroup behaves as a set of entities: add, remove, extend, "
     "subtract, intersect, clear, copy, assignment and swap give the set "
     "of that name and change no other group; size, is_empty and has give "
     "its cardinality, emptiness and membership at that time; `for` runs "
     "its body once for every entity that was a member when the loop "
     "started; to_single gives the only member. select, drop and filter "
     "add, remove and keep exactly the entities that satisfy every "
     "condition of the Enfilter, where a limited condition (nearest_from, "
     "farthest_from, random) chooses among those the conditions before it "
     "left. Using a filter changes nothing else, nor a later use of it. "
     "ExternEngroup.resolve gives all its members the template.",
     ["inputs", "programs"],
     "all sets of members, all worlds (abstract predicates of type, tag, "
     "name, scores, position), all shapes of filters in the list",
     TESTS + "no test runs a filter; results depend on which entities "
     "the world has.",
     ["objects/entity_group.py", "objects/entity_filter.py",
      "objects/extern_egroup.py", "mccmdgen/mcselector.py"],
     [("EntityGroup", "objects/entity_group.py"),
      ("EntityFilter", "objects/entity_filter.py"),
      ("MCSelector", "mccmdgen/mcselector.py")],
     claim=dict(level="proof", technique="contracts on group and filter "
                "methods: emitted tag commands executed over arbitrary "
                "entities with uninterpreted predicates; z3",
                note="36 filter shapes x select/drop/filter x two uses in "
                "one world, 57 group programs; random programs are a "
                "bounded complement."))


prop("C20", "Scheduled functions run exactly when requested",
     "Counting one run of the tick function per game tick (the one named "
     "in tick.json) after main has run: a function registered with "
     "schedule.register_loop runs in the first tick and then every "
     "`interval` ticks for ever, for any interval >= 1 given as literal, "
     "variable or expression; schedule.Task.after(d), d >= 0, requested "
     "outside of the task's own function makes the function run exactly "
     "once, in the (d+1)-th tick from the request; a newer request "
     "replaces the pending one, cancel() drops it, a task that was never "
     "requested never runs; has_schedule() tells whether a request is "
     "pending. The function gets the arguments that were given, and "
     "several tasks and loops do not disturb each other. "
     "on_area_loaded, on_circle_loaded and on_tickingarea register the "
     "function for the area given, by one /schedule command where they are "
     "called; such requests are not seen by has_schedule.",
     ["inputs", "histories"],
     "all delays and intervals, all histories of ticks, requests and "
     "cancellations, functions with arguments and inline functions",
     TESTS + "no test runs a tick; timing is visible only over a history "
     "of ticks and requests.",
     ["modules/schedule.py", "compiler.py"],
     [("Task, register_loop", "modules/schedule.py"),
      ("tick file and tick.json", "compiler.py")],
     claim=dict(level="proof", technique="contracts on the schedule "
                "module: emitted tick and request commands proved against "
                "the timing specification for all delays, intervals and "
                "values; z3",
                note="For all delays/intervals; histories of up to 7 ticks "
                "unrolled plus the inductive step of the loop timer for "
                "any number of ticks (vc_loop_step). Random histories are "
                "a bounded complement."))

prop("C21", "Functions of the math module compute what they document",
     "math.min, math.max, math.mod, math.floordiv, math.pow and "
     "math.randint give, for all argument values and for any mixture of "
     "constant and run-time arguments, the documented value: the minimum / "
     "maximum of any number of arguments; the floored quotient and the "
     "remainder with the sign of the divisor (non-zero divisor); the "
     "32-bit wrapped power for exponents >= 0; any number within the two "
     "inclusive bounds. They change no argument and no other variable. "
     "Constant arguments the documentation excludes (zero divisor, "
     "negative constant exponent, empty min/max) are rejected with an "
     "error.",
     ["inputs"],
     "all 32-bit values of all arguments, all constant/run-time mixtures",
     TESTS + "no test executes the commands, and sign and overflow corner "
     "cases are not sampled.",
     ["modules/math.py"],
     [("min, max, mod, floordiv, pow, randint", "modules/math.py")],
     claim=dict(level="proof", technique="contracts on the functions of "
                "the math module; loop invariant for pow; z3",
                note="All values. pow with a run-time exponent: the "
                "emitted loop is proved by an invariant in the exponent "
                "(vc_pow_var; when a refactoring makes the invariant "
                "inapplicable the obligation is undecided and only the "
                "bounded check covers it)."))

prop("C22", "Formatted text is shown as composed, with the current values",
     "The text shown by print.tell, print.tellraw and print.title for an "
     "fstring is the composition the documentation gives: format fields "
     "(%0, %{n}, %{name}, %%) are replaced by their arguments, "
     "concatenation and nested fstrings keep order, the characters of "
     "literal strings come out unchanged (quotes, backslashes, percent "
     "signs, unicode), and each run-time integer or boolean expression is "
     "shown with the value it has when the text is shown, for every "
     "value; formats with unknown or missing fields are rejected. "
     "with_font applies its style to its text and nothing else.",
     ["inputs", "programs"],
     "all strings, all format strings, all nestings of fstrings, all "
     "values of the expressions shown",
     TESTS + "no test looks at the text shown; escaping and field "
     "numbering have unbounded input spaces.",
     ["modules/print.py"],
     [("format, tell, tellraw, title, with_font, fstring composition",
       "modules/print.py"),
      ("rawtext commands", "mccmdgen/cmds.py")],
     claim=dict(level="proof", technique="contracts on the print module "
                "(emitted rawtext against the documented composition, all "
                "values); z3",
                note="Enumerated format shapes, all values of the "
                "expressions; random strings and nestings are a bounded "
                "complement."))


prop("C12", "Strings and numbers reach the commands intact",
     "A string of the source that is written into a command (tag names, "
     "player names, entity names in summon commands and selectors, "
     "scoreboard names, recipes, chat texts, JSON components, raw commands "
     "with ${}) is read back by the game as exactly that string: it stays "
     "one argument, whatever special characters, quotes, backslashes, "
     "spaces or non-ASCII characters it has (line breaks excluded). "
     "Integer and float constants of the source are written as decimal "
     "numerals (no exponent) of the same value, integers only within the "
     "32-bit range, and every line of every output file is one complete "
     "well-formed command or comment.",
     ["inputs", "programs"],
     "all strings without line breaks, all finite decimal floats, all "
     "32-bit integers, in every context that writes them",
     TESTS + "no test puts special characters in a command argument or "
     "looks at how numbers are written.",
     ["mccmdgen/cmds.py", "modules/world.py", "objects/entity_template.py",
      "objects/entity_filter.py", "objects/position.py"],
     [("mc_str, mc_selector and command formatting", "mccmdgen/cmds.py"),
      ("functions that take strings and numbers", "modules/world.py"),
      ("filters", "objects/entity_filter.py")],
     claim=dict(level="exploration", technique="contracts on the functions "
                "that write strings and numbers into commands (read-back "
                "by an independent reader equals the source value), "
                "enumerated over contexts, characters and pairs",
                note="Each character of the enumerated blocks in five "
                "placements and each pair of special characters in every "
                "context; random strings are a bounded complement. Block "
                "states, entity type and item identifiers are written as "
                "they are and outside the property."))

prop("C24", "Positions, rotations and world functions act where and as "
     "stated",
     "Each function of the world module writes the command its "
     "documentation states, with each argument (documented defaults "
     "included) in its place, executed at the position, with the rotation, "
     "anchor and dimension that the Pos, Rot and Offset arguments denote "
     "after their chain of methods (offset, local, align, apply_offset, "
     "dim, face, face_entity ...), each step applied in order; a position or rotation "
     "derived from another leaves the original unchanged, block and entity "
     "tests hold exactly when the documented condition does and leave the "
     "executing context of the guarded statements alone, and entity "
     "arguments select exactly the given entity.",
     ["inputs", "programs"],
     "all functions, all combinations of optional arguments, all chains of "
     "position and rotation methods, all executing contexts",
     TESTS + "no test runs a world function; the combinations of optional "
     "arguments and method chains are unbounded.",
     ["modules/world.py", "objects/position.py", "objects/position_offset.py",
      "objects/rotation.py"],
     [("commands and tests", "modules/world.py"),
      ("Pos", "objects/position.py"),
      ("Offset", "objects/position_offset.py"),
      ("Rot", "objects/rotation.py")],
     claim=dict(level="exploration", technique="contracts on the world "
                "functions and position methods (context transformer of "
                "the emitted execute chain equals the documented one)",
                note="Every function with every optional argument and every "
                "single and double method step under contract; longer "
                "random chains are bounded. Context transformers are "
                "compared as normalised symbolic terms."))


prop("C13", "Modules are found, initialised once and bound as the import "
     "says",
     "An import names exactly one file: built-in modules first, then the "
     "folder of the main file (leading dots: that folder and its parents), "
     "following the dotted names; several names for one file are one "
     "module. The top-level statements of a module run exactly once per "
     "run of the main file, at the first import of it that is reached at "
     "run time (also under conditions, in functions, in interfaces and "
     "through other modules), before anything after that import. import, "
     "as, from-import (each listed name and alias) and * bind the module's "
     "own variables, functions, types and constants -- the same variable "
     "under every name, separate from equally named ones elsewhere -- and "
     "nothing private or imported by the module; missing modules, missing "
     "names, circular imports and shadowing are rejected.",
     ["programs", "histories"],
     "all module graphs, import forms and placements, all values of the "
     "conditions, all sequences of entries (main, interfaces)",
     TESTS + "the only import test parses the statement; initialisation "
     "order depends on run-time conditions and module graphs.",
     ["compiler.py", "mccmdgen/generator.py", "objects/module.py",
      "mccmdgen/symbol.py"],
     [("find_module, parse_module, import caching", "compiler.py"),
      ("visit_Import, visit_FromImport, visit_FromImportAll",
       "mccmdgen/generator.py"),
      ("exports", "objects/module.py")],
     claim=dict(level="proof", technique="contracts on programs with "
                "modules (emitted commands executed symbolically from "
                "arbitrary scores against a flag-by-flag specification), "
                "find_module against its documented search; z3",
                note="All acyclic import graphs of three modules with each "
                "pair of import forms, all values of the conditions; "
                "random graphs of up to five modules are a bounded "
                "complement. Imports inside an inline function that is "
                "called in the middle of an expression are outside."))


prop("C14", "Interfaces are the files and the effects they declare",
     "Each interface with commands becomes the file of its path below the "
     "root folder, whatever statement or module defines it, and running "
     "that file has the effect of the interface's body from any state "
     "after main: in any order, any number of times, without being run by "
     "main or by its surroundings and without disturbing other variables; "
     "the optimizer keeps it. Exactly the paths made of the allowed "
     "characters in non-empty segments other than . and .. are accepted; "
     "paths of the compiler's own files (main file, internal folder, init "
     "file when split) and second definitions of a path are rejected, "
     "without regard to the case of letters.",
     ["inputs", "programs", "histories"],
     "all paths, all configurations of the compiler's own names, all "
     "bodies and placements, all sequences of calls after main",
     TESTS + "no test has an interface run, or a path that is invalid, "
     "reserved or duplicate.",
     ["mccmdgen/generator.py", "compiler.py", "tokenizer.py"],
     [("visit_InterfaceDef", "mccmdgen/generator.py"),
      ("is_reserved_path, lookup_interface, add_interface", "compiler.py"),
      ("handle_interface_path", "tokenizer.py"),
      ("entry_files", "compiler.py")],
     claim=dict(level="exploration", technique="contracts on interface "
                "paths (enumerated against the rules, down to the written "
                "file) and on the effect of interface bodies (emitted "
                "commands executed symbolically, all values); z3",
                note="All paths of up to four characters over an alphabet "
                "with every class of character, every single character up "
                "to U+017F, configured names in every case; effects for "
                "all values on a table of placements; random programs are "
                "a bounded complement."))


prop("C15", "Lists and maps hold the elements their operations say",
     "Compile-time lists and maps behave like their documented operations "
     "in run-time code and in const functions: list literals, list.range, "
     "repeat, geometric, list(x), copy, slice and cycle (Python's slices "
     "and ranges), size, indexing from both ends, + and *; map literals, "
     "map(keys, values), from_keys, get, has, keys, values, size, copy and "
     "indexing, in insertion order, the last value winning, keys of "
     "different types being different keys; append, extend, insert, "
     "reverse, pop, element assignment, update, set_default and clear on "
     "mutable ones change exactly that list or map, copies being "
     "independent. for runs its body once per element in order. Wrong "
     "indices, keys, steps and counts are rejected.",
     ["inputs", "programs"],
     "all elements, indices, slices, keys and sequences of operations",
     TESTS + "the tests use a handful of lists and no map.",
     ["objects/list_.py", "objects/map_.py", "mccmdgen/generator.py"],
     [("AcaciaList, CTConstList, CTList", "objects/list_.py"),
      ("Map, CTConstMap, CTMap", "objects/map_.py"),
      ("visit_For", "mccmdgen/generator.py")],
     claim=dict(level="exploration", technique="contracts on every list and "
                "map operation (symbolic 32-bit elements, enumerated "
                "shapes, indices and keys) against a reference "
                "interpreter; z3",
                note="Elements are symbolic; lists up to five elements, all "
                "indices and slice bounds in a window around them, all "
                "pairs of keys from twelve, all sequences of three "
                "mutating operations from a table; longer ones are a "
                "bounded complement."))


prop("C16", "Const functions compute the value of their body at compile "
     "time",
     "A call of a const function is the constant that its statements "
     "compute: arguments bound as declared (positional, keyword, default, "
     "type-checked), assignments, references, if, while and for executed "
     "in order with 32-bit integers (overflow and division by zero are "
     "rejected), nested calls and recursion included; the last result "
     "statement reached gives the value and does not stop the function. "
     "Calls emit no commands, give the same value each time and change "
     "nothing outside: neither the constants passed or used nor the "
     "names of the caller. Run-time values and run-time statements inside "
     "are rejected, and so is a value of the wrong type.",
     ["inputs", "programs"],
     "all functions and all constant arguments",
     TESTS + "one test calls one const function.",
     ["mccmdgen/ctexecuter.py", "mccmdgen/ctexpr.py",
      "mccmdgen/generator.py", "objects/functions.py"],
     [("CTExecuter", "mccmdgen/ctexecuter.py"),
      ("ccall_const_func, visit_ConstFuncData", "mccmdgen/generator.py"),
      ("AcaciaCTFunction, CTArgHandler", "objects/functions.py")],
     claim=dict(level="exploration", technique="contracts on const functions "
                "(the real compile-time executer run on symbolic integers, "
                "path by path, against a reference interpreter); z3",
                note="A table of functions covering each statement and "
                "expression form, all integer arguments symbolic; random "
                "functions are a bounded complement. Assigning a "
                "parameter that was passed a variable of another const "
                "function, changing a list while it is iterated, and "
                "failures in operands that cannot matter are outside."))


prop("C23", "The command line does what its options say",
     "acacia FILE compiles FILE (and the modules beside it) and writes "
     "exactly the files of the program: to -o PATH or to FILE's name with "
     ".acaout, below the function folder (-f), with the main file (-m), "
     "init file (-i), internal folder, objective prefix (-s), entity tag "
     "(-t), version (-v), edition (-e), optimizer (-O), inline size and "
     "debug comments (-d) given, each option affecting nothing else, alone "
     "or combined; text is read and written in --encoding. tick.json lists "
     "existing functions as valid JSON. -u removes the old contents of the "
     "function folder and nothing else; without it only the files of the "
     "program change; files elsewhere are never touched. Invalid names, "
     "versions, sizes, clashing or unknown options, missing files and "
     "undecodable sources end with a non-zero status and a message, and "
     "write nothing.",
     ["inputs", "configurations"],
     "all combinations of options, output states and encodings",
     TESTS + "no test runs the command line.",
     ["cli.py", "compiler.py"],
     [("build_argparser, get_config, run", "cli.py"),
      ("output, _write_file, _read_file", "compiler.py")],
     claim=dict(level="exploration", technique="contracts on the command "
                "line (the real entry point run in a scratch folder, its "
                "output tree compared with the specification) over "
                "enumerated options",
                note="All pairs of options; tables of values, places and "
                "encodings. What the compiled commands mean is the subject "
                "of the other properties. Failures of the file system "
                "while writing are outside."))


def main():
    P.sort(key=lambda p: p["d"]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["d"]) + "\n")
    man = {"version": 1,
           "setup_cmd": "python3-vt -c 'import z3, sys; "
           "sys.path.insert(0, \".\"); import dv.registry'",
           "checks": [], "not_applicable": [],
           "notes": "run.py <id> [quick|thorough]; dv/ is the verifier."}
    for p in P:
        i = p["d"]["id"]
        if p["claim"]:
            c = p["claim"]
            man["checks"].append({
                "property": i,
                "quick_cmd": "python3-vt run.py %s quick" % i,
                "thorough_cmd": "python3-vt run.py %s thorough" % i,
                "technique": c["technique"], "level": c["level"],
                "level_note": c["note"],
                "evidence_file": "evidence/%s.json" % i})
        else:
            man["not_applicable"].append({"property": i, "reason": p["na"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
