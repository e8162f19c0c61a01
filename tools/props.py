"""Writes properties.jsonl and MANIFEST.json (the single place both are kept)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "acaciamc/mccmdgen/generator.py"
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                      why=why, files=files, mech=mech, technique=technique, level=level,
                      note=note))


REF = "TLA+ refinement (TLC): compiled commands against source semantics"
NOTE = ("TLC executes the commands the real compiler wrote on a TLA+ model of Minecraft and compares "
        "every observation with a TLA+ semantics of the source language; assurance is bounded by the "
        "generated programs, inputs and the fidelity of the Minecraft model.")
TESTS = ("The existing tests only tokenize, parse, compile a few sample programs and test the output "
         "optimizer's file list; no test ever executes generated commands, so nothing they do depends on "
         "what the commands compute; ")

prop("C01", "Integer expressions compute 32-bit arithmetic",
     "When a program runs, every integer expression evaluates to the value its operators define on 32-bit "
     "integers: wrap-around addition, subtraction, multiplication and negation, division truncating toward "
     "zero, remainder with the sign of the dividend, and minimum/maximum. The value does not depend on how "
     "operands are grouped in parentheses, whether they are literals, variables, fields, scores or calls, nor on "
     "where the result is stored; evaluating an expression never changes its operands.",
     ["programs", "inputs"], "all integer expressions over all operand kinds and all 32-bit operand values",
     TESTS + "they cannot range over expression shapes and operand values.",
     ["acaciamc/objects/integer.py", G, "acaciamc/modules/math.py"],
     [("arithmetic command groups", "acaciamc/objects/integer.py"), ("binary operator dispatch", G)],
     REF, "translation_validation", NOTE)
prop("C02", "Comparisons and boolean operators give the right truth value",
     "Every comparison, comparison chain, equality of booleans, and any combination of not/and/or evaluates to the "
     "truth value ordinary logic gives for the operands' values, in every position: condition, stored value, "
     "argument, operand, conversion to an integer. A chain a < b < c means a < b and b < c.",
     ["programs", "inputs"], "all boolean expressions over all operand kinds, positions and 32-bit values",
     TESTS + "they cannot range over nested conditions and boundary values such as the extreme integers.",
     ["acaciamc/objects/boolean.py", "acaciamc/objects/integer.py", G],
     [("boolean command groups and negation", "acaciamc/objects/boolean.py"), ("comparison", "acaciamc/objects/integer.py")],
     REF, "translation_validation", NOTE)
prop("C03", "Branches and loops run exactly the code their conditions select",
     "An if statement runs exactly one of its branches, chosen by the value its condition has when the statement is "
     "reached, even if the chosen branch changes what the condition reads. A while loop re-evaluates its whole condition "
     "before every iteration and runs its body exactly as long as it holds; the same is true at any nesting depth.",
     ["programs", "inputs"], "all nestings of if/elif/else/while with conditions that depend on what the bodies change",
     TESTS + "they cannot cover interactions between conditions and bodies.",
     [G, "acaciamc/mccmdgen/optimizer.py", "acaciamc/compiler.py"],
     [("if and while lowering", G), ("inlining of conditional files", "acaciamc/mccmdgen/optimizer.py")],
     REF, "translation_validation", NOTE)
prop("C04", "A variable holds the value last assigned to it",
     "A variable (global, local, parameter, field or score) keeps the value last assigned to it until the program "
     "assigns it again; defining, assigning, swapping or computing other things never changes it. Two differently declared "
     "variables never share storage, and a value held for use later in a statement is not disturbed by functions called meanwhile.",
     ["programs", "inputs"], "all sequences of definitions, assignments, augmented assignments, swaps and calls",
     TESTS + "storage reuse only fails on particular mixes of statements.",
     ["acaciamc/compiler.py", G, "acaciamc/objects/integer.py", "acaciamc/objects/boolean.py", "acaciamc/mccmdgen/expr.py"],
     [("score allocation and temporary scores", "acaciamc/compiler.py"), ("assignment", G)],
     REF, "translation_validation", NOTE)
prop("C05", "Calling a function runs its body on the argument values",
     "Calling a function evaluates its arguments, binds them to the parameters by position, keyword or default value, runs "
     "the body once, and yields the value of the last result statement executed. Parameters and locals are private to the "
     "function: assigning them does not change the caller's variables, and nested or repeated calls in one expression each use their own arguments.",
     ["programs", "inputs"], "all call shapes (positional, keyword, default, nested) of all non-recursive run-time functions",
     TESTS + "argument passing only shows in executed code.",
     ["acaciamc/objects/functions.py", "acaciamc/mccmdgen/expr.py", G],
     [("argument matching", "acaciamc/mccmdgen/expr.py"), ("function call and result copy", "acaciamc/objects/functions.py")],
     REF, "translation_validation", NOTE)
prop("C06", "Inline functions behave as if their body ran at the call",
     "Calling an inline function behaves as running its body at the call: a by-value parameter is a private copy, a reference "
     "parameter is the caller's variable itself, a constant parameter is the given constant. A reference result is the very "
     "variable named in the body; reference and constant definitions make another name for the same variable or constant, in functions and at top level.",
     ["programs", "inputs"], "all combinations of parameter and result passing modes, nested inline calls, aliases",
     TESTS + "no test executes an inline function.",
     [G, "acaciamc/objects/functions.py", "acaciamc/mccmdgen/symbol.py"],
     [("inline expansion", G), ("passing modes", "acaciamc/objects/functions.py")],
     REF, "translation_validation", NOTE)
prop("C07", "Optimization and output settings never change behaviour",
     "Running the output gives the same observable behaviour whether optimization is on or off, for every size limit of inlined "
     "functions, with or without a separate initialization file or debug comments, and for any names chosen for scoreboard, tag, main file and folders.",
     ["programs", "inputs", "configurations"], "all programs under all those options",
     TESTS + "one test compares optimized file lists for a few snippets, none compares behaviour.",
     ["acaciamc/mccmdgen/optimizer.py", "acaciamc/compiler.py", "acaciamc/mccmdgen/cmds.py"],
     [("optimizer passes", "acaciamc/mccmdgen/optimizer.py"), ("output manager", "acaciamc/compiler.py")],
     REF, "translation_validation", NOTE)
prop("C08", "Values computed at compile time are the values ordinary evaluation gives",
     "Constants, const functions, lists, maps, strings, formatted text, and conditions and loops over them evaluate while compiling "
     "exactly as written: in order, with references and shared lists changed in place, results of const functions fixed once returned. "
     "An evaluation without a defined value (an index or key that does not exist, overflow, division by zero, a wrong type or an "
     "unknown name) is reported as an error; it never yields some other value.",
     ["programs"], "all compile-time programs: nested values, mutation through references, recursion, every list and map operation",
     "The existing tests compile a few sample programs; no test evaluates list or map operations, aliasing or erroneous evaluations.",
     ["acaciamc/mccmdgen/ctexecuter.py", "acaciamc/mccmdgen/ctexpr.py", "acaciamc/objects/list_.py", "acaciamc/objects/map_.py",
      "acaciamc/objects/float_.py", "acaciamc/objects/string.py", "acaciamc/objects/functions.py", "acaciamc/tools/axe.py"],
     [("const function execution", "acaciamc/mccmdgen/ctexecuter.py"), ("lists and maps", "acaciamc/objects/list_.py"),
      ("argument conversion", "acaciamc/tools/axe.py")],
     "TLA+ trace checking (TLC): the printed text of compile-time programs against an evaluator in TLA+", "translation_validation",
     "A TLA+ evaluator replays each generated program statement by statement and checks every line the compiled program prints, "
     "or that it was rejected; valid programs are produced by letting the specification drop undefined statements, invalid ones by "
     "mutation. Bounded by the generated programs; floats are modelled as eighths.")
prop("C09", "Structures are copied by value, field by field",
     "Assigning, passing, returning or building a structure copies the value of each of its fields, including nested structures and "
     "inherited fields, so later changes to one copy never show in another. Each field is independent of every other field, and "
     "constructor arguments that mention the variable being assigned see its old value.",
     ["programs", "inputs"], "all structure types (nesting, inheritance) and all statements that move structures",
     TESTS + "no test executes structure code.",
     ["acaciamc/objects/struct.py", "acaciamc/objects/struct_template.py", G],
     [("field-wise export", "acaciamc/objects/struct.py"), ("construction", G)],
     REF, "translation_validation", NOTE)
prop("C10", "Entity variables denote one entity and fields belong to it",
     "A variable of an entity type denotes the entity it was last given; creating an entity makes exactly one new entity of the "
     "given type, name and place and runs its new method on it. A field belongs to the entity, not to the variable: reading it "
     "through any variable that denotes the entity gives the value last assigned through any of them, and other entities' fields stay as they were.",
     ["programs", "inputs"], "all sequences of creation, assignment, swapping, field access, scores and commands on entities, also killed ones",
     TESTS + "no test executes entity code.",
     ["acaciamc/objects/entity.py", "acaciamc/objects/entity_template.py", "acaciamc/compiler.py", "acaciamc/mccmdgen/cmds.py"],
     [("entity tags and scores", "acaciamc/objects/entity.py"), ("creation", "acaciamc/objects/entity_template.py")],
     REF, "translation_validation", NOTE)
prop("C11", "Methods run on their entity and virtual calls follow its template",
     "Calling a method runs its body once with self denoting the entity it was called on. A virtual method runs the "
     "override that belongs to the template the entity was created with, whatever the declared type of the expression; other methods are chosen by the "
     "declared type. With several base templates the implementation is found in the resolution order (derived before base, bases left to right).",
     ["programs", "inputs"], "all template hierarchies (several bases, overrides, static, virtual, inline methods) and call sites",
     TESTS + "dispatch only shows in executed code.",
     ["acaciamc/objects/entity_template.py", "acaciamc/objects/functions.py", "acaciamc/objects/entity.py"],
     [("virtual dispatcher generation", "acaciamc/objects/entity_template.py"), ("bound methods", "acaciamc/objects/functions.py")],
     REF, "translation_validation", NOTE)
prop("C12", "Entity groups behave as sets of entities",
     "Every group operation (add, remove, clear, select, filter, drop, extend, subtract, intersect, copy) leaves in the group exactly the living "
     "entities the corresponding set operation gives and changes no other group. Size, emptiness and membership agree with that "
     "set, and iterating runs the body exactly once for each member, with the loop variable denoting it.",
     ["programs", "inputs"], "all sequences of operations on groups, also inside functions and loops over groups",
     TESTS + "no test executes group code.",
     ["acaciamc/objects/entity_group.py", G],
     [("group operations", "acaciamc/objects/entity_group.py"), ("iteration", G)],
     REF, "translation_validation", NOTE)
prop("C13", "Entity filters select exactly the entities that meet their conditions",
     "A filter selects the living entities that meet its conditions applied in the order they are written: plain conditions "
     "keep the entities that satisfy them, random, nearest and farthest keep the given number of those that are left. "
     "This holds for every combination and order of conditions, and extending a named filter does not change the named one.",
     ["programs", "inputs"], "all sequences of filter conditions over worlds of entities with random attributes",
     TESTS + "no test selects an entity.",
     ["acaciamc/objects/entity_filter.py", "acaciamc/mccmdgen/mcselector.py", "acaciamc/objects/position.py"],
     [("selector construction and splitting", "acaciamc/objects/entity_filter.py"), ("selector text", "acaciamc/mccmdgen/mcselector.py")],
     REF, "translation_validation", NOTE)

prop("C14", "Modules: each file is read once, names mean the same everywhere",
     "A project of several files is accepted exactly when every imported file and every used name exists, no name is defined twice in one scope, and no file imports itself through others. "
     "An imported name is the very thing its file defines; a file provides the names it defines itself that do not start with an underscore, and inline functions see the names of the file that defines them. "
     "A file's statements run once, when an import of it is first reached at run time, however many imports and spellings lead to it, and splitting a program over files changes nothing.",
     ["programs", "schedules"], "all import graphs, import forms and positions, and all orders in which main and the interfaces run",
     TESTS + "no test compiles a project of several files.",
     ["acaciamc/compiler.py", G, "acaciamc/mccmdgen/symbol.py", "acaciamc/objects/module.py", "acaciamc/ast.py", "acaciamc/parser.py"],
     [("module lookup, cache and load flags", "acaciamc/compiler.py"), ("import statements and scopes", G), ("exports", "acaciamc/objects/module.py")],
     "TLA+ elaboration of raw projects and refinement (TLC)", "translation_validation",
     "TLC binds the names of the raw project, decides whether it is valid, and compares the commands of the compiled project with the "
     "elaborated program in every order of entry points; bounded by the generated projects.")

SRCNOTE = ("TLC scans and parses the characters of each text, decides whether it is a program and where it goes wrong, and compares the commands "
           "of the compiled ones with the meaning it derived; bounded by the generated texts and inputs.")
prop("C18", "Layout does not change meaning",
     "Blanks, line and long comments, line continuations, line ends inside brackets, blank lines, the width of each indentation step and the line-end style "
     "separate tokens, statements and blocks and have no other effect; string and command texts stand for exactly the characters their escapes and long form say. "
     "A text whose brackets, quotes, comments or indentation are not well formed is refused, never crashes the compiler, and the line reported is a line of the offence.",
     ["programs", "inputs"], "all layouts of all programs, and all damaged texts",
     TESTS + "the tests use one tidy layout.",
     ["acaciamc/tokenizer.py", "acaciamc/parser.py"],
     [("scanner: lines, indentation, comments, text modes", "acaciamc/tokenizer.py"), ("parser", "acaciamc/parser.py")],
     "TLA+ scanner, grammar and semantics of source text, refinement (TLC)", "translation_validation", SRCNOTE)
prop("C19", "Operators, statements and declarations group, type and bind as the grammar says",
     "Every expression is evaluated with the documented precedence and associativity of its operators (signs, * / %, + -, chained comparisons, not, and, or), redundant parentheses change nothing, "
     "and branches belong to the condition they follow. "
     "A program is accepted exactly when it follows the grammar, its operands, conditions, assignments, arguments and results have the types they need, and its names are defined, once per scope; "
     "otherwise it is refused with the line of the statement that is wrong.",
     ["programs", "inputs"], "all programs over integers, booleans, text, constants, references and functions, correct or not",
     TESTS + "grouping only shows in the values computed.",
     ["acaciamc/parser.py", "acaciamc/ast.py", G, "acaciamc/objects/integer.py", "acaciamc/objects/boolean.py"],
     [("precedence climbing", "acaciamc/parser.py"), ("static checks", G)],
     "TLA+ scanner, grammar and semantics of source text, refinement (TLC)", "translation_validation", SRCNOTE)

CLINOTE = ("Histories of real compiler processes over a scratch directory are recorded step by step and TLC judges every step "
           "with the TLA+ state machine; assurance is bounded by the histories and projects generated.")
prop("C22", "The same sources and options always give the same output",
     "Which files a compilation writes and every byte in them depend only on the source files and the options that affect code: "
     "not on earlier runs, the output path, the working directory, how paths are spelled, locale, hash seeds or memory layout. "
     "Whether a program is accepted does not depend on these either.",
     ["programs", "histories", "configurations"], "all projects, options, and sequences of runs in any environment",
     TESTS + "variation between runs only shows when the same project is compiled many times in different environments.",
     ["acaciamc/compiler.py", "acaciamc/mccmdgen/optimizer.py", "acaciamc/cli.py"],
     [("allocation of scores and files", "acaciamc/compiler.py"), ("optimizer file order", "acaciamc/mccmdgen/optimizer.py")],
     "TLA+ state machine of compiler runs, trace checking (TLC)", "model_checking", CLINOTE)
prop("C25", "A run only changes what it should; wrong use changes nothing",
     "A successful run writes exactly the main file, the init file if asked for, one file per interface that has commands, the internal files and, if the program needs ticks, tick.json below the output path; "
     "with -u the function folder is emptied first, and every other file stays as it is. "
     "Wrong options, missing files, interface paths the compiler needs for itself and rejected programs end with an error message and a non-zero exit status, and leave all files as they are.",
     ["histories", "configurations"], "all sequences of runs with all options, right or wrong, over all directory trees",
     TESTS + "no test runs the command line program.",
     ["acaciamc/cli.py", "acaciamc/compiler.py", "acacia.py"],
     [("options", "acaciamc/cli.py"), ("output", "acaciamc/compiler.py")],
     "TLA+ state machine of compiler runs, trace checking (TLC)", "model_checking", CLINOTE)
prop("C15", "Tasks and loops run exactly when they should",
     "A task's target runs once, after the requested number of game ticks have passed since the last request and with the arguments given to the task, unless the request is cancelled or replaced first; has_schedule tells whether a request is pending. "
     "A registered loop runs its target in the next tick and then every so many ticks, with the interval and arguments that then hold, and any number of tasks and loops, also requested from functions, branches or interfaces, keep out of each other's way.",
     ["programs", "histories", "schedules"], "all programs with tasks and loops, over all histories of ticks and interface runs",
     TESTS + "timing only shows when ticks and requests are interleaved.",
     ["acaciamc/modules/schedule.py", "acaciamc/compiler.py"],
     [("tasks and loops", "acaciamc/modules/schedule.py"), ("tick file", "acaciamc/compiler.py")],
     REF, "translation_validation", NOTE)
prop("C17", "Projects with their own names and prefixes do not affect each other",
     "Two projects compiled with different scoreboard prefixes, tag prefixes and file names or folders can be installed in one world: each behaves as if it were alone, in whatever order their functions run (the compiler numbers its names, so no prefix may be the other one followed by digits). "
     "These options rename what the compiler creates and change nothing else.",
     ["programs", "histories", "configurations"], "all pairs of programs, options, and interleavings of their entry points",
     TESTS + "interference only shows when two outputs run in the same world.",
     ["acaciamc/compiler.py", "acaciamc/cli.py", G],
     [("scores, tags and file names", "acaciamc/compiler.py"), ("options", "acaciamc/cli.py")],
     REF, "translation_validation", NOTE)
prop("C21", "Texts show the right words, values and fonts to the right players",
     "Formatting puts each argument where the pattern names it and leaves all other text as written; a shown text has the values its expressions have when it is shown, also when texts are concatenated, named or nested. "
     "Fonts apply to exactly the text they are given, inner ones taking priority; titles go to the chosen place with the chosen times, which do not affect later titles, and every text reaches exactly the players selected.",
     ["programs", "inputs"], "all texts, patterns, arguments, fonts, targets and values",
     TESTS + "they cannot range over texts and never show one.",
     ["acaciamc/modules/print.py", "acaciamc/mccmdgen/cmds.py", "acaciamc/objects/integer.py", "acaciamc/objects/boolean.py"],
     [("patterns, fonts and titles", "acaciamc/modules/print.py"), ("text components", "acaciamc/mccmdgen/cmds.py")],
     REF, "translation_validation", NOTE)
prop("C23", "The math module computes what it documents",
     "math.pow, mod, floordiv, min and max give the documented value for every argument, written or computed, at compile time or at run time: mod has the sign of the divisor, floordiv rounds downwards, pow multiplies (0 to the power 0 is 1) and min and max take the extreme of all their arguments. "
     "randint gives a value within its bounds, drawn anew each time its place in the program is reached, and none of them changes its arguments.",
     ["programs", "inputs"], "all argument values (except a negative exponent or divisor zero, left undefined) and all places the calls can stand",
     TESTS + "they cover neither the signs nor the extremes of 32-bit values.",
     ["acaciamc/modules/math.py", "acaciamc/modules/_math.aca", "acaciamc/objects/integer.py"],
     [("run-time pow, mod, floordiv", "acaciamc/modules/_math.aca"), ("compile-time folding, min, max, randint", "acaciamc/modules/math.py")],
     REF, "translation_validation", NOTE)

prop("C24", "Actions on the world reach what, where and how the program says",
     "Every function of the world module acts on exactly the entities, positions, blocks, items and amounts it is given, with defaults where arguments are left out, in the dimension and with the rotation its position carries; positions, offsets and rotations mean the composition of the steps they were made with, whole numbers mean block centres where blocks are meant, and a value made from another leaves that one as it was. "
     "Conditions about blocks, areas and entities hold exactly when the world is so, and what is run on a condition runs where it would have run without it.",
     ["programs", "inputs"], "all worlds, positions, offsets, rotations, arguments and conditions, in every supported version",
     TESTS + "they never run a command on a world.",
     ["acaciamc/modules/world.py", "acaciamc/objects/position.py", "acaciamc/objects/position_offset.py",
      "acaciamc/objects/position_absolute.py", "acaciamc/objects/rotation.py"],
     [("commands and conditions", "acaciamc/modules/world.py"), ("positions and offsets", "acaciamc/objects/position.py"),
      ("rotations", "acaciamc/objects/rotation.py")],
     REF, "translation_validation", NOTE)

NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"],
                     "quick_cmd": "python3 harness/check.py %s" % p["id"],
                     "thorough_cmd": "python3 harness/check.py %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
                    for p in sorted(PROPS, key=lambda p: p["id"])],
         "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
