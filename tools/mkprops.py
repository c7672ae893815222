import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
L="mutagenyx_lib/src/"
B="mutagenyx/src/"
p("C01","Pretty-printed Solidity means the same program",
 "For every Solidity compact-JSON AST that the compiler can emit, the source text written by pretty-printing is syntactically valid Solidity whose AST is the one that was printed: same declarations, names, types, modifiers, visibility/mutability/override, operators, operand grouping, literals, statements, inline assembly and their order. Nothing is dropped, added, merged or re-associated, whatever the nesting depth, line length or characters in literals.",
 ["programs","inputs"],"all Solidity programs (within the stated grammar bound), all page-width effects",
 "The repository has no pretty-printer test for Solidity at all; a test would sample a few contracts while the claim is over every combination of node kind, optional part and context.",
 [L+"solidity/pretty_printer.rs",L+"pretty_printer.rs",L+"pretty_print_visitor.rs",L+"visitor.rs",L+"node_printer_helpers.rs"],
 [("per-node-kind printers","solidity/pretty_printer.rs"),("traversal","pretty_print_visitor.rs / visitor.rs"),("layout","pretty_printer.rs")],
 ["text written by `mutagenyx pretty-print` and by `mutate --print-original`"])
p("C02","Pretty-printed Vyper means the same program",
 "For every Vyper AST that the compiler can emit, the source text written by pretty-printing is syntactically valid Vyper whose AST is the one that was printed: same imports, interfaces, events, structs, flags/enums, state variables, decorators, functions, statements, operators, operand grouping, literals and order. Nothing is dropped, added, merged or re-associated, whatever the nesting depth, line length or characters in literals.",
 ["programs","inputs"],"all Vyper programs (within the stated grammar bound)",
 "The repository has no pretty-printer test for Vyper; correctness is over all node kinds in all contexts.",
 [L+"vyper/pretty_printer.rs",L+"vyper/operators.rs",L+"pretty_printer.rs",L+"pretty_print_visitor.rs"],
 [("per-node-kind printers","vyper/pretty_printer.rs"),("operator table","vyper/operators.rs")],
 ["text written by `mutagenyx pretty-print`"])
p("C03","A Solidity mutant is the original plus one documented change",
 "Every mutant generated for a Solidity program equals the original program except for exactly one change, at one place, of the kind the chosen algorithm documents (e.g. an operator replaced by a different operator of the same family, two statements of one block swapped, a condition replaced by true/false/its negation). Everything else of the program, including nodes that look the same elsewhere, is untouched, and the change takes place where the reported algorithm applies.",
 ["programs","inputs"],"all programs x all algorithms x all mutation sites x all random choices",
 "Unit tests fix one seed on one hand-written contract per algorithm and compare against one recorded operator; the claim is over every site and every random draw.",
 [L+"solidity/mutators.rs",L+"mutation_visitor.rs",L+"solidity/commenter.rs",L+"operators.rs"],
 [("mutators","solidity/mutators.rs"),("site selection","mutation_visitor.rs"),("comment insertion must not disturb code","solidity/commenter.rs")],
 ["mutant source text / mutant AST"])
p("C04","A Vyper mutant is the original plus one documented change",
 "Every mutant generated for a Vyper program equals the original program except for exactly one change, at one place, of the kind the chosen algorithm documents for Vyper. Everything else of the program is untouched, and deleting the only statement of a body still leaves a syntactically complete body.",
 ["programs","inputs"],"all programs x all algorithms x all mutation sites x all random choices",
 "Unit tests fix one seed on one contract per algorithm.",
 [L+"vyper/mutators.rs",L+"mutation_visitor.rs",L+"vyper/commenter.rs",L+"vyper/operators.rs"],
 [("mutators","vyper/mutators.rs"),("site selection","mutation_visitor.rs")],
 ["mutant source text / mutant AST"])
p("C05","Every mutation site and documented alternative is reachable, none twice",
 "For every program and algorithm the number of mutation sites reported equals the number of places where the documented kind of change applies, each site number denotes a different place, and for each site every documented alternative (each other operator of the family, each condition replacement, each pair or statement choice) is produced by some random choice.",
 ["programs","inputs"],"all programs x all algorithms; all site numbers; all random choices",
 "Tests assert a site count on one contract and use one seed; reachability is a statement over the whole random choice space.",
 [L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"mutation_visitor.rs",L+"json_ast_language_interface.rs"],
 [("mutable node counting","mutation_visitor.rs"),("index countdown during mutation","mutation_visitor.rs")],
 ["set of mutants over all seeds"])
p("C06","A reported mutant always differs from the original program",
 "Whenever a mutate run announces that it wrote a mutant, the program text of that mutant, comments aside, differs from the pretty-printed original, for every program, algorithm and history of random choices.",
 ["programs","inputs"],"all programs x algorithms x sites x random choices",
 "Whether a random draw reproduces the original value depends on draw and program together; tests fix both.",
 [L+"solidity/mutators.rs",L+"vyper/mutators.rs",B+"mutation_generator.rs"],
 [("random replacement selection","mutators.rs"),("acceptance loop","mutation_generator.rs")],
 ["mutant files"])
p("C07","Each mutant carries one truthful, inert comment at the change",
 "Every mutant contains exactly one mutation comment, which names the algorithm used and stands directly before the changed statement or declaration (or in place of a deleted statement) inside the same scope. The comment is inert: no part of it, however long or whatever characters it quotes, is read as code, and removing it yields the mutant program.",
 ["programs","inputs"],"all programs x algorithms x sites x random choices",
 "No test looks at the comment; placement depends on the enclosing construct and on line length.",
 [L+"solidity/commenter.rs",L+"vyper/commenter.rs",L+"json_comment_inserter.rs",L+"json_comment_helpers.rs",L+"pretty_printer.rs"],
 [("comment insertion by node path","solidity/commenter.rs, vyper/commenter.rs"),("comment printing","pretty_printer.rs write_flowable_text")],
 ["mutant source text"])
p("C08","Function-restricted mutation stays inside and covers the named functions",
 "When mutation is restricted to a list of function names, every mutant changes code only inside functions with one of those names, and every mutation site inside those functions, at any nesting depth and in any order, is still available. Without restriction, all sites of the program are available.",
 ["programs","configurations"],"all programs x all subsets of function names x algorithms x sites",
 "Permission state is toggled while walking the tree, so it depends on nesting and ordering that a fixed contract does not exercise.",
 [L+"mutation_visitor.rs",L+"permissions.rs",L+"json_ast_permitter.rs",L+"json_namer.rs",L+"json_ast_language_interface.rs"],
 [("permission toggling on enter/exit","mutation_visitor.rs"),("permission construction","mutation_generator.rs / permissions.rs")],
 ["mutant source text, reported site counts"])
p("C09","No program, algorithm or random draw crashes or hangs the tool",
 "For every well-formed program, every algorithm, every site and every sequence of random numbers, counting, mutating and printing terminate and either produce a result or report an error; they never abort the process and never loop forever.",
 ["programs","inputs"],"all programs x algorithms x sites x random number sequences (fairness: any sequence that eventually takes every value)",
 "A crash or endless retry appears only for particular literals, type strings, statement mixes or draws.",
 [L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"solidity/pretty_printer.rs",L+"vyper/pretty_printer.rs",L+"pretty_printer.rs"],
 [("retry loops","mutators.rs"),("literal and type-string parsing","mutators.rs"),("wrapping arithmetic","pretty_printer.rs")],
 ["process exit status, wall clock"])
p("C10","Layout never loses, splits or invents text",
 "For every sequence of print operations, page width and tab width, all text given to the pretty-printer appears in the output in order, with only white space (or, in flowed comments, the line prefix) added at break points. A quoted string or token is never split, indentation returns to its earlier level when blocks close (as long as the nesting stays within the printer's limit) and never passes the page width, and every line to which flowed text is continued starts with the comment prefix. Printed programs stay the same program at every page and tab width.",
 ["histories","configurations","inputs"],"all operation sequences up to a depth x page widths x tab widths x token lengths",
 "Unit tests run a few fixed sequences at the default width.",
 [L+"pretty_printer.rs"],[("column accounting and wrapping","pretty_printer.rs"),("flowable text","pretty_printer.rs")],
 ["bytes written to the output stream"])
p("C11","A run yields the number of mutants requested, consecutively numbered",
 "A mutate run tries min(requested, total number of sites of the selected algorithms) mutants per input and no algorithm more often than it has sites; each try writes one new mutant unless 50 draws in a row gave only mutants already made, unchanged programs or rejected candidates. So a run never writes more than requested. Files are named after the input with consecutive numbers from 0 and the input's extension, and each is announced, with the algorithm that made it, exactly once.",
 ["inputs","configurations","histories"],"all programs x requested counts x algorithm selections x random draws",
 "No test runs the generator; the retry/skip loop depends on the random history.",
 [B+"mutation_generator.rs"],[("algorithm choice and retry loop","mutation_generator.rs")],
 ["output directory contents, standard output"])
p("C12","A run never writes the same mutant twice",
 "No two mutants written for one input in one run are the same program: for every pair of written files the program text, comments aside, differs.",
 ["histories","inputs"],"all programs x all histories of random draws within a run",
 "Duplicates appear only for coinciding draws across attempts.",
 [B+"mutation_generator.rs",L+"mutator_result.rs",L+"mutation_visitor.rs"],[("duplicate filter","mutation_generator.rs, mutator_result.rs")],
 ["output files"])
p("C13","The same seed reproduces the same mutants",
 "Two runs with the same seed, input content and options produce byte-identical mutants and the same announcements, whatever the process's hash seeds, environment, working directory, time or other inputs' results. A configuration file saved by a run that was started without a seed holds the seed that reproduces it.",
 ["inputs","configurations","schedules"],"all seeds x programs x hash-map iteration orders x environments",
 "Unit tests run in a single process with one hash seed per map and never repeat a run.",
 [B+"mutation_generator.rs",B+"generator_parameters.rs",L+"mutation_visitor.rs",L+"solidity/mutators.rs"],[("seeded generator","mutation_generator.rs"),("hash-map iteration","solidity/mutators.rs, mutation_visitor.rs")],
 ["output files, standard output, saved configuration"])
p("C14","With validation on, only mutants the compiler accepted are written",
 "When mutant validation is requested, each mutant written is byte for byte a text that the compiler was given and accepted, for every pattern of compiler acceptances and rejections; a rejected candidate is never written and does not use up an output number. If the compiler cannot be run at all the run reports an error instead of writing unvalidated mutants.",
 ["fault_sequences","inputs"],"all sequences of compiler answers (accept, reject, absent) up to a bound",
 "Tests need a real compiler and none is exercised for mutants.",
 [B+"mutation_generator.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],[("validation step","mutation_generator.rs"),("compiler invocation","language_interface.rs")],
 ["output files versus recorded compiler inputs"])
p("C15","A configuration file means what its keys say, and a saved one replays the run",
 "Each documented key in a configuration file has the same effect as the corresponding command line option, values given in the file are honoured for exactly the inputs it lists, and inputs not coming from that file are unaffected by it. A configuration file saved by a run, used as input later, reproduces that run's mutants.",
 ["configurations","inputs"],"all combinations of keys present/absent and option settings",
 "Tests parse one configuration file and check a few getters.",
 [L+"config_file.rs",B+"mutation_generator.rs",B+"generator_parameters.rs"],[("parsing and defaults","config_file.rs"),("parameter resolution","mutation_generator.rs")],
 ["output files, saved .mgnx file"])
p("C16","Compiler options reach the compiler faithfully",
 "Every compiler setting given on the command line or in a configuration file (base path, include paths, allow paths, remappings, stop-after, root path, compiler location) is passed to the compiler exactly once, as the argument(s) the compiler documents for it, on every invocation, for the input it belongs to; settings not given are not passed.",
 ["configurations"],"all subsets of settings x single/multiple values x command line/config file x compile/validate invocations",
 "No test invokes a compiler with settings.",
 [B+"compiler_settings.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"preferences.rs",L+"config_file.rs"],[("argument assembly","language_interface.rs"),("settings merge","compiler_settings.rs")],
 ["argument vectors recorded by a stand-in compiler"])
p("C17","Inputs are recognised by what they are and handled independently",
 "Source files, compiler ASTs and configuration files of either language are recognised as what they are, and anything else is refused with an error. With several inputs, each acceptable input yields the same output it would yield alone, in any order.",
 ["inputs","configurations"],"all ordered lists of input kinds up to a bound x subcommands",
 "Tests recognise a handful of single files; interactions between inputs are not tested.",
 [L+"recognizer.rs",B+"mutation_generator.rs",B+"pretty_printing.rs"],[("file recognition","recognizer.rs"),("per-file loop","mutation_generator.rs, pretty_printing.rs")],
 ["output files per input"])
p("C18","Inputs are never modified and nothing outside the output place is touched",
 "No run, with any options, modifies or deletes an input file (even when an output of the run would have its name) or any other pre-existing file apart from files at its own documented output names, and it leaves no temporary file behind next to the user's files. With output to standard output no file is created in the output directory.",
 ["configurations","inputs"],"all placements of inputs, output directory, working directory and temp directory relative to each other x options",
 "No test compares the file system before and after a run.",
 [B+"mutation_generator.rs",B+"pretty_printing.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],[("output naming","mutation_generator.rs, pretty_printing.rs"),("temporary files for compilation","language_interface.rs")],
 ["file-system snapshot before/after"])
p("C19","Algorithm selection uses exactly the named algorithms",
 "Exactly the algorithms named on the command line or in the configuration are used (all of those that apply to the input's language when all are requested), every listed algorithm name is accepted back as a selection, and unknown names are reported. Algorithms that do not exist for a language are never applied to it.",
 ["configurations"],"all subsets of algorithm names x languages",
 "Tests check a few name conversions.",
 [L+"mutation.rs",B+"mutations_info.rs",B+"mutation_generator.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],[("name table","mutation.rs"),("selection","mutation_generator.rs, language_interface.rs")],
 ["announcements and comments of mutants; `algorithms` output"])
p("C20","A file the tool reports as written is complete",
 "If creating or writing a file fails while producing an output, the tool reports an error and does not announce that output as written; every announced output file is complete.",
 ["fault_sequences","crash_points"],"every output system call of a run, failing one at a time",
 "Tests never inject I/O failures.",
 [L+"pretty_printer.rs",L+"json_ast_language_interface.rs",B+"mutation_generator.rs",B+"pretty_printing.rs"],[("stream writes","pretty_printer.rs"),("file creation","json_ast_language_interface.rs")],
 ["announcements versus file contents under injected faults"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
