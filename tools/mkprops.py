#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the jsonl is committed)."""
import json
MG="mutagenyx/src/mutation_generator.rs"; PP="mutagenyx/src/pretty_printing.rs"
L="mutagenyx_lib/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

OUTF="the files in the output directory after every process has ended"
OUTS="the standard output of the tool"
FS="the recorded sequence of file-system and process operations of every instance"

p("P01","Every mutant is the original program plus exactly one documented edit",
 "Every mutant the tool emits is, comments aside, the original program with exactly one edit of the kind documented for the algorithm the tool reports for that mutant, and everything else unchanged. This holds no matter what the tool did before it in the same run: earlier mutants, discarded duplicates, candidates rejected by the compiler, other input files.",
 ["inputs","programs","histories","configurations"],
 "all input programs of both languages, all random seeds and algorithm selections, all histories of earlier attempts, duplicates and compiler verdicts within a run",
 "A test samples one program, one seed and one algorithm on a hand-made node; whether one edit and only one edit reaches the file depends on the random choice, the traversal index, the comment insertion path and everything done earlier in the run.",
 [MG,L+"mutation_visitor.rs",L+"json_ast_language_interface.rs",L+"json_comment_inserter.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"solidity/pretty_printer.rs",L+"vyper/pretty_printer.rs"],
 [("index-driven choice of one node on a copy of the tree",L+"mutation_visitor.rs and mutate_ast in "+L+"json_ast_language_interface.rs"),("one routine per algorithm and language",L+"solidity/mutators.rs, "+L+"vyper/mutators.rs"),("comment insertion by node path",L+"json_comment_inserter.rs")],
 observe=[OUTF,OUTS])
p("P02","Every mutant says which algorithm made it, in a comment that is only a comment",
 "Every mutant contains a comment naming the algorithm that the tool reports for it, and contains no such comment for any other mutation. All text the tool adds to explain a mutation, including code it has commented out, stays inside comments, so it never becomes part of the program.",
 ["inputs","programs","histories","configurations"],
 "all input programs, seeds, algorithms and statement shapes and lengths (including statements too long for one printed line)",
 "Comment leakage depends on line wrapping of the particular statement at the particular indentation, and the comment's position on the node that the random choice hits.",
 [L+"json_comment_inserter.rs",L+"json_comment_helpers.rs",L+"solidity/commenter.rs",L+"vyper/commenter.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"pretty_printer.rs"],
 [("comment node creation and insertion",L+"json_comment_inserter.rs, "+L+"solidity/commenter.rs, "+L+"vyper/commenter.rs"),("line wrapping of printed text",L+"pretty_printer.rs")],
 observe=[OUTF,OUTS])
p("P03","The same random seed gives the same mutants everywhere",
 "Two runs with the same inputs, the same options and the same explicit random seed write byte-identical mutants under the same names and report them in the same order. Wall-clock time, hash-table seeding, environment, logging, terminal, process ids, leftover files, and the timing of compilers or of other processes make no difference.",
 ["schedules","configurations","inputs","programs"],
 "all assignments of clock readings, process-level randomness, environment and log level, compiler timing and interleaving with other processes, for all inputs and seeds",
 "A test process sees one hash seed, one clock and one schedule; a dependence on any of them shows only on some programs and only in a fraction of processes.",
 [MG,L+"mutation_visitor.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"json_ast_language_interface.rs"],
 [("seeding of the generator",MG),("order of algorithm selection",MG),("random choices inside algorithms",L+"solidity/mutators.rs, "+L+"vyper/mutators.rs")],
 observe=[OUTF,OUTS])
p("P04","All mutants of one run are different from each other",
 "Among the mutants a run emits for one input with one algorithm no two are the same program, and no mutant is the unmodified program.",
 ["inputs","programs","histories","configurations"],
 "all programs, seeds, algorithm selections and histories of attempts, including runs in which nearly every candidate has already been emitted or was rejected by the compiler",
 "Collisions appear only when the random choices happen to coincide after a particular history of accepted and rejected candidates.",
 [MG,L+"mutator_result.rs",L+"mutation_visitor.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs"],
 [("comparison with the results already seen",MG),("fingerprint of the random part of a mutation",L+"solidity/mutators.rs, "+L+"vyper/mutators.rs")],
 [("observed results","fingerprints of everything emitted so far for this input",MG)],
 [OUTF])
p("P05","Reported, numbered and written mutants agree, and never exceed the request",
 "For every input file the tool writes at most the requested number of mutants and at most the number of mutations it says the program supports, in files numbered from 0 without gaps, and prints exactly one report line naming each file it wrote and no other. When the program offers clearly more distinct mutations than requested and nothing fails, it writes exactly the requested number.",
 ["inputs","programs","histories","configurations"],
 "all programs, requested counts, algorithm sets, compiler verdict sequences and seeds",
 "The count is the outcome of random selection, duplicate elimination, bounded retries and compiler verdicts; a test fixes one of each.",
 [MG,PP],
 [("selection of algorithms limited by available nodes",MG),("retry loop and numbering",MG),("output file naming",PP)],
 [("files written","number of the next mutant",MG),("to-do queue","algorithms still to be used",MG)],
 [OUTF,OUTS])
p("P06","With validation on, every emitted mutant is one the compiler accepted",
 "When validation of mutants is requested, every mutant that is emitted has been given to the compiler in exactly the emitted form (comments aside), with the settings the user configured, and the compiler accepted it in full or, for Solidity, at the parsing stage; a mutant the compiler rejects, or cannot be asked about, is never emitted. A crash, kill, missing executable or failure of the compiler counts as not accepted.",
 ["histories","fault_sequences","inputs","configurations"],
 "all sequences of compiler verdicts and compiler or I/O failures, over all programs, seeds and compiler settings",
 "No compiler is available to the tests, and the property is about the pairing of each emitted file with an earlier verdict in an arbitrary history of verdicts and failures.",
 [MG,L+"json_ast_language_interface.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"utility.rs"],
 [("validation gate before emission",MG),("compiler invocation on a candidate",L+"solidity/language_interface.rs, "+L+"vyper/language_interface.rs")],
 observe=["arguments, input file contents and exit status of every simulated compiler run",OUTF])
p("P07","Every run ends, with a bounded number of attempts",
 "Every run ends after a bounded amount of work: for each requested mutant the tool makes at most a fixed number of attempts, whatever the program looks like, however few distinct mutations it offers, and whatever the compiler says. A mutant that cannot be produced is given up and does not stop the following ones.",
 ["programs","inputs","histories","configurations"],
 "all programs, requested counts, seeds and compiler verdict sequences, including compilers that reject everything",
 "Non-termination needs a program on which a random retry inside an algorithm has no acceptable choice, or a verdict history that rejects every candidate; the tests contain neither.",
 [MG,L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"pretty_printer.rs"],
 [("bounded attempts per mutant",MG),("random retry loops inside algorithms",L+"solidity/mutators.rs, "+L+"vyper/mutators.rs")],
 observe=["steps, processor time and exit status of every instance","number of simulated compiler runs"])
p("P08","Function restriction confines every mutation to the named functions",
 "When the user restricts mutation to some functions, every emitted mutant differs from the original only inside the definition of a function with one of the given names, and all other parts of the program are unchanged. Mutable code inside the named functions stays available for mutation.",
 ["programs","inputs","configurations","histories"],
 "all programs (including recursion, shared names, calls to and references of the named functions from elsewhere), all name lists and seeds, from the command line or a configuration file",
 "Leaks depend on where else in the program the name occurs and on which node the random choice hits.",
 [MG,L+"permissions.rs",L+"json_ast_permitter.rs",L+"json_namer.rs",L+"mutation_visitor.rs"],
 [("permissions built from function names",MG),("permission checks during traversal",L+"permissions.rs, "+L+"json_ast_permitter.rs, "+L+"mutation_visitor.rs")],
 observe=[OUTF])
p("P09","Inputs and unrelated files are never changed or removed",
 "A run creates, changes or removes only its own result files in the chosen output directory and scratch files of its own; the input files, configuration files, compiler sources and every other file that existed before are byte-for-byte unchanged after the run, whether it succeeds, fails or is killed. This includes inputs that lie in the system's temporary directory and files with the same names as the tool's own scratch files.",
 ["inputs","configurations","fault_sequences","crash_points","histories"],
 "all placements of input, configuration, output and temporary directories, all pre-existing files, all faults and crash points",
 "Tests never run the tool on a file system with other people's files in the way, nor stop it half-way.",
 [MG,PP,L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"json_ast_language_interface.rs",L+"config_file.rs"],
 [("output naming",MG+", "+PP),("scratch files for compiler output and validation",L+"solidity/language_interface.rs, "+L+"vyper/language_interface.rs")],
 observe=[FS,"snapshot of the whole simulated file system before and after"])
p("P10","No result is reported as written unless it is completely on disk",
 "If storing a mutant, a pretty-printed original or a configuration file fails part-way (disk full, I/O error, unwritable directory), the tool says that the operation failed and does not report that file as written; every file it does report as written is complete. An error is reported to the user and never passes silently.",
 ["fault_sequences","inputs","histories"],
 "all single and repeated failures of create, write, and directory creation at every operation, over all programs and modes",
 "The tests never see a failing file system; the failure must hit one particular write among thousands.",
 [PP,MG,L+"pretty_printer.rs",L+"node_printer_helpers.rs",L+"json_ast_language_interface.rs",L+"config_file.rs"],
 [("stream writing and error propagation",L+"pretty_printer.rs"),("file creation",PP+", "+L+"json_ast_language_interface.rs")],
 observe=[OUTF,OUTS,"the injected faults that fired"])
p("P11","Interrupted calls, short transfers and slow compilers never change a result",
 "Conditions that an operating system may legitimately present without anything being wrong, namely interrupted system calls, short reads and writes, compiler output arriving in arbitrary pieces and at arbitrary times, make no difference to any file, report line or exit status.",
 ["schedules","fault_sequences","inputs"],
 "all placements of interrupted calls, short transfers and delays, for all inputs and modes",
 "The kernel produces these conditions rarely and never on demand in a unit test.",
 [L+"pretty_printer.rs",L+"utility.rs",L+"config_file.rs",L+"recognizer.rs",L+"vyper/language_interface.rs",PP],
 [("all stream reading and writing",L+"pretty_printer.rs, "+L+"utility.rs, "+L+"config_file.rs"),("collection of compiler output",L+"utility.rs, "+L+"vyper/language_interface.rs")],
 observe=[OUTF,OUTS])
p("P12","Instances running at the same time do not disturb each other",
 "Several instances of the tool running at the same time on the same machine, on different inputs (also ones with equal file names in different directories) and with different output directories, each produce exactly what they would have produced alone.",
 ["schedules","inputs","configurations"],
 "all interleavings of the file and process operations of two or three concurrent instances and of the compilers they start",
 "The interference needs two processes inside a window of a few system calls; a test runs one process.",
 [L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"json_ast_language_interface.rs",MG],
 [("scratch paths for syntax trees and candidates",L+"solidity/language_interface.rs, "+L+"vyper/language_interface.rs")],
 observe=[OUTF,OUTS,FS])
p("P13","Replaying a saved configuration file reproduces the same mutants",
 "Running the tool on the configuration file it saved during a run reproduces the mutants of that run, byte for byte and under the same names, also when the random seed of the original run came from the clock, and for every combination of the other options the configuration file can hold.",
 ["histories","inputs","configurations"],
 "all two-run histories (generate and save, then replay at a later time in a fresh process) over all option combinations, programs and clock readings",
 "It relates two process executions at different times with different clocks and hash seeds; a unit test sees neither the clock-derived seed nor the second process.",
 [MG,L+"config_file.rs","mutagenyx/src/compiler_settings.rs"],
 [("saving of effective parameters",MG+", "+L+"config_file.rs"),("loading and override rules",MG)],
 observe=[OUTF,"saved configuration files"])
p("P14","Killing a run and running it again gives the same result as one clean run",
 "If a run is killed at an arbitrary instant and then repeated with the same options, the repeated run succeeds and leaves in the output directory exactly the files of an undisturbed run; nothing the killed run left behind, in the output or temporary directory, changes the outcome.",
 ["crash_points","schedules","inputs"],
 "all kill points (before, during and after every file-system or process operation, including torn writes) for all inputs and modes, with one or more kills before the final run",
 "A test cannot kill the tool between two chosen system calls.",
 [MG,PP,L+"solidity/language_interface.rs",L+"vyper/language_interface.rs"],
 [("truncating rewrite of results",PP),("re-use of scratch locations",L+"solidity/language_interface.rs, "+L+"vyper/language_interface.rs")],
 observe=[OUTF,OUTS])
p("P15","Every compiler run honours the user settings, and no stale output is used",
 "Every time the tool starts a compiler for an input it uses the compiler the user configured and passes all configured settings (base path, include paths, allowed paths, remappings, root path), and what it mutates or prints is the syntax tree of the present content of that input produced by a successful compiler run of the same invocation of the tool. Output left over from earlier runs or produced for another file is never used.",
 ["histories","fault_sequences","configurations","inputs"],
 "all settings from command line and configuration file, all histories of earlier runs with leftover files and edited inputs, all compiler failures",
 "No compiler exists in the tests, and stale results need an earlier run, a changed input and a compiler that reports success without writing.",
 ["mutagenyx/src/compiler_settings.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"recognizer.rs",MG,PP],
 [("translation of settings to compiler flags",L+"solidity/language_interface.rs, "+L+"vyper/language_interface.rs"),("reading of the syntax tree the compiler wrote",L+"solidity/language_interface.rs, "+L+"vyper/language_interface.rs")],
 observe=["arguments and inputs of every simulated compiler run",OUTF])
p("P16","Failures of compilers, files or inputs end in an error message, never in a crash",
 "Whatever a compiler does (missing, killed, failing, printing garbage or nothing, writing truncated output), whatever single file operation fails, and whatever valid program is given, the tool ends in an orderly way: it does not panic, abort, overflow its stack or die from a signal, and when it could not do what was asked it prints a message saying so.",
 ["fault_sequences","inputs","programs"],
 "all compiler misbehaviours and file-operation failures at every point, over all programs of the supported languages",
 "Requires failing compilers and file systems at chosen points, and programs with unusual literals, types and texts.",
 ["mutagenyx/src/main.rs",MG,PP,L+"recognizer.rs",L+"utility.rs",L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"solidity/mutators.rs",L+"vyper/mutators.rs",L+"pretty_printer.rs"],
 [("error propagation to the command line",'mutagenyx/src/main.rs'),("handling of compiler output",L+"utility.rs, "+L+"vyper/language_interface.rs")],
 observe=["exit status, signals and standard error of every instance",OUTS])
p("P17","Printing to standard output delivers the same programs as writing files",
 "With output to standard output instead of files, the tool prints exactly the programs it would have written for the same inputs, options and seed, complete and in the same order, and writes no result files.",
 ["configurations","inputs","histories"],
 "all programs, seeds, option combinations and compiler verdict sequences, in mutate and pretty-print mode, with any split of the output stream into writes",
 "It relates two process executions in different modes over arbitrary inputs, with partial writes on the stream.",
 [MG,PP,L+"json_ast_language_interface.rs"],
 [("stream selection",MG+", "+PP)],
 observe=[OUTS,OUTF])
p("P18","Each input file is treated as if it were the only one",
 "The mutants for an input file are the same whether the file is given alone or together with other inputs or configuration files, in any order: no seed, setting, selection or counter of one input influences another.",
 ["inputs","configurations","histories"],
 "all lists of inputs of both languages, sources, syntax-tree files and configuration files, in all orders",
 "It compares runs over arbitrary combinations and orders of inputs.",
 [MG],
 [("per-file parameters copied from command line and configuration",MG)],
 observe=[OUTF])
p("P19","Pretty-printing handles every listed file, and one bad file spoils no other",
 "In pretty-print mode every listed file that can be read and compiled is printed, to its own file or to standard output, exactly as when it is given alone, and every other file is reported as failed; a failure on one file never suppresses, alters or duplicates the output for another.",
 ["inputs","fault_sequences","configurations"],
 "all lists of files in all orders, with any subset failing for any reason (missing, compiler failure, garbage, write failure)",
 "Requires combinations of failing and succeeding inputs in different orders under injected failures.",
 [PP,L+"recognizer.rs"],
 [("loop over input files",PP)],
 observe=[OUTF,OUTS])
p("P20","A completed run leaves no temporary files behind",
 "When a run has ended by itself, successfully or with an error message, the temporary directory contains exactly what it contained before, however many files were compiled or candidates validated and whatever the compilers did.",
 ["histories","fault_sequences","inputs"],
 "all inputs, numbers of candidates, compiler verdicts and failures, and all failures of single file operations other than removal itself",
 "Leftovers accumulate on failure paths that need a failing compiler or file system.",
 [L+"solidity/language_interface.rs",L+"vyper/language_interface.rs",L+"json_ast_language_interface.rs"],
 [("scratch file removal",L+"json_ast_language_interface.rs")],
 observe=["contents of the temporary directory after the run",FS])
p("N01","The printed original means the same to the real compiler as the source",
 "Pretty-printing any accepted program yields a program that the real compiler accepts and translates to the same code.",
 ["programs"],"all programs accepted by the Solidity and Vyper compilers",
 "Only the real compilers can judge it, over all programs.",
 [L+"solidity/pretty_printer.rs",L+"vyper/pretty_printer.rs"],[("printer per node kind",L+"solidity/pretty_printer.rs, "+L+"vyper/pretty_printer.rs")])
p("N02","Permission rules combine as documented for any rule set",
 "For any set of allow and deny rules and any tree the permission decision follows the documented precedence.",
 ["inputs"],"all rule sets and trees","It is quantified over all rule sets.",
 [L+"permissions.rs"],[("permission lookup",L+"permissions.rs")])
p("N03","The algorithm listing names and describes every algorithm",
 "The listing commands name every algorithm the mutate command accepts, each once, and print each description completely at any terminal width.",
 ["inputs","configurations"],"all terminal widths","It is quantified over terminal widths.",
 ["mutagenyx/src/mutations_info.rs"],[("listing","mutagenyx/src/mutations_info.rs")])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
