#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "P01": "Seeded programs, seeds, algorithm selections, rejecting compilers; every written mutant is lexed and must be one documented edit of the reference model of the input program.",
 "P02": "Every written mutant is lexed with its comments: exactly one marker, naming the reported algorithm; the program without comments must be a mutant of the model.",
 "P03": "Each plan is executed twice with the same seed but different clock, hash seeds, process id, environment, terminal, leftovers, compiler timing; results and report order must be identical.",
 "P04": "All mutants of a run and the original are compared as token sequences.",
 "P05": "Report lines, files and numbers are compared; exact count required where the model counts many more places than requested.",
 "P06": "The simulated compiler records what it was given and what it answered; every emitted mutant needs an accepting run of exactly that program with the configured settings.",
 "P07": "Bounded work: intercepted operations, compiler runs per requested mutant and CPU time without an operation are limited in every run, including hostile programs and compilers.",
 "P08": "The changed token range of every mutant must lie inside a function with a requested name according to the model.",
 "P09": "All files before and after runs that succeed, fail by injected faults, or are killed at a random operation are compared.",
 "P10": "Disk-full, I/O and permission errors at random operations on result files; every reported file must equal the file of the undisturbed run, and failed ones must be reported as failed.",
 "P11": "EINTR, short reads and writes, output in pieces and slow compilers at random operations; results equal those of the undisturbed run.",
 "P12": "Two or three instances interleaved at every intercepted operation by a seeded scheduler (random, PCT-like, bursts); results equal those of the solo runs.",
 "P13": "A run that saves configuration files is followed by a run on a saved file; results must be identical.",
 "P14": "Kill before, after or in the middle of a random operation, then run again; results equal those of a clean run.",
 "P15": "Argument vectors, inputs and outputs of every simulated compiler process are recorded and compared with the settings; stale outputs and edited inputs are planted.",
 "P16": "Compiler failures of every kind, errno on every kind of file operation, odd programs and inputs; no panic, signal or silent failure.",
 "P17": "The same job to files and to standard output; the stream must contain exactly the files in order.",
 "P18": "Jobs with several inputs and configuration files against one job per input.",
 "P19": "Lists of good and bad files, printed together and one by one, to files and to the stream.",
 "P20": "The temporary directory before and after runs of every kind, including failing compilers and file operations.",
 "P21": "Programs printed by pretty-print and by --print-original, to files and to the stream, beside mutants, bad inputs, leftovers and harmless interruptions; the printed tokens must be those of the reference model.",
 "P22": "Each job is run with its settings on the command line and again from a configuration file (optional keys left to the command line, contradicting command lines, any key order and layout), with compilers that react to the settings; all results must be identical.",
 "P23": "The listing commands on simulated terminals of any width, without a terminal, with short and interrupted writes; names and words must be complete.",
 "P24": "The same program and algorithm with 30 to 300 random seeds; every place and replacement the reference model is sure of, and that those draws miss with probability below e^-25, must be among the results.",
 "P25": "For each mutant the reference model finds the edits that explain it; the comment must stand in front of one of them with no statement in between, and its quoted texts must be what was there and what is there now.",
}
NA = {
 "N01": "Only the real solc and vyper can judge it, and neither is in the sandbox; it depends on no schedule, clock, I/O or fault that a simulator would control. The simulator checks the printed tokens against its own model instead (P21).",
 "N02": "A pure function of a rule set and a tree inside the library: no concurrency, time, I/O or multi-party behaviour, and no command reaches most of it. Its effect on the tool, function restriction, is decided as P08.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search, LD_PRELOAD seam, simulated compilers, reference model)",
        "level": "exploration",
        "level_note": NOTE[i],
    })
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the C library interface of the unmodified release binary (sim/preload.c)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
