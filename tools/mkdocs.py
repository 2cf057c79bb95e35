#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known-findings.json. The texts live here so that the three stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, level="exploration", tech="", note="", state=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(rec={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a}, level=level, tech=tech, note=note, na=na))
PAR = ["carcara/src/checker/parallel/mod.rs", "carcara/src/checker/parallel/scheduler.rs", "carcara/src/ast/pool/advanced.rs", "carcara/src/ast/context.rs"]
BASE = "deterministic simulation (real threads serialised by a seeded scheduler over stubbed kernel); "

prop("C01", "Parallel checking gives the sequential verdict", 
     "For every problem, proof and set of options, checking with any number of worker threads ends, without crashing or hanging, and reports the same verdict (valid, holey or invalid) as checking with one thread, under every interleaving of the workers. In particular a proof is never accepted in parallel that is rejected sequentially.",
     ["schedules", "inputs", "configurations"], "all proofs, worker counts and interleavings of the workers' steps on the shared term pool, the shared contexts and the stop flag; all hash seeds and memory layouts",
     "The tests check a few small proofs in parallel, under whatever interleaving the machine happens to produce; they never compare verdicts over schedules, and the multi-threaded path over nested contexts, holes and failing proofs is hardly reached.",
     PAR + ["carcara/src/lib.rs", "cli/src/main.rs"],
     [("static load schedule", "carcara/src/checker/parallel/scheduler.rs"), ("per-worker checkers joined into one verdict", "carcara/src/checker/parallel/mod.rs"), ("term pool with a shared and a per-worker part", "carcara/src/ast/pool/advanced.rs"), ("shared subproof contexts under reader-writer locks", "carcara/src/ast/context.rs")],
     tech=BASE + "differential oracle: the sequential verdict, and the verdict known by construction")
prop("C02", "A failing worker stops the other workers soon",
     "When one worker of a parallel check has found the proof wrong and has stopped, every other worker stops after finishing at most the command it is working on and one more; the run never continues to the end of the other workers' loads. The check then ends with an error.",
     ["schedules", "inputs", "configurations"], "all proofs with failing commands, worker counts and interleavings",
     "Tests only see the final verdict, which is the same whether or not the other workers stop early.",
     PAR[:2], [("stop flag polled before every command", "carcara/src/checker/parallel/mod.rs")],
     tech=BASE + "bounded-liveness invariant on the recorded history: commands finished after the first worker stopped")
prop("C03", "In parallel every command is checked exactly once",
     "In an accepted parallel check every command of the proof, at every nesting level, is checked by exactly one worker, and by the same rule as sequentially; in a rejected one none is checked twice. The collected statistics (command counts, assumption and equality-check counts, per-command measurements) are the union of what the workers recorded and equal the sequential ones.",
     ["schedules", "inputs", "configurations"], "all proofs, worker counts and interleavings",
     "A command that no worker checks leaves a correct proof accepted, so no existing test can notice; statistics of parallel runs are not tested at all.",
     PAR[:2] + ["carcara/src/benchmarking/mod.rs", "carcara/src/checker/mod.rs"], [("load assignment", "carcara/src/checker/parallel/scheduler.rs"), ("statistics combined after joining", "carcara/src/checker/parallel/mod.rs")],
     tech=BASE + "conservation check over the recorded history against the sequential run")
prop("C04", "A parallel check reports a genuine error",
     "When a parallel check rejects a proof, the command, rule and reason it reports belong to a command that really fails on its own account; a missing conclusion is reported only if no command fails. A proof without failing commands is never reported to have one.",
     ["schedules", "inputs", "configurations"], "all proofs with any number of failing commands, worker counts and interleavings",
     "Which of several failures is reported depends on the schedule; tests contain at most one failure per proof and look only at the verdict.",
     PAR[:2] + ["carcara/src/checker/error.rs"], [("first recorded error wins", "carcara/src/checker/parallel/mod.rs")],
     tech=BASE + "membership oracle: the set of failing commands computed by repeated sequential runs")
prop("C05", "The benchmark counts every proof's verdict correctly",
     "For every set of proof files, number of runs and number of jobs, the benchmark command ends and reports overall success, holes and errors exactly as checking (or elaborating) each file on its own would: errors if any file is rejected or cannot be processed, otherwise holes if any is holey. One bad file does not suppress the results of the others, and a file whose processing crashes does not go unnoticed.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all sets of files, job counts, interleavings of the jobs over the shared queue, directory orders, and read errors",
     "The benchmark command has no tests.",
     ["cli/src/benchmarking.rs", "carcara/src/benchmarking/mod.rs", "cli/src/main.rs", "cli/src/path_args.rs"], [("shared job queue", "cli/src/benchmarking.rs"), ("combining of the jobs' results", "carcara/src/benchmarking/mod.rs")],
     tech=BASE + "refinement against a model: each file processed alone")
prop("C06", "The benchmark measures every run of every file exactly once",
     "The rows the benchmark command writes or the counts it prints cover each file, as many times as runs were asked for, exactly once, whatever the number of jobs and their interleaving; files that cannot be parsed contribute nothing. Each row carries the right file, run number and step, and the per-file non-time data agree with processing that file alone.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all sets of files, numbers of runs and jobs, interleavings, directory orders",
     "The benchmark command has no tests, and lost or duplicated rows depend on the interleaving of the jobs.",
     ["cli/src/benchmarking.rs", "carcara/src/benchmarking/mod.rs", "carcara/src/benchmarking/metrics.rs"], [("shared job queue", "cli/src/benchmarking.rs"), ("metrics keyed by run and step", "carcara/src/benchmarking/mod.rs")],
     tech=BASE + "conservation check of the tables against per-file runs")
prop("C07", "How the input arrives does not matter",
     "The result of every command (output, files written, diagnostics and exit status) depends only on the bytes of its inputs: not on how reads are split or interrupted, whether the input is streamed or buffered whole, comes from a file or standard input, or whether the problem file is named or inferred.",
     ["fault_sequences", "inputs", "configurations"], "all commands and inputs, all splittings of the input into reads and all interruptions of them",
     "Tests parse from strings in memory; they never see a short or interrupted read.",
     ["cli/src/main.rs", "cli/src/path_args.rs", "carcara/src/parser/lexer.rs", "carcara/src/lib.rs"], [("lexer over a buffered reader", "carcara/src/parser/lexer.rs"), ("input selection", "cli/src/main.rs")],
     tech=BASE + "differential oracle: the same input delivered in one piece")
prop("C08", "A read error is reported and never becomes a result",
     "If an input cannot be opened, or reading it fails at any point, the command reports an error and exits unsuccessfully; it gives no verdict of valid or holey, prints no proof and writes no files. It never crashes.",
     ["fault_sequences", "inputs", "configurations"], "all commands and inputs, every byte at which reading can fail, all error codes",
     "Tests never make a read fail.", ["cli/src/main.rs", "cli/src/path_args.rs", "carcara/src/parser/lexer.rs", "carcara/src/lib.rs"], [("errors propagated from the reader", "carcara/src/parser/lexer.rs")],
     tech=BASE + "invariant after an injected read or open error")
prop("C09", "A torn input is never accepted",
     "If an input ends early inside a command, or a proof ends inside a subproof, every command that reads it reports an error; if a proof ends before the step that concludes it, it is not accepted. A file that ends early is treated exactly like a shorter file, and no truncation crashes the program.",
     ["crash_points", "inputs", "configurations"], "all commands and inputs, every byte at which a file can be cut",
     "Tests do not cut their inputs.", ["carcara/src/parser/mod.rs", "carcara/src/parser/lexer.rs", "carcara/src/checker/mod.rs"], [("end-of-file checks in lexer and parser", "carcara/src/parser/lexer.rs"), ("conclusion check", "carcara/src/checker/mod.rs")],
     tech=BASE + "invariant on torn inputs, with an independent reader deciding what is torn")
prop("C10", "An output error is never reported as success",
     "If writing the output fails or falls short of the whole (full disk, closed pipe, file that cannot be created), the command exits unsuccessfully, and what did get out is the beginning of the correct output; short and interrupted writes that can be continued change nothing. A rejected proof is never reported as a success because of it.",
     ["fault_sequences", "inputs", "configurations"], "all commands and inputs, every byte at which each output can fail, all splittings of writes",
     "Tests never make a write fail.", ["cli/src/main.rs", "carcara/src/ast/printer.rs", "carcara/src/slice.rs", "cli/src/logger.rs"], [("buffered writers", "cli/src/main.rs"), ("printer", "carcara/src/ast/printer.rs")],
     tech=BASE + "invariant after an injected write error; prefix comparison with the fault-free output")
prop("C13", "Results are reproducible",
     "Running the same sequential command on the same input twice gives byte-for-byte the same output, files, diagnostics and exit status, whatever the hash seeds, the placement of memory, the clock and the number of processors. Only measured times may differ.",
     ["configurations", "inputs"], "all sequential commands and inputs, all hash seeds, heap layouts, clocks and processor counts",
     "A test run sees one hash seed and one heap layout, and compares verdicts, not output.",
     ["carcara/src/ast/pool/mod.rs", "carcara/src/ast/rc.rs", "carcara/src/ast/printer.rs", "carcara/src/slice.rs", "carcara/src/elaborator/mod.rs"], [("hash-consed terms hashed by address", "carcara/src/ast/rc.rs"), ("insertion-ordered maps", "carcara/src/ast/printer.rs")],
     tech=BASE + "differential oracle over seeded hash seeds, heap placement, clocks and processor counts")
prop("C14", "The clock affects only reported times",
     "Whatever the clock does (stop, jump forwards or backwards, tick coarsely), commands that measure time neither crash nor change verdict, exit status, output or the counts in their statistics.",
     ["fault_sequences", "inputs", "configurations"], "all clock behaviours, on every command that measures time",
     "Tests run under a well-behaved clock and do not look at statistics.", ["carcara/src/benchmarking/mod.rs", "carcara/src/benchmarking/metrics.rs", "cli/src/benchmarking.rs", "carcara/src/checker/mod.rs"], [("time measurements", "carcara/src/benchmarking/mod.rs")],
     tech=BASE + "differential oracle under a faulty simulated clock")
prop("C15", "Exhausted memory or threads never give a wrong result",
     "If an allocation or the creation of a worker thread fails, the command either ends unsuccessfully or gives exactly the result it gives otherwise; it does not hang, and never reports a verdict that it would not report without the failure. (While an elaboration calls solvers, a solver that cannot be fed or read for that reason counts as one that failed: its step stays as it was, and the proof written must still be accepted.)",
     ["fault_sequences", "schedules", "inputs"], "every allocation and thread creation of a run, under all interleavings",
     "Tests never make an allocation or a thread creation fail.", PAR[:2] + ["cli/src/main.rs"], [("thread creation and joining", "carcara/src/checker/parallel/mod.rs")],
     tech=BASE + "differential oracle after an injected allocation or thread-creation failure")
prop("C16", "Shared contexts look the same to every thread",
     "Threads that enter, leave and substitute in the same subproof contexts at the same time each see exactly what a thread with private contexts sees: the same context at the same depth, the same substitutions, the same resulting terms. No interleaving deadlocks or crashes.",
     ["schedules", "inputs"], "all nestings of binding contexts and all interleavings of threads entering and leaving them",
     "Tests build contexts in one thread only.", ["carcara/src/ast/context.rs", "carcara/src/ast/substitution.rs", "carcara/src/ast/pool/advanced.rs"], [("context stack built lazily by whichever thread comes first", "carcara/src/ast/context.rs")],
     tech=BASE + "refinement against a private, sequential context stack")
prop("C17", "A killed run does not spoil the next one",
     "If a command that writes files (slicing, generating arithmetic problems, benchmark tables) is killed at any point and run again in the same place, the second run succeeds and leaves exactly the files and output of an undisturbed run, whatever the first left behind.",
     ["crash_points", "histories", "inputs"], "every system call at which the first run can be killed, and stale files of earlier runs",
     "Tests never kill the program, nor run it over existing outputs.", ["cli/src/main.rs", "carcara/src/slice.rs", "cli/src/benchmarking.rs"], [("output files created anew", "cli/src/main.rs")],
     tech=BASE + "crash injection at system calls, durable state kept, refinement against an undisturbed run")
prop("C18", "A proof cut short while being written is never accepted",
     "If a command that prints a proof is killed, or its output fails, what it has printed so far is not accepted by the checker as a complete proof.",
     ["crash_points", "fault_sequences", "inputs"], "every point at which the output of a proof can be cut",
     "Tests never interrupt the printing of a proof.", ["carcara/src/ast/printer.rs", "cli/src/main.rs", "carcara/src/parser/mod.rs"], [("conclusion printed last", "carcara/src/ast/printer.rs")],
     tech=BASE + "crash and write-error injection; the torn output is given to the real checker")

NA = "pure function of its input: no concurrency, time, I/O, randomness or second party takes part, so a simulator has nothing to schedule or to inject; it needs input generation or proof, which is another technique"
def na(id, title, statement, text, tests, files, mech, why=NA): prop(id, title, statement, ["inputs"], text, tests, files, mech, na=why)
na("C30", "The checker accepts only sound steps", "Every step accepted under a rule other than a hole follows from its premises and the enclosing assumptions; a proof reported valid therefore refutes its problem.", "all proofs over all rules", "Tests sample a few dozen applications of each rule.", ["carcara/src/checker/rules"], [("one function per rule", "carcara/src/checker/rules")])
na("C31", "Printing and parsing are inverse", "Printing a parsed proof and parsing the result gives the same proof, with or without sharing.", "all proofs and terms", "Tests round-trip a handful of terms.", ["carcara/src/ast/printer.rs", "carcara/src/parser/mod.rs"], [("printer", "carcara/src/ast/printer.rs")])
na("C32", "Elaboration preserves correctness", "Elaborating an accepted proof without an external solver gives a proof of the same problem that is accepted again, with no more holes.", "all proofs and elaboration pipelines", "Tests elaborate the repository's examples.", ["carcara/src/elaborator"], [("elaboration pipeline", "carcara/src/elaborator/mod.rs")])
na("C33", "Slicing keeps what the step depends on", "The slice of a step contains every command it depends on up to the requested distance and is accepted with the problem it comes with.", "all proofs, steps and distances", "Tests slice a few examples.", ["carcara/src/slice.rs"], [("backward traversal", "carcara/src/slice.rs")])
na("C34", "The parser rejects malformed input without crashing", "Every byte sequence given as a problem or proof is either parsed or rejected with an error; well-sorted input is given the sorts of the standard.", "all byte sequences", "Tests parse a fixed list of inputs.", ["carcara/src/parser"], [("lexer, parser and sort checker", "carcara/src/parser/mod.rs")], why="pure function of the bytes read; the part that concerns inputs cut short by a fault is C09")
na("C35", "Arithmetic in rules is exact", "Linear-arithmetic and bit-vector rules compute with unbounded integers and rationals without rounding or overflow.", "all numbers", "Tests use small numbers.", ["carcara/src/checker/rules/linear_arithmetic.rs", "carcara/src/ast/polyeq.rs"], [("arbitrary-precision numbers", "carcara/src/checker/rules/linear_arithmetic.rs")])

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None
P.sort(key=lambda p: p["rec"]["id"])
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]
        f.write(json.dumps(p["rec"]) + "\n")
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for p in P:
    i = p["rec"]["id"]
    if p["na"]: m["not_applicable"].append({"property": i, "reason": p["na"]})
    else: m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": p["tech"], "level": p["level"], "level_note": p["note"] or "Seeded search over schedules, inputs and faults of the real program; it samples the space, it does not exhaust it. Counts per run are in the evidence file."})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
k = json.load(open(f"{V}/tools/known.json"))
json.dump(k, open(f"{V}/known-findings.json", "w"), indent=1); open(f"{V}/known-findings.json", "a").write("\n")
