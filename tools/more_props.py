SOLV = ["carcara/src/elaborator/lia_generic.rs", "carcara/src/elaborator/hole.rs", "carcara/src/external.rs", "carcara/src/elaborator/mod.rs"]
SOLV = [f for f in SOLV if os.path.exists("/repo/" + f)]
prop("C11", "An unreliable solver never spoils an elaboration",
     "Elaborating with external solvers ends without crashing, whatever the solvers do: fail to start, die, print garbage, stop reading, print before reading everything, or report failure. An accepted proof stays accepted and becomes no less complete; each step whose solver failed is left as it was and the others are elaborated as if nothing had happened. Every solver process started is waited for.",
     ["fault_sequences", "inputs", "schedules", "configurations"], "all solver behaviours at the level of process creation, pipes, output and exit status, in elaborate and bench, for every step that asks a solver, in any order of failures",
     "The tests never start a solver; behaviour on one that misbehaves, or that interleaves its reading and writing with carcara's, is not exercised.",
     SOLV, [("processes started, fed and read", SOLV[0]), ("steps left as they were if the solver fails", SOLV[0])],
     tech=BASE + "scripted solver processes with seeded faults; refinement against a run in which the same solvers fail plainly; the printed proof is given to the real checker")
prop("C12", "A solver's reply is used only if it fits",
     "Whatever proof an external solver replies with (late, for another query, damaged, with additional or reordered assumptions, with clashing names), the elaborated proof is accepted whenever the original is. A correct reply replaces the step it was asked for; the result depends on the content of the replies only, not on how and when they arrive.",
     ["fault_sequences", "inputs", "configurations"], "all replies, deliveries of replies and assignments of replies to queries",
     "The tests never start a solver, so no reply other than a maintainer's own is ever processed.",
     SOLV, [("reply parsed and checked", SOLV[0]), ("reply inserted as a subproof", SOLV[0])],
     tech=BASE + "scripted solver processes replying with correct, misdelivered and damaged proofs; the printed proof is given to the real checker; delivery compared with one-piece delivery")

prop("C19", "A command writes only the files it was asked to write",
     "Whatever fails, a command creates or changes no file other than the outputs documented for it, leaves its inputs and all other files as they were, and starts no program other than the configured solvers with the configured arguments. If it succeeds, all of its documented outputs are there.",
     ["fault_sequences", "crash_points", "inputs", "configurations"], "all commands and inputs, all faults and schedules of the other properties",
     "Tests do not look at the file system, and never make a command fail half-way.",
     ["cli/src/main.rs", "cli/src/benchmarking.rs", "carcara/src/slice.rs"] + SOLV[:2], [("output files", "cli/src/main.rs"), ("solver processes", SOLV[0])],
     tech=BASE + "invariant over the simulated file system and process table at the end of every run")
prop("C20", "Instances in one process do not influence each other",
     "Checking, parallel checking, parsing and printing, elaborating, slicing and generating problems give the same result (verdict, error message, printed proof) whatever other such calls the same process has made before or is making in other threads, on the same or other files.",
     ["schedules", "histories", "inputs", "configurations"], "all sequences and concurrent combinations of library calls",
     "Each test looks at the result of one call; what a call leaves behind in the process, or does to one that is running at the same time, is not examined.",
     ["carcara/src/lib.rs", "carcara/src/ast/pool", "carcara/src/ast/printer.rs", "carcara/src/elaborator/mod.rs", "carcara/src/slice.rs"], [("library entry points", "carcara/src/lib.rs"), ("term pools", "carcara/src/ast/pool/mod.rs")],
     tech=BASE + "concurrent and consecutive library calls in one simulated process, refinement against the same call alone")
prop("C21", "Threads, files, solvers and memory stay within what was asked for",
     "A parallel check runs at most as many worker threads at once as requested, each with at least the requested stack; other checks run in one thread. A benchmark works on at most as many files at once as it has jobs: the threads, solver processes, open files and memory in use at one time are bounded by the number of jobs, however many files and runs there are (measurements aside). An elaboration runs one solver at a time.",
     ["schedules", "inputs", "configurations"], "all proofs, benchmark sets, numbers of threads, jobs and runs, and schedules",
     "No test counts threads, processes, descriptors or bytes in use at the same time, and their number only matters in runs longer than any test.",
     ["cli/src/benchmarking.rs", "carcara/src/checker/parallel/mod.rs", "carcara/src/elaborator/lia_generic.rs", "carcara/src/elaborator/hole.rs"], [("benchmark workers", "cli/src/benchmarking.rs"), ("check workers", "carcara/src/checker/parallel/mod.rs"), ("solver processes", "carcara/src/elaborator/lia_generic.rs")],
     tech=BASE + "the simulated kernel's count of live threads, processes, descriptors and heap bytes, bounded by the requested numbers and compared with a single run of the same files")
