//! The properties: workload generators and oracles.
use crate::corpus::{self, Corpus};
use crate::engine::*;
use crate::explore::Judged;
use crate::gen;
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;

pub type GenFn = fn(&mut Rng, u64, Tier, &mut Worker, &Corpus) -> Result<Vec<Scen>, String>;
pub type JudgeFn = fn(&Scen, &mut Worker) -> Result<Judged, String>;
pub struct Prop { pub id: &'static str, pub bin: &'static str, pub level: &'static str, pub gen: GenFn, pub judge: JudgeFn, pub quick: u64, pub thorough: u64, pub rule: &'static str, pub assumptions: &'static [&'static str] }

const SC: &[&str] = &["sequentially consistent memory", "interleavings are explored at atomic operations, lock operations, system calls and thread operations"];
const IO: &[&str] = &["the simulated kernel implements the subset of POSIX the program uses"];
pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", bin: "cli", level: "exploration", gen: gen_c01, judge: judge_c01, quick: 7000, thorough: 280000,
            rule: "A case is a proof (generated, from the cvc5 corpus, or composed of rule snippets; valid, holey, or with 1-3 corrupted commands) checked once sequentially and then by 2-8 workers under several drawn schedules. Non-trivial: a multi-threaded run with at least one preemption or blocking switch; distinct by interleaving hash and input.",
            assumptions: SC },
        Prop { id: "C02", bin: "lib", level: "exploration", gen: crate::props_par::gen_c02, judge: crate::props_par::judge_c02, quick: 6000, thorough: 240000,
            rule: "A case is a generated proof with 1-5 corrupted commands checked by 2-8 workers under drawn schedules, every recorded command logged with its scheduling point. Non-trivial: some other worker was still running when the first worker stopped early; distinct by interleaving hash and input.",
            assumptions: SC },
        Prop { id: "C03", bin: "lib", level: "exploration", gen: crate::props_par::gen_c03, judge: crate::props_par::judge_c03, quick: 7000, thorough: 280000,
            rule: "A case is a proof checked sequentially and by 2-8 workers with a recording statistics collector (library interface), or with --stats (command line); the two recordings are compared as multisets. Non-trivial: a run with at least one context switch; distinct by interleaving hash and input.",
            assumptions: SC },
        Prop { id: "C04", bin: "cli", level: "exploration", gen: crate::props_par::gen_c04, judge: crate::props_par::judge_c04, quick: 4500, thorough: 180000,
            rule: "A case is a proof with several failing commands checked by 2-8 workers; the reported error is looked up in the set of all genuinely failing commands, computed by repeated sequential runs. Non-trivial: a run with at least one context switch; distinct by interleaving hash and input.",
            assumptions: SC },
        Prop { id: "C05", bin: "cli", level: "exploration", gen: crate::props_bench::gen_c05, judge: crate::props_bench::judge_c05, quick: 7000, thorough: 280000,
            rule: "A case is a benchmark over 1-6 proof files (valid, holey, failing, unparsable, unreadable, in nested directories) with 1-3 runs and 1-8 jobs under drawn schedules, directory orders and read errors, compared with checking every file on its own. Non-trivial: a run with at least one context switch; distinct by interleaving hash and input.",
            assumptions: SC },
        Prop { id: "C06", bin: "cli", level: "exploration", gen: crate::props_bench::gen_c06, judge: crate::props_bench::judge_c06, quick: 7000, thorough: 280000,
            rule: "As C05; the rows of runs.csv and steps.csv, or the counts of the printed summary, are compared with the measurements of checking every file on its own. Non-trivial: a run with at least one context switch; distinct by interleaving hash and input.",
            assumptions: SC },
        Prop { id: "C07", bin: "cli", level: "exploration", gen: crate::props_io::gen_c07, judge: crate::props_io::judge_c07, quick: 14000, thorough: 560000,
            rule: "A case is one command on one input, with the input delivered in one piece and then in drawn pieces, with interrupted calls, through standard input, buffered whole, or with an inferred problem file. Non-trivial: at least one short or interrupted read, or standard input; distinct by input and delivery.",
            assumptions: IO },
        Prop { id: "C08", bin: "cli", level: "exploration", gen: crate::props_io::gen_c08, judge: crate::props_io::judge_c08, quick: 20000, thorough: 800000,
            rule: "A case is one command whose reads fail at a drawn byte of a drawn input, or whose open fails. Non-trivial: the error reached the program; distinct by input and fault.",
            assumptions: IO },
        Prop { id: "C09", bin: "cli", level: "exploration", gen: crate::props_io::gen_c09, judge: crate::props_io::judge_c09, quick: 9000, thorough: 360000,
            rule: "A case is one command with one of its input files cut at a drawn byte (short file, or end of file reported early). Every case is non-trivial; distinct by input and position.",
            assumptions: IO },
        Prop { id: "C10", bin: "cli", level: "exploration", gen: crate::props_io::gen_c10, judge: crate::props_io::judge_c10, quick: 14000, thorough: 560000,
            rule: "A case is one command whose writes are cut short, interrupted, or fail from a drawn byte on (standard output, standard error or a created file), or whose output file cannot be created. Non-trivial: a fault fired; distinct by input and fault.",
            assumptions: IO },
        Prop { id: "C11", bin: "cli", level: "exploration", gen: crate::props_solver::gen_c11, judge: crate::props_solver::judge_c11, quick: 3000, thorough: 120000,
            rule: "A case is an elaboration of a proof with steps left to external solvers, whose processes cannot be started, fail, are killed, stall, give garbage or partial replies, close their pipes or fill them. Non-trivial: a solver process was started; distinct by input, scripts, replies and faults.",
            assumptions: IO },
        Prop { id: "C12", bin: "cli", level: "exploration", gen: crate::props_solver::gen_c12, judge: crate::props_solver::judge_c12, quick: 8000, thorough: 320000,
            rule: "A case is an elaboration of a proof with steps left to external solvers that reply with correct refutations in varied forms, or with damaged or exchanged ones; the printed proof is checked again. Non-trivial: a solver process was started; distinct by input, replies and delivery.",
            assumptions: IO },
        Prop { id: "C13", bin: "cli", level: "exploration", gen: crate::props_io::gen_c13, judge: crate::props_io::judge_c13, quick: 15000, thorough: 600000,
            rule: "A case is one command under drawn hash seeds, heap layouts, clocks and processor counts, compared with the default environment. Non-trivial: the run drew randomness; distinct by input and environment.",
            assumptions: IO },
        Prop { id: "C14", bin: "cli", level: "exploration", gen: crate::props_bench::gen_c14, judge: crate::props_bench::judge_c14, quick: 14000, thorough: 560000,
            rule: "A case is a command that measures time, under stopped, jumping, backward and coarse clocks. Non-trivial: more than two clock reads; distinct by input and clock.",
            assumptions: IO },
        Prop { id: "C21", bin: "cli", level: "exploration", gen: crate::props_res::gen_c21, judge: crate::props_res::judge_c21, quick: 5000, thorough: 200000,
            rule: "A case is one command whose simulated run counts threads, solver processes, open files and heap in use at the same time: parallel checks, long benchmarks with few jobs, elaborations with slow solvers, sequential commands. Distinct by command line, inputs and schedule parameters.",
            assumptions: IO },
        Prop { id: "C15", bin: "cli", level: "exploration", gen: crate::props_io::gen_c15, judge: crate::props_io::judge_c15, quick: 16000, thorough: 640000,
            rule: "A case is one command in which a drawn allocation or thread creation fails. Non-trivial: the failure happened; distinct by input and fault.",
            assumptions: IO },
        Prop { id: "C17", bin: "cli", level: "exploration", gen: crate::props_io::gen_c17, judge: crate::props_io::judge_c17, quick: 12000, thorough: 480000,
            rule: "A case is a command that writes files, killed at a drawn system call and run again over what it left. Non-trivial: the killed run left output files; distinct by input and leftovers.",
            assumptions: IO },
        Prop { id: "C18", bin: "cli", level: "exploration", gen: crate::props_io::gen_c18, judge: crate::props_io::judge_c18, quick: 15000, thorough: 600000,
            rule: "A case is a command that prints a proof, killed or failing at a drawn point of its output; what was printed is given to the checker. Non-trivial: something but not everything was printed; distinct by the printed prefix.",
            assumptions: IO },
        Prop { id: "C19", bin: "cli", level: "exploration", gen: crate::props_io::gen_c19, judge: crate::props_io::judge_c19, quick: 14000, thorough: 560000,
            rule: "A case is any command with any of the faults of the other properties (input and output errors, kills, failed allocations and threads, unreliable solvers, drawn schedules) in a directory with bystander files. Non-trivial: the command writes files, starts processes, was killed or had a fault; distinct by input and faults.",
            assumptions: IO },
        Prop { id: "C16", bin: "lib", level: "exploration", gen: crate::props_par::gen_c16, judge: crate::props_par::judge_c16, quick: 3000, thorough: 120000,
            rule: "A case is a generated proof whose commands are dealt at random (with overlap) to 2-8 threads that enter and leave the shared subproof contexts and substitute terms in them, compared with one private stack. Non-trivial: a run with contexts and at least one context switch; distinct by interleaving hash and input.",
            assumptions: SC },
        Prop { id: "C20", bin: "multi", level: "exploration", gen: crate::props_lib::gen_c20, judge: crate::props_lib::judge_c20, quick: 6000, thorough: 240000,
            rule: "A case is a set of two to six library calls (check, parallel check, parse and print, elaborate, slice, generate problems) on one to three proofs, made by one thread in turn or by several at once on a drawn schedule, each compared with the same call in a process of its own. Non-trivial: at least two calls; distinct by interleaving hash, calls and input.",
            assumptions: SC },
    ]
}
pub fn cli(args: &[&str]) -> Vec<String> { std::iter::once("carcara").chain(args.iter().copied()).map(|s| s.to_string()).collect() }

pub struct Base { pub problem: String, pub proof: String, pub flags: Vec<String>, pub expect: String, pub corrupted: Vec<String>, pub src: &'static str }
/// A proof to check: where it comes from and what verdict is known by construction ("" if unknown).
pub fn base(r: &mut Rng, tier: Tier, c: &Corpus, allow_bad: bool) -> Base {
    let big = if tier == Tier::Thorough { 3 } else { 1 };
    match r.below(20) {
        0 | 1 => { let x = &c.cvc5[r.below(c.cvc5.len())]; Base { problem: x.problem.clone(), proof: x.proof.clone(), flags: ["-i", "--allow-int-real-subtyping", "--expand-let-bindings"].map(String::from).to_vec(), expect: String::new(), corrupted: vec![], src: "cvc5" } }
        2..=5 => { let n = r.range(1, 8 * big); let (problem, mut proof) = corpus::combine(c, r, n); let mut expect = String::new(); if allow_bad && r.chance(1, 4) { proof = proof.replacen(":rule ", ":rule no_such_", 1); expect = "invalid".into(); } Base { problem, proof, flags: vec![], expect, corrupted: vec![], src: "snippets" } }
        _ => {
            let o = gen::Opts { size: r.range(2, 30 * big), depth: if r.chance(1, 10) { r.range(6, 14) } else { r.range(1, 5) }, holes: true, end: *r.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4]) };
            let mut p = gen::generate(r, &o); let mut flags = vec![];
            let cor = p.corruptible();
            if allow_bad && r.chance(2, 5) && !cor.is_empty() { let k = r.range(1, 3); p.corrupt_some(r, k); }
            if r.chance(1, 8) { // unknown rules, ignored or allowed
                let c2: Vec<usize> = p.corruptible().into_iter().filter(|i| !p.lines[*i].text.contains(":discharge")).collect(); if !c2.is_empty() && p.corrupted.is_empty() { let i = *r.pick(&c2); if p.lines[i].rule != "assume" { let ru = p.lines[i].rule.clone(); p.lines[i].text = p.lines[i].text.replacen(&format!(":rule {ru}"), ":rule mystery", 1);
                    match r.below(3) { 0 => { flags.push("-i".into()); if p.has_cl { p.expect = "holey".into(); } } 1 => { flags.push("--allowed-rules".into()); flags.push("mystery".into()); if p.has_cl { p.expect = "holey".into(); } } _ => p.expect = "invalid".into() } } }
            }
            if r.chance(1, 12) { flags.extend(["--check-granularity".to_string(), "elaborated".to_string()]); p.expect = String::new(); }
            Base { problem: p.problem.clone(), proof: p.text(), flags, expect: p.expect.clone(), corrupted: p.corrupted.clone(), src: "generated" }
        }
    }
}
pub fn world_check(b: &Base, threads: usize, extra: &[&str]) -> World {
    let mut w = World::default(); let n = threads.to_string();
    w.argv = cli(&["check"]); if threads != 1 { w.argv.extend(["-u".to_string(), n]); } w.argv.extend(extra.iter().map(|s| s.to_string()));
    // list-valued options swallow positional arguments: keep the files behind `--`
    w.argv.extend(b.flags.clone()); w.argv.push("--".into()); w.argv.push("p.alethe".into()); w.argv.push("p.smt2".into());
    w.file("p.alethe", b.proof.as_bytes()).file("p.smt2", b.problem.as_bytes()); if b.flags.iter().any(|f| f == "r.rare") { w.file("r.rare", crate::work::RARE.as_bytes()); } w
}
/// The same invocation with one worker, no faults, default environment.
pub fn sequential_of(sc: &Scen) -> World {
    let mut w = World { files: sc.w.files.clone(), ..Default::default() };
    let mut it = sc.w.argv.iter().cloned().peekable(); while let Some(a) = it.next() { if a == "-u" || a == "--stack-size" { it.next(); continue; } w.argv.push(a); }
    w.p(MODE, 0); w
}
pub fn sig(o: &Outcome, sc: &Scen) -> Option<u64> { if o.switches > 0 { Some(o.sched_hash ^ fnv(&sc.w.files.first().map(|f| f.1.clone()).unwrap_or_default())) } else { None } }
pub fn par_variants(r: &mut Rng, case: u64, prop: &str, b: &Base, w: &mut Worker, k: usize, extra: &[&str]) -> Result<Vec<Scen>, String> {
    let mut v = vec![];
    for _ in 0..k {
        let n = if r.chance(1, 25) { *r.pick(&[6, 7, 9, 16, 33, 70]) } else { *r.pick(&[2, 2, 3, 3, 4, 5, 8]) };
        let mut wd = world_check(b, n, extra); let mut probe = wd.clone(); probe.p(MODE, 0);
        if b.src != "deep terms" && r.chance(1, 40) { let o = r.range(500_000, 20_000_000).to_string(); for x in [&o as &str, "--stack-size"] { crate::work::after_cmd(&mut wd, x); } }
        let ev = w.run_ref("cli", &probe)?.events; draw_schedule(r, &mut wd, ev); if r.chance(1, 3) { draw_environment(r, &mut wd); } else { wd.p(HASH_SEED, r.next()); }
        wd.p(MAX_EVENTS, ev * 50 + 2_000_000).p(CPU_SECONDS, 10);
        let mut s = scen(prop, "par", "cli", case, wd); s.set("shrink", "p.alethe,p.smt2").set("src", b.src).set("threads", n.to_string()); if !b.expect.is_empty() { s.set("expect", b.expect.clone()); } if !b.corrupted.is_empty() { s.set("corrupted", b.corrupted.join(",")); }
        v.push(s);
    }
    Ok(v)
}
pub fn gen_c01(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    if r.chance(1, 60) { let bad = r.chance(1, 4); let (problem, proof) = crate::work::deep(r, bad, 2600); let b = Base { problem, proof, flags: vec![], expect: if bad { "invalid" } else { "valid" }.into(), corrupted: vec![], src: "deep terms" }; return par_variants(r, case, "C01", &b, w, 3, &[]); }
    let b = if r.chance(1, 20) { let bad = r.chance(1, 3); let (problem, proof) = crate::work::rare(r, bad); Base { problem, proof, flags: ["--rare-file", "r.rare"].map(String::from).to_vec(), expect: if bad { "invalid" } else { "" }.into(), corrupted: vec![], src: "rare rewrites" } } else { base(r, tier, c, true) };
    let extra: &[&str] = if r.chance(1, 4) { &["--stats"] } else { &[] }; par_variants(r, case, "C01", &b, w, 8, extra) }
fn judge_c01(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged::default();
    let sq = check_verdict(&w.run_ref("cli", &sequential_of(sc))?); let o = w.run("cli", &sc.w)?; let pv = check_verdict(&o);
    j.evals = 1; if let Some(h) = sig(&o, sc) { j.nontrivial.push(h); }
    *w.stats.outcomes.entry(format!("{}/{}", sq.v, pv.v)).or_default() += 1;
    if sq.v != pv.v { j.bad(format!("verdict {} sequentially, {} in parallel", sq.v, pv.v), format!("sequential: {} {}; parallel ({} workers): {} {}", sq.v, sq.detail, sc.m("threads"), pv.v, pv.detail)); }
    let e = sc.m("expect"); if !e.is_empty() && e != sq.v && sq.v == pv.v { j.bad(format!("verdict {} for a proof that is {} by construction", sq.v, e), format!("{} {}", sq.v, sq.detail)); }
    j.sample = Some(format!("{} proof ({} bytes) by {} workers, seed {:x}: {} ({} switches over {} points)", sc.m("src"), sc.w.files[0].1.len(), sc.m("threads"), sc.w.params.get(&SCHED_SEED).unwrap_or(&0), pv.v, o.switches, o.events));
    Ok(j)
}
