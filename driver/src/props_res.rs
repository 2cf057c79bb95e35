//! C21: threads, solver processes, open files and memory stay within what the command line asks for.
use crate::corpus::{self, Corpus};
use crate::engine::*;
use crate::explore::Judged;
use crate::gen;
use crate::props::cli;
use crate::props_solver::{conditions, problem_at, reply, slow};
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;
use crate::work::*;

const PLENTY: u64 = 150_000_000;
fn num(w: &World, k: &[&str]) -> Option<u64> { w.argv.iter().position(|a| k.contains(&a.as_str())).and_then(|i| w.argv.get(i + 1)).and_then(|s| s.parse().ok()) }
fn sub(w: &World) -> String { w.argv.iter().skip(1).find(|a| ["parse", "check", "elaborate", "bench", "slice", "generate-lia-problems"].contains(&a.as_str())).cloned().unwrap_or_default() }

/// A benchmark over small files that is long compared with the number of jobs, with or without solvers.
fn long_bench(r: &mut Rng, c: &Corpus, tier: Tier) -> World {
    let mut w = World::default(); w.p(MODE, 0).p(MAX_EVENTS, PLENTY).p(CPU_SECONDS, 25); let mut args = vec![]; let jobs = *r.pick(&[1, 1, 2, 2, 3, 4]); let solver = r.chance(1, 3); let mut queries = 0;
    let n = r.range(1, 5);
    for i in 0..n {
        let (a, b) = if solver { let s = problem_at(r, 2, 4 * i, false); for q in &s.qs { w.blobs.push((q.key(), reply(r, q).into_bytes())); } queries += s.qs.len(); (s.problem, s.proof) }
            else { match r.below(4) { 0 => { let n = r.range(1, 4); corpus::combine(c, r, n) } 1 => (corpus::TAIL_PROBLEM.into(), "(assume h1 fin_p)\n(step t1 (cl fin_q) :rule hole)\n".into()), 2 => (corpus::TAIL_PROBLEM.into(), corpus::TAIL_PROOF.into()),
                _ => { let o = gen::Opts { size: r.range(1, 10), depth: 3, holes: true, end: *r.pick(&[0, 0, 0, 1, 2]) }; let p = gen::generate(r, &o); (p.problem.clone(), p.text()) } } };
        let dir = *r.pick(&["", "b/", "b/c/"]); let base = format!("{dir}x{i}.smt2");
        if !(r.chance(1, 12) && !solver) { w.file(&base, a.as_bytes()); } w.file(&format!("{base}.alethe"), b.as_bytes());
        let arg = if dir.is_empty() { format!("{base}.alethe") } else { "b".to_string() }; if !args.contains(&arg) { args.push(arg); }
    }
    let many = if tier == Tier::Thorough { 160 } else { 60 }; let runs = if solver { (30 / queries.max(1)).clamp(1, 8) } else { r.range(many / 2, many) / n + 1 };
    w.argv = cli(&["bench", "-n", &runs.to_string(), "-j", &jobs.to_string()]); if r.chance(1, 2) { w.argv.push("--dump-to-csv".into()); }
    if solver { for x in ["--elaborate", "-i", "--lia-solver", "smt", "--lia-solver-args", "lia", "--hole-solver", "smt", "--hole-solver-args", "hole"] { w.argv.push(x.into()); } for _ in 0..r.range(1, 4) { w.solvers.push(slow(r)); } }
    else if r.chance(1, 3) { w.argv.push("--elaborate".into()); }
    w.argv.push("--".into()); w.argv.extend(args); w
}
/// A benchmark over many copies of one sizeable proof.
fn many_copies(r: &mut Rng, c: &Corpus, tier: Tier) -> World {
    let mut w = World::default(); w.p(MODE, 0).p(MAX_EVENTS, PLENTY).p(CPU_SECONDS, 25);
    let (a, b) = if r.chance(1, 2) { let n = r.range(5, 15); corpus::combine(c, r, n) } else { let o = gen::Opts { size: r.range(20, 60), depth: 3, holes: true, end: *r.pick(&[0, 0, 0, 1, 2]) }; let p = gen::generate(r, &o); (p.problem.clone(), p.text()) };
    let n = if tier == Tier::Thorough { r.range(30, 120) } else { r.range(25, 45) }; let mut args = vec![];
    for i in 0..n { let f = format!("x{i}.smt2"); w.file(&f, a.as_bytes()); w.file(&format!("{f}.alethe"), b.as_bytes()); args.push(format!("{f}.alethe")); }
    w.argv = cli(&["bench", "-n", "1", "-j", if r.chance(3, 4) { "1" } else { "2" }]); if r.chance(1, 2) { w.argv.push("--dump-to-csv".into()); } if r.chance(1, 4) { w.argv.push("--elaborate".into()); } if r.chance(1, 4) { w.argv.push("--buffer-entire-file".into()); }
    w.argv.push("--".into()); w.argv.extend(args); w
}
pub fn gen_c21(r: &mut Rng, case: u64, tier: Tier, wk: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let (base, kind) = match r.below(10) {
        0..=2 => { let mut k = work(r, tier, c, &["par", "par", "stats"], true); if k.cmd == "par" && r.chance(1, 2) { let i = k.w.argv.iter().position(|a| a == "-u").unwrap(); k.w.argv[i + 1] = r.range(1, 24).to_string(); }
            if r.chance(1, 3) { let big = r.chance(1, 4); if big { if let Some(i) = k.w.argv.iter().position(|a| a == "-u") { k.w.argv[i + 1] = r.range(1, 4).to_string(); } } let o = if big { r.range(20_000_000, 300_000_000) } else { r.range(400_000, 20_000_000) }.to_string(); if !k.w.argv.iter().any(|a| a == "--stack-size") { after_cmd(&mut k.w, &o); after_cmd(&mut k.w, "--stack-size"); } } (k.w, "check") }
        3..=5 => (long_bench(r, c, tier), "bench"),
        6 => (many_copies(r, c, tier), "copies"),
        7 => (crate::props_bench::bench_work(r, tier, c, true).0.w, "bench"),
        8 => { let mut w = crate::props_solver::obedient(r); w.solvers = (0..r.range(1, 4)).map(|_| slow(r)).collect(); (w, "solver") }
        _ => (work(r, tier, c, &["check", "parse", "elaborate", "slice", "glia"], true).w, "sequential"),
    };
    let mut v = vec![]; let ev = wk.run_ref("cli", &base)?.events;
    for i in 0..3 {
        let mut w = base.clone(); if kind == "solver" { conditions(r, &mut w); } if i > 0 && kind != "sequential" { draw_schedule(r, &mut w, ev); } w.p(IO_SEED, r.next()); if r.chance(1, 3) { w.p(DIR_SHUFFLE, 1); } if r.chance(1, 4) { draw_environment(r, &mut w); w.p(CLOCK_MODE, 0); }
        w.p(NCPU, r.range(1, 64) as u64); w.p(MAX_EVENTS, ev * 50 + 20_000_000);
        let mut s = scen("C21", kind, "cli", case, w); s.set("cmd", kind); v.push(s);
    }
    Ok(v)
}
pub fn judge_c21(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() }; let o = w.run("cli", &sc.w)?; if let Some(v) = crash_of(&o) { if matches!(v.v.as_str(), "deadlock") { j.bad(v.v, v.detail); } return Ok(j); }
    let cmd = sub(&sc.w); let jobs = if cmd == "bench" { num(&sc.w, &["-j", "--num-jobs"]).unwrap_or(1) } else { 1 }; let par = num(&sc.w, &["-u", "--num-threads"]); let solver = sc.w.argv.iter().any(|a| a == "--lia-solver" || a == "--hole-solver");
    let (threads, fds, kids, stack, mem) = (o.cnt("max_live_threads"), o.cnt("max_open_fds"), o.cnt("max_live_solvers"), o.cnt("min_stack"), o.cnt("peak_heap"));
    j.nontrivial.push(fnv(format!("{:?}{:?}", sc.w.argv, sc.w.params).as_bytes()) ^ sc.w.files.iter().fold(0u64, |a, f| a.rotate_left(3) ^ fnv(&f.1)));
    let what = format!("{}", sc.w.argv[1..].join(" "));
    let most = 1 + match cmd.as_str() { "bench" => jobs, "check" => par.unwrap_or(0), _ => 0 } + if solver { 3 * jobs } else { 0 };
    if threads > most { j.bad("more threads at once than were asked for", format!("{threads} threads (the limit is {most}): {what}")); }
    if kids > jobs { j.bad("more solver processes at once than jobs", format!("{kids} solver processes: {what}")); }
    let most = 8 + 2 * jobs + if solver { 8 * jobs } else { 0 };
    if fds > most { j.bad("more files open at once than the jobs need", format!("{fds} open files and pipes (the limit is {most}), {} opened in all: {what}", o.cnt("opens") + o.cnt("creates"))); }
    if cmd == "check" && stack > 0 && num(&sc.w, &["--stack-size"]).unwrap_or(0) > 0 { let want = num(&sc.w, &["--stack-size"]).unwrap(); if stack < want { j.bad("a worker got a smaller stack than was asked for", format!("{stack} instead of {want} bytes: {what}")); } w.stats.hit("worker stacks compared"); }
    // what is kept of a benchmark's files after they are done are measurements: the memory in use is that of the files being worked on
    if cmd == "bench" && o.end == End::Exit(0) { if let (Some(n), true) = (num(&sc.w, &["-n"]), jobs > 0) { if n > 0 {
        let mut one = sc.w.clone(); one.params.clear(); one.p(MODE, 0).p(MAX_EVENTS, PLENTY).p(CPU_SECONDS, 25); for (k, x) in [("-n", "1"), ("-j", "1")] { if let Some(i) = one.argv.iter().position(|a| a == k) { one.argv[i + 1] = x.into(); } }
        if sc.kind == "copies" { let i = one.argv.iter().position(|a| a == "--").unwrap(); one.argv.truncate(i + 2); }
        let rows = ["runs.csv", "steps.csv"].iter().filter_map(|n| o.stream(&format!("out:{n}"))).map(|t| t.len() as u64).sum::<u64>(); let b = w.run_ref("cli", &one)?; let done = o.cnt("opens"); let limit = jobs * (b.cnt("peak_heap") + 16384) + 400 * done + 12 * rows + 1500 * o.cnt("spawns");
        if std::env::var("SIM_RES").is_ok() { eprintln!("mem {mem} one {} limit {limit} jobs {jobs} csv {rows} opens {done} spawns {}", b.cnt("peak_heap"), o.cnt("spawns")); }
        if b.end == End::Exit(0) { w.stats.hit("memory of a long benchmark compared"); if mem > limit { j.bad("a benchmark holds on to memory of files it is done with", format!("{mem} bytes of heap at once, where one run of {} file needs {}: {what}", if sc.kind == "copies" { "one" } else { "every" }, b.cnt("peak_heap"))); } }
    } } }
    w.stats.hit(&format!("{}, {threads} threads at once", sc.kind)); if kids > 1 { w.stats.hit("several solver processes at once"); }
    j.sample = Some(format!("{what}: {threads} threads, {fds} files and pipes, {kids} solvers at once, {mem} bytes of heap at most")); Ok(j)
}
