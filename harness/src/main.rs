//! Drives the public library interface of carcara inside the simulator and reports what happened.
//!   par THREADS STACK [flags] PROOF PROBLEM    parallel check, with a log of every recorded command
//!   seq [flags] PROOF PROBLEM                  sequential check, same log
//!   ctx THREADS SEED PROOF PROBLEM             shared context stacks walked by several threads
use carcara::ast::pool::advanced::{ContextPool, LocalPool};
use carcara::ast::*;
use carcara::benchmarking::{CollectResults, CsvBenchmarkResults, Metrics, OnlineBenchmarkResults, RunMeasurement};
use carcara::checker::{self, CheckerStatistics, ParallelProofChecker, ProofChecker, Scheduler};
use carcara::{parser, Error};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::BufReader;
use std::sync::Arc;
use std::time::Duration;

extern "C" {
    fn sim_event() -> u64;
    fn sim_tid() -> i32;
    fn sim_threads() -> i32;
    fn sim_exit_event(t: i32) -> u64;
}

struct Entry { tid: i32, ev: u64, what: char, id: String, rule: String }
/// Appending to the log is not a scheduling point: the simulator runs one thread at a time and switches
/// only at instrumented operations, of which there are none between the allocation and the push.
struct Log(UnsafeCell<Vec<Entry>>);
unsafe impl Sync for Log {}
static LOG: Log = Log(UnsafeCell::new(Vec::new()));
fn log(what: char, id: &str, rule: &str) {
    let e = unsafe { Entry { tid: sim_tid(), ev: sim_event(), what, id: id.to_owned(), rule: rule.to_owned() } };
    unsafe { (*LOG.0.get()).push(e) }
}

#[derive(Default)]
struct Rec { items: Vec<(char, String, String)>, easy: usize, misfiled: usize, depths: Vec<usize>, online: OnlineBenchmarkResults, csv: CsvBenchmarkResults }
impl CollectResults for Rec {
    fn add_step_measurement(&mut self, file: &str, id: &str, rule: &str, _: Duration) {
        let t = Duration::from_nanos(ns(id)); self.online.add_step_measurement(file, id, rule, t); self.csv.add_step_measurement(file, id, rule, t);
        let k = if rule.starts_with("anchor") { 'A' } else { 'S' };
        self.misfiled += (file != "f") as usize; log(k, id, rule);
        self.items.push((k, id.into(), rule.into()));
    }
    fn add_assume_measurement(&mut self, file: &str, id: &str, easy: bool, _: Duration) {
        let t = Duration::from_nanos(ns(id)); self.online.add_assume_measurement(file, id, easy, t); self.csv.add_assume_measurement(file, id, easy, t);
        self.misfiled += (file != "f") as usize; log('P', id, "assume");
        self.easy += easy as usize;
        self.items.push(('P', id.into(), "assume".into()));
    }
    fn add_polyeq_depth(&mut self, d: usize) { self.depths.push(d); self.online.add_polyeq_depth(d); self.csv.add_polyeq_depth(d); }
    fn add_run_measurement(&mut self, _: &(String, usize), _: RunMeasurement) {}
    fn register_holey(&mut self) {}
    fn register_error(&mut self, _: &Error) {}
    fn combine(mut a: Self, b: Self) -> Self { a.items.extend(b.items); a.easy += b.easy; a.misfiled += b.misfiled; a.depths.extend(b.depths); a.online = CollectResults::combine(a.online, b.online); a.csv = CollectResults::combine(a.csv, b.csv); a }
}
/// A made-up duration for a command, so that totals tell which ones were counted.
fn ns(id: &str) -> u64 { 1000 + id.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)) % 100_000 }
/// What the program's own collectors say after combining the workers' results.
fn own(stats: Rec, o: &mut String) {
    let n = &stats.online; let mut l = vec![format!("assumes {} easy {}", n.num_assumes, n.num_easy_assumes), format!("steps {} total {:?}", n.step_time.count(), n.step_time.total())];
    if n.step_time.count() > 0 { l.push(format!("longest {:?} shortest {:?}", n.step_time.max().1, n.step_time.min().1)); }
    for (k, m) in &n.step_time_by_rule { l.push(format!("rule {k} {} {:?} {:?} {:?}", m.count(), m.total(), m.max().1, m.min().1)); }
    for (k, m) in &n.step_time_by_file { l.push(format!("file {k} {} {:?}", m.count(), m.total())); }
    if n.polyeq_depths.count() > 0 { l.push(format!("depths {} {} {}", n.polyeq_depths.count(), n.polyeq_depths.total(), n.polyeq_depths.max().1)); }
    let (mut a, mut b) = (vec![], vec![]); stats.csv.write_csv(&mut a, &mut b).unwrap(); l.extend(String::from_utf8(b).unwrap().lines().skip(1).map(|x| format!("row {x}")));
    l.sort(); for x in l { o.push_str(&format!("own {x}\n")); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("--version") => {}
        Some("par") => check(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4..]),
        Some("seq") => check(0, 0, &a[2..]),
        Some("ctx") => ctx(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4..]),
        _ => std::process::exit(64),
    }
}
fn load(args: &[String]) -> Option<(Problem, Proof, carcara::ast::rare_rules::Rules, PrimitivePool, checker::Config)> {
    let (mut pc, mut cc) = (parser::Config::new(), checker::Config::new());
    let mut files = vec![]; let mut allowed = vec![]; let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "-i" => cc.ignore_unknown_rules = true,
            "--allow-int-real-subtyping" => pc.allow_int_real_subtyping = true,
            "--expand-let-bindings" => pc.expand_lets = true,
            "--check-granularity" => { i += 1; cc.elaborated = args[i] == "elaborated"; }
            "--allowed-rules" => { while i + 1 < args.len() && !args[i + 1].starts_with('-') { i += 1; allowed.push(args[i].clone()); } }
            "--" => {}
            f => files.push(f.to_string()),
        }
        i += 1;
    }
    cc.allowed_rules = allowed.into_iter().collect();
    let open = |f: &str| BufReader::new(File::open(f).unwrap());
    match parser::parse_instance(open(&files[1]), open(&files[0]), None, pc) {
        Ok((p, q, r, pool)) => Some((p, q, r, pool, cc)),
        Err(e) => { println!("verdict parse-error {e}"); None }
    }
}
fn report(res: Result<bool, Error>, stats: CheckerStatistics<Rec>, mut pre: String) {
    pre.push_str(&format!("times {} {} {}\n", stats.polyeq_time.as_nanos(), stats.assume_time.as_nanos(), stats.assume_core_time.as_nanos())); let stats = stats.results;
    let mut o = pre;
    for e in unsafe { &*LOG.0.get() } { o.push_str(&format!("log {} {} {} {} {}\n", e.tid, e.ev, e.what, e.id, e.rule)); }
    unsafe { for t in 1..sim_threads() { let x = sim_exit_event(t); if x != u64::MAX { o.push_str(&format!("exit {t} {x}\n")); } } }
    for (k, id, r) in &stats.items { o.push_str(&format!("merged {k} {id} {r}\n")); }
    let mut d = stats.depths.clone(); d.sort();
    o.push_str(&format!("stats misfiled={} easy={} depths={:?}\n", stats.misfiled, stats.easy, d));
    own(stats, &mut o);
    o.push_str(&match res { Ok(false) => "verdict valid\n".into(), Ok(true) => "verdict holey\n".into(), Err(e) => format!("verdict error {e}\n") });
    print!("{o}");
}
fn check(threads: usize, stack: usize, args: &[String]) {
    let Some((problem, proof, rules, mut pool, cc)) = load(args) else { return };
    unsafe { (*LOG.0.get()).reserve(1 << 16) };
    let mut stats = CheckerStatistics { file_name: "f", polyeq_time: Duration::ZERO, assume_time: Duration::ZERO, assume_core_time: Duration::ZERO, results: Rec::default() };
    if threads == 0 {
        let res = ProofChecker::new(&mut pool, &rules, cc).check_with_stats(&problem, &proof, &mut stats);
        return report(res, stats, String::new());
    }
    let (scheduler, usage) = Scheduler::new(threads, &proof);
    let mut pre = String::new();
    for (i, l) in scheduler.loads.iter().enumerate() {
        pre.push_str(&format!("load {i}"));
        let mut it = l.iter(&proof.commands);
        while let Some(c) = it.next() {
            // assumptions inside subproofs are not recorded
            let k = match c { ProofCommand::Subproof(_) => 'A', ProofCommand::Assume { .. } if it.is_in_subproof() => 'H', ProofCommand::Assume { .. } => 'P', _ => 'S' };
            pre.push_str(&format!(" {k}:{}", c.id()));
        }
        pre.push('\n');
    }
    let mut ck = ParallelProofChecker::new(Arc::new(pool), cc, &problem.prelude, &usage, stack, rules);
    let res = ck.check_with_stats(&problem, &proof, &scheduler, &mut stats);
    report(res, stats, pre);
}

// ---------------------------------------------------------------- shared contexts
enum Act<'a> { Push(&'a [AnchorArg], usize, String), Pop, Term(String, &'a Rc<Term>) }
/// A thread's walk: the commands it was given, with the subproofs around them entered and left.
fn walk<'a>(cmds: &'a [ProofCommand], pick: &mut dyn FnMut() -> bool, out: &mut Vec<Act<'a>>) -> bool {
    let mut any = false;
    for c in cmds {
        match c {
            ProofCommand::Subproof(s) => {
                let at = out.len();
                out.push(Act::Push(&s.args, s.context_id, c.id().to_owned()));
                if walk(&s.commands, pick, out) || pick() { out.push(Act::Pop); any = true; } else { out.truncate(at); }
            }
            ProofCommand::Step(st) => if pick() { for t in &st.clause { out.push(Act::Term(st.id.clone(), t)); } any = true; },
            ProofCommand::Assume { id, term } => if pick() { out.push(Act::Term(id.clone(), term)); any = true; },
        }
    }
    any
}
fn run_walk(acts: &[Act], st: &mut ContextStack, pool: &mut dyn TermPool, shared: bool, out: &mut Vec<(String, String)>) {
    let mut n = 0;
    let mut args_seen: Vec<usize> = vec![];
    for a in acts {
        match a {
            Act::Push(args, id, name) => {
                if shared { st.push_with_id(args, *id); } else { st.push(args); }
                args_seen.push(args.len());
                // what a rule sees of the innermost context
                let g = st.last().unwrap();
                let txt = match g.as_ref() { None => "none".to_string(), Some(c) => c.args.iter().map(|x| match x { AnchorArg::Variable((n, s)) => format!("({n} {s})"), AnchorArg::Assign(n, t) => format!("(:= {} {t})", n.0) }).collect::<Vec<_>>().join(" ") };
                drop(g); out.push((format!("{name}/args"), txt));
            }
            Act::Pop => { st.pop(); args_seen.pop(); }
            Act::Term(id, t) => {
                let r = st.apply(pool, t); let r2 = st.apply(pool, t); let p = st.apply_previous(pool, t);
                let mut fv: Vec<String> = pool.free_vars(&r).iter().map(|x| x.to_string()).collect(); fv.sort();
                out.push((format!("{id}/{n}/{}", t), format!("{r} : {} | previous {p} : {} | free {} | stable {}", pool.sort(&r), pool.sort(&p), fv.join(","), r == r2)));
                n += 1; let _ = n; n = 0;
            }
        }
    }
}
fn ctx(threads: usize, seed: u64, args: &[String]) {
    let Some((_, proof, _, mut pool, _)) = load(args) else { return };
    USE_SHARING_IN_TERM_DISPLAY.store(false, std::sync::atomic::Ordering::Relaxed);
    let mut s = seed;
    let mut next = move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as usize };
    // which threads run each command: between one and all of them
    let mut walks: Vec<Vec<Act>> = vec![];
    for _ in 0..threads { let den = 1 + next() % 4; let mut f = || next() % (den + 1) < den; let mut w = vec![]; walk(&proof.commands, &mut f, &mut w); walks.push(w); }
    let ncontexts = { fn m(c: &[ProofCommand]) -> usize { c.iter().map(|x| if let ProofCommand::Subproof(s) = x { (s.context_id + 1).max(m(&s.commands)) } else { 0 }).max().unwrap_or(0) } m(&proof.commands) };
    let mut usage = vec![0usize; ncontexts];
    for w in &walks { for a in w { if let Act::Push(_, id, _) = a { usage[*id] += 1; } } }
    // single-threaded reference, one walk over everything
    let mut all = vec![]; walk(&proof.commands, &mut || true, &mut all);
    // the global pool is shared read-only afterwards, so the reference gets its own parse
    let Some((_, proof2, _, mut pool2, _)) = load(args) else { return };
    let mut all2 = vec![]; walk(&proof2.commands, &mut || true, &mut all2); let _ = (&all, &mut pool);
    let mut refs = vec![]; run_walk(&all2, &mut ContextStack::new(), &mut pool2, false, &mut refs);
    let want: BTreeMap<String, String> = refs.into_iter().collect();
    let pool = Arc::new(pool); let cp = ContextPool::from_global(&pool); let root = ContextStack::from_usage(&usage);
    let outs: Vec<Vec<(String, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = walks.iter().map(|w| { let mut st = ContextStack::from_previous(&root); let mut lp = LocalPool::from_previous(&cp); std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { let mut o = vec![]; run_walk(w, &mut st, &mut lp, true, &mut o); o }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (mut n, mut bad) = (0, 0);
    for (t, o) in outs.iter().enumerate() { for (k, v) in o { n += 1; if want.get(k) != Some(v) { bad += 1; if bad < 4 { println!("mismatch thread {t} at {k}\n  single: {:?}\n  shared: {v:?}", want.get(k)); } } if v.ends_with("stable false") { bad += 1; println!("unstable {k} {v}"); } } }
    println!("compared {n} bad {bad} contexts {ncontexts}");
}
