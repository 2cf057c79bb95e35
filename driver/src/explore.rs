//! Seeded exploration, minimisation, replay and evidence.
use crate::engine::*;
use crate::json::J;
use crate::props::{self, Prop};
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::{self, CNAMES};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Finding { pub class: String, pub detail: String }
#[derive(Default)]
pub struct Judged { pub findings: Vec<Finding>, pub nontrivial: Vec<u64>, pub evals: u64, pub sample: Option<String> }
impl Judged {
    pub fn bad(&mut self, class: impl Into<String>, detail: impl Into<String>) { self.findings.push(Finding { class: class.into(), detail: detail.into() }); }
}
struct Shared { stats: Stats, evals: u64, distinct: HashSet<u64>, samples: Vec<String>, found: Vec<(u64, usize, Scen, Finding)>, known: BTreeMap<String, u64>, err: Option<String>, cases: u64, rechecked: u64 }

#[derive(Clone)]
pub struct Known { pub prop: String, pub class: String, pub detail: String, pub text: String }
pub fn load_known(verif: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{verif}/known-findings.json")) else { return vec![] };
    let j = J::parse(&t).unwrap_or(J::Null);
    j.get("findings").arr().iter().map(|f| Known { prop: f.get("property").str().into(), class: f.get("class").str().into(), detail: f.get("detail_contains").str().into(), text: f.get("what").str().into() }).collect()
}
fn is_known<'a>(k: &'a [Known], prop: &str, f: &Finding) -> Option<&'a Known> { k.iter().find(|x| x.prop == prop && x.class == f.class && f.detail.contains(&x.detail)) }

pub struct Cfg { pub verif: String, pub bins: Arc<Bins>, pub seed: u64, pub tier: Tier, pub workers: usize }

pub fn check(p: &Prop, cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let known = load_known(&cfg.verif);
    let (cases, cap) = match cfg.tier { Tier::Quick => (p.quick, Duration::from_secs(envn("SIM_QUICK_CAP", 150))), Tier::Thorough => (p.thorough, Duration::from_secs(envn("SIM_THOROUGH_CAP", 780))) };
    let cases = envn("SIM_CASES", cases);
    let next = AtomicU64::new(0); let stop = AtomicBool::new(false);
    let sh = Mutex::new(Shared { stats: Stats::default(), evals: 0, distinct: HashSet::new(), samples: vec![], found: vec![], known: BTreeMap::new(), err: None, cases: 0, rechecked: 0 });
    let corpus = Arc::new(crate::corpus::load());
    std::thread::scope(|s| {
        for wi in 0..cfg.workers {
            let (next, stop, sh, known, corpus) = (&next, &stop, &sh, &known, corpus.clone());
            s.spawn(move || {
                let mut w = Worker::new(wi, cfg.bins.clone());
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > cap { break; }
                    let c = next.fetch_add(1, Ordering::Relaxed); if c >= cases { break; }
                    let mut r = Rng::of(&[cfg.seed, fnv(p.id.as_bytes()), c]);
                    let res = (|| -> Result<Vec<(usize, Scen, Judged, Option<bool>)>, String> {
                        let scs = (p.gen)(&mut r, c, cfg.tier, &mut w, &corpus)?; let mut out = vec![];
                        for (i, sc) in scs.into_iter().enumerate() {
                            let j = (p.judge)(&sc, &mut w)?; let mut re = None;
                            if Rng::of(&[c, i as u64, 77]).chance(1, 40) { let a = w.run(&sc.bin, &sc.w)?.digest(); let b = w.run(&sc.bin, &sc.w)?.digest(); re = Some(a == b); }
                            let bad = !j.findings.is_empty(); out.push((i, sc, j, re)); if bad { break; }
                        }
                        Ok(out)
                    })();
                    w.drop_cache();
                    let mut g = sh.lock().unwrap();
                    match res {
                        Err(e) => { g.err = Some(format!("case {c}: {e}")); stop.store(true, Ordering::Relaxed); break; }
                        Ok(v) => { g.cases += 1; for (i, sc, j, re) in v {
                            g.evals += j.evals.max(1); g.distinct.extend(j.nontrivial.iter());
                            if let Some(ok) = re { g.rechecked += 1; if !ok { g.err = Some(format!("case {c}: two executions of one configuration differ (replay {})", dump(cfg, &sc, "nondet"))); stop.store(true, Ordering::Relaxed); } }
                            if let Some(x) = j.sample { if g.samples.len() < 4 && !j.nontrivial.is_empty() { g.samples.push(x); } }
                            for f in j.findings { if let Some(k) = is_known(known, p.id, &f) { *g.known.entry(k.text.clone()).or_default() += 1; } else { g.found.push((c, i, sc.clone(), f)); if std::env::var("SIM_KEEP_GOING").is_err() { stop.store(true, Ordering::Relaxed); } } }
                        } }
                    }
                }
                sh.lock().unwrap().stats.merge(&w.stats);
            });
        }
    });
    let mut g = sh.into_inner().unwrap();
    let explored = t0.elapsed();
    for (k, n) in &g.known { println!("KNOWN-FINDING: property={} {} (seen {n} times)", p.id, k); }
    if std::env::var("SIM_KEEP_GOING").is_ok() { let mut h: BTreeMap<String, (u64, String, u64)> = BTreeMap::new(); for (c, _, _, f) in &g.found { let e = h.entry(f.class.clone()).or_insert((0, f.detail.clone(), *c)); e.0 += 1; } for (k, (n, d, c)) in h { println!("  {n:5} {k}  e.g. case {c}: {d}"); } }
    let mut code = 0;
    if let Some(e) = &g.err { if g.found.is_empty() { eprintln!("check error: {e}"); code = 2; } }
    g.found.sort_by_key(|x| (x.0, x.1));
    if let Some((c, _, sc, f)) = g.found.first().cloned() {
        println!("case {c}: {} -- {}", f.class, f.detail);
        let mut w = Worker::new(0, cfg.bins.clone());
        let small = shrink(p, &sc, &f.class, &mut w, Duration::from_secs(envn("SIM_SHRINK", 60)));
        let mut fresh = Worker::new(1, cfg.bins.clone()); fresh.fresh = true;
        match (p.judge)(&small, &mut fresh) {
            Ok(j) if j.findings.iter().any(|x| x.class == f.class) => { let d = &j.findings.iter().find(|x| x.class == f.class).unwrap().detail; let mut s2 = small.clone(); s2.set("violation_class", f.class.clone()).set("violation", d.clone()); let path = dump(cfg, &s2, "violation"); println!("minimised: {} -- {}", f.class, d); println!("VIOLATION property={} replay={}", p.id, path); code = 1; }
            _ if (0..3).any(|_| matches!((p.judge)(&sc, &mut fresh), Ok(j) if j.findings.iter().any(|x| x.class == f.class))) => { let mut s2 = sc.clone(); s2.set("violation_class", f.class.clone()).set("violation", f.detail.clone()); let path = dump(cfg, &s2, "violation"); println!("VIOLATION property={} replay={}", p.id, path); code = 1; }
            Ok(j) => { eprintln!("check error: violation did not reproduce in a fresh process: {:?} (was {f:?}) {}", j.findings, dump(cfg, &sc, "flaky")); code = 2; }
            Err(e) => { eprintln!("check error: {e}"); code = 2; }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(p, cfg, &g.stats, g.evals, &g.distinct, &g.samples, wall, explored.as_secs_f64(), if code == 1 { 1 } else { 0 }, g.cases, g.rechecked, &g.known);
    println!("{} {:?} seed {}: {} cases, {} evaluations, {} simulated runs, {} distinct non-trivial, {} distinct schedules, {:.1} s -> exit {code}", p.id, cfg.tier, cfg.seed, g.cases, g.evals, g.stats.runs, g.distinct.len(), g.stats.sched.len(), wall);
    code
}
fn envn(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d) }
fn dump(cfg: &Cfg, sc: &Scen, tag: &str) -> String {
    let dir = format!("{}/.replays", cfg.verif); let _ = std::fs::create_dir_all(&dir);
    let body = sc.to_json().render(); let path = format!("{dir}/{}-{tag}-{:08x}.json", sc.prop, fnv(body.as_bytes()) as u32); let _ = std::fs::write(&path, body); path
}
pub fn replay(path: &str, cfg: &Cfg) -> i32 {
    let sc = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| J::parse(&t)).and_then(|j| Scen::from_json(&j)) { Ok(s) => s, Err(e) => { eprintln!("{path}: {e}"); return 2; } };
    let Some(p) = props::all().into_iter().find(|p| p.id == sc.prop) else { eprintln!("unknown property {}", sc.prop); return 2 };
    let mut w = Worker::new(0, cfg.bins.clone()); w.fresh = true;
    match (p.judge)(&sc, &mut w) {
        Err(e) => { eprintln!("error: {e}"); 2 }
        Ok(j) => { for f in &j.findings { println!("{} -- {}", f.class, f.detail); }
            if std::env::var("SIM_SHOW").is_ok() { if let Ok(o) = w.run(&sc.bin, &sc.w) { println!("end {:?} {}", o.end, o.msg); for (n, b) in &o.streams { println!("--- {n}\n{}", String::from_utf8_lossy(b)); } println!("switches {:?}", o.switch_list); } }
            if j.findings.is_empty() { println!("no violation"); 0 } else { println!("VIOLATION property={} replay={}", p.id, path); 1 } }
    }
}

pub fn shrink(p: &Prop, sc: &Scen, class: &str, w: &mut Worker, budget: Duration) -> Scen {
    let t0 = Instant::now(); let over = || t0.elapsed() > budget;
    let mut best = sc.clone();
    let ok = |s: &Scen, w: &mut Worker| -> bool { w.drop_cache(); matches!((p.judge)(s, w), Ok(j) if j.findings.iter().any(|f| f.class == class)) };
    // 1. faults and environment knobs
    let mut i = 0; while i < best.w.faults.len() { let mut s = best.clone(); s.w.faults.remove(i); if ok(&s, w) { best = s; } else { i += 1; } if over() { break; } }
    for (k, _) in best.w.params.clone() { if over() { break; } if matches!(k, sim::MODE | sim::SCHED_SEED | sim::MAX_EVENTS | sim::CPU_SECONDS) { continue; } let mut s = best.clone(); s.w.params.remove(&k); if ok(&s, w) { best = s; } }
    // 2. input lines (other schedules are tried too, since removing work shifts the interleaving)
    if sc.m("shrink") != "" && !class.contains("by construction") { // (fewer lines would be another proof, with another expected verdict)
        let names: Vec<String> = sc.m("shrink").split(',').map(|s| s.to_string()).collect();
        for n in &names {
            let Some(fi) = best.w.files.iter().position(|f| f.0 == *n) else { continue };
            let Ok(text) = String::from_utf8(best.w.files[fi].1.clone()) else { continue };
            let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect(); let mut chunk = (lines.len() / 2).max(1);
            loop {
                let mut i = 0; let mut any = false;
                while i < lines.len() && !over() {
                    let mut l = lines.clone(); let e = (i + chunk).min(l.len()); l.drain(i..e);
                    let mut s = best.clone(); s.w.files[fi].1 = (l.join("\n") + "\n").into_bytes(); let mut hit = false;
                    for k in 0..8u64 { let mut s2 = s.clone(); if k > 0 { if s.w.params.get(&sim::MODE).copied().unwrap_or(0) == 0 { break; } s2.w.p(sim::SCHED_SEED, Rng::of(&[k, i as u64]).next()); } if ok(&s2, w) { best = s2; lines = l; hit = true; any = true; break; } if over() { break; } }
                    if !hit { i += chunk; }
                }
                if over() { break; }
                if chunk == 1 { if !any { break; } } else { chunk = (chunk / 2).max(1); }
            }
        }
    }
    // 3. the schedule, as an explicit list of decisions
    if best.w.switches.is_none() && best.w.params.get(&sim::MODE).copied().unwrap_or(0) != 0 {
        if let Ok(o) = w.run(&best.bin, &best.w) { if !o.overflow { let mut s = best.clone(); s.w.switches = Some(o.switch_list.clone()); if ok(&s, w) { best = s; } } }
    }
    if let Some(mut sw) = best.w.switches.clone() {
        let mut chunk = (sw.len() / 2).max(1);
        while !sw.is_empty() && !over() {
            let mut i = 0; let mut any = false;
            while i < sw.len() && !over() { let mut l = sw.clone(); let e = (i + chunk).min(l.len()); l.drain(i..e); let mut s = best.clone(); s.w.switches = Some(l.clone()); if ok(&s, w) { best = s; sw = l; any = true; } else { i += chunk; } }
            if chunk == 1 { if !any { break; } } else { chunk = (chunk / 2).max(1); }
        }
    }
    best
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, cfg: &Cfg, st: &Stats, evals: u64, distinct: &HashSet<u64>, samples: &[String], wall: f64, explored: f64, viol: u64, cases: u64, rechecked: u64, known: &BTreeMap<String, u64>) {
    let fault = ["short_read", "read_eintr", "read_err", "read_eof", "read_flip", "open_err", "short_write", "write_eintr", "write_err", "create_err", "spawn_err", "pipe_err", "thread_fail", "alloc_fail", "spurious_wakeup", "clock_jumps", "stalled_picks", "solver_exit", "solver_kill", "solver_hang", "epipe", "pipe_full", "timeouts", "stat_err", "readdir_err", "hash_fail", "wait_eintr", "piperead_err", "preempt"];
    let ci = |n: &str| CNAMES.iter().position(|x| *x == n).unwrap();
    let faults = J::Obj(fault.iter().filter(|n| st.c[ci(n)] > 0).map(|n| (n.to_string(), J::obj(vec![("times", J::u(st.c[ci(n)])), ("runs", J::u(st.fired_runs[ci(n)]))]))).collect());
    let hours = explored / 3600.0;
    let cov = J::obj(vec![
        ("evaluations", J::u(evals)), ("distinct_nontrivial", J::u(distinct.len() as u64)), ("rule", J::s(p.rule)), ("samples", J::Arr(if samples.is_empty() { vec![J::s("(no non-trivial case in this run)")] } else { samples.iter().map(J::s).collect() })),
        ("cases", J::u(cases)), ("simulated_runs", J::u(st.runs)), ("simulated_runs_per_hour", J::u((st.runs as f64 / hours.max(1e-9)) as u64)), ("seeds_per_hour", J::u((cases as f64 / hours.max(1e-9)) as u64)),
        ("simulated_seconds", J::Num((st.simtime as f64) / 1e9)), ("scheduling_points", J::Int(st.events as i128)), ("multithreaded_runs", J::u(st.mt_runs)),
        ("distinct_interleavings", J::u(st.sched.len() as u64)), ("distinct_interleavings_measure", J::s("hash of the sequence of (from, to, scheduling points executed in between) over all context switches of a run")),
        ("faults_fired", faults), ("determinism_rechecks", J::u(rechecked)), ("probes", J::Obj(st.extra.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect())),
        ("outcomes", J::Obj(st.outcomes.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect())),
        ("known_findings_seen", J::Obj(known.iter().map(|(k, v)| (k.clone(), J::u(*v))).collect())),
        ("real_code", J::s(if p.bin == "multi" { "all of the carcara library, Rust std (threads, locks, I/O), driven by /verif/harness/src/multi.rs" } else if p.bin == "lib" { "all of the carcara library, Rust std (threads, locks, I/O), driven by /verif/harness" } else { "the complete carcara command-line program and library, Rust std (threads, locks, process, I/O buffering), GMP" })),
        ("stubbed", J::s("kernel: thread scheduling, futexes, clocks, randomness, heap placement, files, directories, standard streams, pipes, child processes (scripted solver)")),
    ]);
    let j = J::obj(vec![("property", J::s(p.id)), ("tier", J::s(if cfg.tier == Tier::Quick { "quick" } else { "thorough" })), ("seed", J::u(cfg.seed)), ("level", J::s(p.level)), ("coverage", cov),
        ("assumptions", J::Arr(p.assumptions.iter().map(|s| J::s(*s)).collect())), ("wall_s", J::Num((wall * 10.0).round() / 10.0)), ("violations", J::u(viol))]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.verif)); let _ = std::fs::write(format!("{}/evidence/{}.json", cfg.verif, p.id), j.render());
}
