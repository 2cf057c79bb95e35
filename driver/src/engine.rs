//! Workers, run statistics, verdict extraction, schedule and fault drawing.
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Stats { pub runs: u64, pub sched: HashSet<u64>, pub c: [u64; 64], pub fired_runs: [u64; 64], pub simtime: u128, pub events: u128, pub mt_runs: u64, pub outcomes: HashMap<String, u64>, pub extra: BTreeMap<String, u64> }
impl Default for Stats { fn default() -> Self { Stats { runs: 0, sched: HashSet::new(), c: [0; 64], fired_runs: [0; 64], simtime: 0, events: 0, mt_runs: 0, outcomes: HashMap::new(), extra: BTreeMap::new() } } }
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs; self.sched.extend(o.sched.iter()); for i in 0..64 { self.c[i] += o.c[i]; self.fired_runs[i] += o.fired_runs[i]; } self.simtime += o.simtime; self.events += o.events; self.mt_runs += o.mt_runs;
        for (k, v) in &o.outcomes { *self.outcomes.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.extra { *self.extra.entry(k.clone()).or_default() += v; }
    }
    pub fn hit(&mut self, k: &str) { *self.extra.entry(k.into()).or_default() += 1; }
}

pub struct Bins { pub cli: String, pub lib: String, pub multi: String, pub scratch: String }
pub struct Worker { pub id: usize, pub bins: std::sync::Arc<Bins>, servers: HashMap<String, Server>, pub stats: Stats, cache: HashMap<u64, Outcome>, pub fresh: bool, pub memo: HashMap<u64, Option<std::collections::BTreeSet<String>>> }
impl Worker {
    pub fn new(id: usize, bins: std::sync::Arc<Bins>) -> Self { Worker { id, bins, servers: HashMap::new(), stats: Stats::default(), cache: HashMap::new(), fresh: false, memo: HashMap::new() } }
    pub fn run(&mut self, bin: &str, w: &World) -> Result<Outcome, String> {
        if self.fresh { self.servers.clear(); }
        if !self.servers.contains_key(bin) {
            let path = match bin { "lib" => &self.bins.lib, "multi" => &self.bins.multi, _ => &self.bins.cli };
            let s = Server::start(path, self.id, &self.bins.scratch, &format!("{}-{bin}", self.id))?;
            self.servers.insert(bin.into(), s);
        }
        let o = match self.servers.get_mut(bin).unwrap().run(w) { Ok(o) => o, Err(e) => { self.servers.remove(bin); return Err(e); } };
        let s = &mut self.stats; s.runs += 1; s.sched.insert(o.sched_hash ^ fnv(w.argv.join(" ").as_bytes())); s.simtime += o.simtime as u128; s.events += o.events as u128; if o.cnt("threads") > 0 { s.mt_runs += 1; }
        for i in 0..64 { s.c[i] += o.c[i]; if o.c[i] > 0 { s.fired_runs[i] += 1; } }
        Ok(o)
    }
    /// Fault-free reference runs are cached by configuration.
    pub fn run_ref(&mut self, bin: &str, w: &World) -> Result<Outcome, String> {
        let h = fnv(&w.encode()) ^ fnv(bin.as_bytes()) ;
        if let Some(o) = self.cache.get(&h) { return Ok(o.clone()); }
        let o = self.run(bin, w)?;
        if self.cache.len() > 64 { self.cache.clear(); }
        self.cache.insert(h, o.clone()); Ok(o)
    }
    pub fn drop_cache(&mut self) { self.cache.clear(); self.memo.clear(); }
}

/// Observable result of `check`.
#[derive(Clone, Debug, PartialEq)]
pub struct Verdict { pub v: String, pub detail: String }
pub fn crash_of(o: &Outcome) -> Option<Verdict> {
    let first = |s: &str| -> String { s.lines().find(|l| l.contains("panicked at")).map(|l| { let i = l.find("panicked at").unwrap(); l[i..].to_string() }).unwrap_or_default() };
    let err = o.stderr();
    match &o.end {
        End::Deadlock => Some(Verdict { v: "hang".into(), detail: format!("deadlock: {}", o.msg) }),
        End::EventLimit => Some(Verdict { v: "hang".into(), detail: o.msg.clone() }),
        End::Signal(24) | End::Signal(9) => Some(Verdict { v: "hang".into(), detail: "processor-time limit".into() }),
        End::Signal(s) => Some(Verdict { v: format!("crash"), detail: format!("signal {s} {}", err.lines().find(|l| l.contains("overflow") || l.contains("panicked")).unwrap_or("")) }),
        End::Exit(101) => Some(Verdict { v: "panic".into(), detail: { let mut d = first(&err); if let Some(p) = err.lines().position(|l| l.contains("panicked at")) { if let Some(l) = err.lines().nth(p + 1) { d.push(' '); d.push_str(l); } } d } }),
        _ => if err.contains("panicked at") { Some(Verdict { v: "panic".into(), detail: first(&err) }) } else { None },
    }
}
/// Verdict of a `check` invocation: last stdout line plus exit status, which must agree.
pub fn check_verdict(o: &Outcome) -> Verdict {
    if let Some(v) = crash_of(o) { return v; }
    let out = o.stdout(); let last = out.lines().last().unwrap_or("").to_string();
    let code = match o.end { End::Exit(c) => c, _ => -1 };
    let err = error_line(o);
    match (last.as_str(), code) {
        ("valid", 0) => Verdict { v: "valid".into(), detail: String::new() },
        ("holey", 0) => Verdict { v: "holey".into(), detail: String::new() },
        ("invalid", 1) => Verdict { v: "invalid".into(), detail: err },
        _ => Verdict { v: format!("other(exit {code}, last line {last:?})"), detail: err },
    }
}
pub fn error_line(o: &Outcome) -> String { o.stderr().lines().find(|l| l.contains("[ERROR]") || l.contains("[error]") || l.to_lowercase().starts_with("error")).unwrap_or("").to_string() }

/// Draws a scheduling policy. `events` is a typical number of scheduling points of this workload.
pub fn draw_schedule(r: &mut Rng, w: &mut World, events: u64) {
    w.p(SCHED_SEED, r.next());
    let ev = events.max(50);
    match r.below(10) {
        0 => { w.p(MODE, 0); }
        1..=3 => { w.p(MODE, 2).p(PCT_DEPTH, r.range(1, 6) as u64).p(PCT_RANGE, (ev / [1, 2, 8, 32][r.below(4)]).max(20)); }
        _ => {
            let tab = [2u64, 5, 12, 30, 80, 250, 1000];
            let hot = *r.pick(&tab); let cold = hot * [4, 20, 100][r.below(3)];
            w.p(MODE, 1).p(GAP_AHOT, hot).p(GAP_ACOLD, cold).p(GAP_RHOT, hot * [2, 8, 40][r.below(3)]).p(GAP_RCOLD, cold * 4).p(GAP_SYS, [1u64, 2, 6, 20][r.below(4)]);
        }
    }
    if r.chance(1, 5) { w.p(STALL_TID, r.below(5) as u64); let a = r.next() % ev; w.p(STALL_FROM, a).p(STALL_TO, a + 1 + r.next() % ev); }
    if r.chance(1, 4) { w.p(SPURIOUS, [2u64, 5, 20][r.below(3)]); }
}
pub fn draw_environment(r: &mut Rng, w: &mut World) {
    w.p(HASH_SEED, r.next()).p(CLOCK_SEED, r.next()).p(LAYOUT_SEED, r.next()).p(IO_SEED, r.next());
    w.p(CLOCK_MODE, r.below(6) as u64).p(LAYOUT_MODE, r.below(3) as u64);
}
pub fn scen(prop: &str, kind: &str, bin: &str, case: u64, w: World) -> Scen { Scen { prop: prop.into(), kind: kind.into(), bin: bin.into(), case, w, meta: BTreeMap::new() } }
