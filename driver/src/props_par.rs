//! Properties of parallel checking beyond the verdict: C02 stopping, C03 accounting, C04 errors, C16 contexts.
use crate::corpus::Corpus;
use crate::engine::*;
use crate::explore::Judged;
use crate::gen;
use crate::props::*;
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// A base proof without rules the checker skips (those are not recorded in statistics).
pub fn base_strict(r: &mut Rng, tier: Tier, c: &Corpus, bad: bool) -> Base {
    loop { let b = base(r, tier, c, bad); if b.src == "cvc5" && r.chance(1, 2) { continue; } if b.flags.iter().any(|f| f == "-i" || f == "--allowed-rules") && b.src != "cvc5" { continue; } return b; }
}
/// A generated proof with at least one corrupted command, and enough work besides.
fn base_bad(r: &mut Rng, tier: Tier) -> Base {
    let big = if tier == Tier::Thorough { 3 } else { 1 };
    loop {
        let o = gen::Opts { size: r.range(4, 45 * big), depth: if r.chance(1, 10) { r.range(6, 14) } else { r.range(1, 5) }, holes: true, end: *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4]) };
        let mut p = gen::generate(r, &o); let mut cor = p.corruptible(); if cor.is_empty() { continue; }
        if r.chance(1, 2) { cor.truncate((cor.len() / 3).max(1)); } // an early failure leaves most of the work undone
        r.shuffle(&mut cor); let k = r.range(1, 5).min(cor.len()); p.corrupt(&cor[..k].to_vec());
        return Base { problem: p.problem.clone(), proof: p.text(), flags: vec![], expect: "invalid".into(), corrupted: p.corrupted.clone(), src: "generated" };
    }
}
fn lib_world(b: &Base, head: &[String]) -> World {
    let mut w = World { argv: vec!["simharness".into()], ..Default::default() };
    w.argv.extend(head.iter().cloned()); w.argv.extend(b.flags.iter().cloned()); w.argv.extend(["--", "p.alethe", "p.smt2"].map(String::from));
    w.file("p.alethe", b.proof.as_bytes()).file("p.smt2", b.problem.as_bytes()); w
}
fn lib_variants(r: &mut Rng, case: u64, prop: &str, kind: &str, b: &Base, w: &mut Worker, k: usize, head: &dyn Fn(&mut Rng, usize) -> Vec<String>) -> Result<Vec<Scen>, String> {
    let mut v = vec![];
    for _ in 0..k {
        let n = if r.chance(1, 25) { *r.pick(&[6, 7, 9, 16, 33]) } else { *r.pick(&[2, 2, 3, 3, 4, 5, 8]) }; let mut wd = lib_world(b, &head(r, n));
        let mut probe = wd.clone(); probe.p(MODE, 0); let ev = w.run_ref("lib", &probe)?.events;
        draw_schedule(r, &mut wd, ev); if r.chance(1, 4) { draw_environment(r, &mut wd); } else { wd.p(HASH_SEED, r.next()); }
        wd.p(MAX_EVENTS, ev * 50 + 2_000_000).p(CPU_SECONDS, 10);
        let mut s = scen(prop, kind, "lib", case, wd); s.set("shrink", "p.alethe,p.smt2").set("src", b.src).set("threads", n.to_string()); v.push(s);
    }
    Ok(v)
}
#[derive(Default)]
struct Log { loads: Vec<BTreeSet<String>>, log: Vec<(i32, u64, String, String, String)>, exits: BTreeMap<i32, u64>, merged: Vec<String>, own: Vec<String>, times: Vec<u64>, stats: String, verdict: String }
fn parse_log(o: &Outcome) -> Log {
    let mut l = Log::default();
    for line in o.stdout().lines() {
        let f: Vec<&str> = line.split(' ').collect();
        match f[0] {
            "load" => l.loads.push(f[2..].iter().filter(|x| x.starts_with("S:") || x.starts_with("P:")).map(|x| x.to_string()).collect()),
            "log" if f.len() >= 5 => l.log.push((f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0), f[3].into(), f[4].into(), f[5..].join(" "))),
            "exit" => { l.exits.insert(f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0)); }
            "merged" => l.merged.push(f[1..].join(" ")),
            "times" => l.times = f[1..].iter().filter_map(|x| x.parse().ok()).collect(),
            "own" => l.own.push(line[4..].into()),
            "stats" => l.stats = line.into(), "verdict" => l.verdict = f[1..].join(" "), _ => {}
        }
    }
    l
}
fn sample(sc: &Scen, o: &Outcome, what: &str) -> Option<String> { Some(format!("{} {} proof ({} bytes) by {} workers, seed {:x}: {what} ({} switches over {} points)", sc.kind, sc.m("src"), sc.w.files[0].1.len(), sc.m("threads"), sc.w.params.get(&SCHED_SEED).unwrap_or(&0), o.switches, o.events)) }

// ---------------------------------------------------------------- C02: a failure stops everybody soon
pub fn gen_c02(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, _c: &Corpus) -> Result<Vec<Scen>, String> {
    let b = base_bad(r, tier); lib_variants(r, case, "C02", "stop", &b, w, 8, &|_, n| vec!["par".into(), n.to_string(), "0".into()])
}
/// Commands another worker may still finish after the failing worker is gone: the one in progress and one more.
const AFTER: usize = 2;
pub fn judge_c02(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() }; let o = w.run("lib", &sc.w)?;
    if let Some(v) = crash_of(&o) { j.bad(v.v.clone(), format!("with {} workers: {}", sc.m("threads"), v.detail)); return Ok(j); }
    let l = parse_log(&o); if !l.verdict.starts_with("error") { return Ok(j); }
    // a worker that left without having recorded its whole load has failed, or has seen that another failed
    let mut done: HashMap<i32, BTreeSet<String>> = HashMap::new();
    for t in l.exits.keys() { done.insert(*t, BTreeSet::new()); }
    for (t, _, k, id, _) in &l.log { if k == "S" || k == "P" { done.entry(*t).or_default().insert(format!("{k}:{id}")); } }
    let first = l.exits.iter().filter(|(t, _)| !l.loads.iter().any(|x| *x == done[t])).min_by_key(|(_, e)| **e);
    if let Some((ft, fe)) = first {
        let mut after: BTreeMap<i32, usize> = BTreeMap::new();
        for (t, e, ..) in &l.log { if t != ft && e > fe { *after.entry(*t).or_default() += 1; } }
        let rem: usize = l.exits.iter().filter(|(t, e)| *t != ft && *e > fe).count();
        if rem > 0 { if let Some(h) = sig(&o, sc) { j.nontrivial.push(h); w.stats.hit("another worker was still running when the first one stopped"); } }
        let mx = after.values().copied().max().unwrap_or(0); w.stats.hit(&format!("most commands finished by one worker afterwards: {}", mx.min(9)));
        if let Some((t, n)) = after.iter().find(|(_, n)| **n > AFTER) { j.bad("worker keeps checking after another one failed", format!("worker {t} finished {n} more commands after worker {ft} had stopped at event {fe} without completing its load ({})", l.verdict)); }
        j.sample = sample(sc, &o, &format!("first worker stopped at event {fe}, others finished at most {mx} further commands"));
    }
    Ok(j)
}

// ---------------------------------------------------------------- C03: every command exactly once
pub fn gen_c03(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let b = if r.chance(1, 5) { base_bad(r, tier) } else { base_strict(r, tier, c, false) };
    if r.chance(1, 4) { let mut v = par_variants(r, case, "C03", &b, w, 5, &["--stats"])?; for s in v.iter_mut() { s.kind = "stats".into(); } return Ok(v); }
    lib_variants(r, case, "C03", "once", &b, w, 6, &|_, n| vec!["par".into(), n.to_string(), "0".into()])
}
pub fn judge_c03(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    if sc.kind == "stats" {
        let s = w.run_ref("cli", &sequential_of(sc))?; let o = w.run("cli", &sc.w)?;
        if let Some(v) = crash_of(&o) { if crash_of(&s).is_none() { j.bad(v.v.clone(), format!("with --stats and {} workers: {}", sc.m("threads"), v.detail)); } return Ok(j); }
        if let Some(h) = sig(&o, sc) { j.nontrivial.push(h); }
        let (a, b) = (counts(&s), counts(&o)); let ok = check_verdict(&s).v; let pv = check_verdict(&o).v; if ok != "valid" && ok != "holey" { return Ok(j); }
        if ok != pv { j.bad("statistics of a different run", format!("{ok} sequentially, {pv} with {} workers", sc.m("threads"))); }
        if a != b { j.bad("statistics differ", format!("sequentially {a:?}, with {} workers {b:?}", sc.m("threads"))); }
        if sc.w.params.get(&CLOCK_MODE).copied().unwrap_or(0) == 0 { for k in ["on assume:", "on assume (core):", "on polyeq:"] { // see below
            let (a, b) = (printed_time(&s, k), printed_time(&o, k)); if a > 0.0 { w.stats.hit("summed times compared"); } if b * 2.0 < a { j.bad("measured time lost", format!("{k} {a} ns sequentially, {b} ns with {} workers", sc.m("threads"))); } } }
        let file = |o: &Outcome| o.stdout().lines().find(|l| l.trim_start().starts_with("step: ")).map(|l| l.split("step:").nth(1).unwrap_or("").trim().split(':').next().unwrap_or("").to_string());
        if file(&s) != file(&o) { j.bad("step reported for another file", format!("{:?} sequentially, {:?} with {} workers", file(&s), file(&o), sc.m("threads"))); }
        j.sample = sample(sc, &o, &format!("{b:?}")); return Ok(j);
    }
    let mut sq = World { files: sc.w.files.clone(), ..Default::default() }; sq.argv = vec!["simharness".into(), "seq".into()]; sq.argv.extend(sc.w.argv[4..].iter().cloned()); sq.p(MODE, 0);
    let s = w.run_ref("lib", &sq)?; if crash_of(&s).is_some() { return Ok(j); }
    let o = w.run("lib", &sc.w)?; if let Some(v) = crash_of(&o) { j.bad(v.v.clone(), v.detail); return Ok(j); }
    if let Some(h) = sig(&o, sc) { j.nontrivial.push(h); }
    let (ls, lp) = (parse_log(&s), parse_log(&o));
    let count = |l: &Log| { let mut m: BTreeMap<String, usize> = BTreeMap::new(); for (_, _, k, id, r) in &l.log { if k != "A" { *m.entry(format!("{k} {id} {r}")).or_default() += 1; } } m };
    let (cs, cp) = (count(&ls), count(&lp));
    let accepted = |v: &str| v == "valid" || v == "holey";
    if accepted(&ls.verdict) && accepted(&lp.verdict) {
        if ls.verdict != lp.verdict { j.bad("holes not accounted for", format!("{} by one worker, {} by {} workers", ls.verdict, lp.verdict, sc.m("threads"))); }
        for (k, n) in &cs { let m = cp.get(k).copied().unwrap_or(0); if m < *n { j.bad("command not checked", format!("'{k}' was checked {n} time(s) by one worker and {m} by {} workers, which accepted the proof", sc.m("threads"))); break; } }
        for (k, n) in &cp { let m = cs.get(k).copied().unwrap_or(0); if m < *n { j.bad("command checked more than once", format!("'{k}' was checked {m} time(s) by one worker and {n} by {} workers", sc.m("threads"))); break; } }
        let anch = |l: &Log| -> BTreeSet<String> { l.log.iter().filter(|x| x.2 == "A").map(|x| x.3.clone()).collect() };
        if anch(&ls) != anch(&lp) { j.bad("subproof not entered", format!("{:?} against {:?}", anch(&ls), anch(&lp))); }
        if ls.stats != lp.stats { j.bad("statistics differ", format!("sequentially {}, with {} workers {}", ls.stats, sc.m("threads"), lp.stats)); }
        // With a clock that moves by one tick whenever it is read, the other workers' readings can only make a
        // measured time longer; what is left out of the sum makes it shorter.
        if sc.w.params.get(&CLOCK_MODE).copied().unwrap_or(0) == 0 { for (i, what) in ["comparing terms", "assumptions", "assumptions (core)"].iter().enumerate() {
            let (a, b) = (ls.times.get(i).copied().unwrap_or(0), lp.times.get(i).copied().unwrap_or(0)); if a > 0 { w.stats.hit("summed times compared"); }
            if b * 2 < a { j.bad("measured time lost", format!("time for {what}: {a} ns by one worker, {b} ns by {} workers", sc.m("threads"))); } } }
        // subproofs are opened by every worker that works inside them, so those measurements may be repeated
        let own = |l: &Log| -> Vec<String> { l.own.iter().filter(|x| !x.contains("anchor") && !x.starts_with("steps ") && !x.starts_with("file ") && !x.starts_with("longest ")).cloned().collect() };
        if own(&ls) != own(&lp) { let (a, b) = (own(&ls), own(&lp)); j.bad("collected statistics differ", format!("sequentially {:?}, with {} workers {:?}", a.iter().find(|x| !b.contains(x)), sc.m("threads"), b.iter().find(|x| !a.contains(x)))); }
        let mut a: Vec<String> = lp.log.iter().map(|x| format!("{} {} {}", x.2, x.3, x.4)).collect(); let mut b = lp.merged.clone(); a.sort(); b.sort();
        if a != b { let miss = a.iter().find(|x| a.iter().filter(|y| y == x).count() != b.iter().filter(|y| y == x).count()); j.bad("collected statistics are not the union of the workers'", format!("{} measurements taken, {} collected; e.g. {:?}", a.len(), b.len(), miss)); }
        w.stats.hit("accepted and compared");
    } else {
        let text = String::from_utf8_lossy(&sc.w.files[0].1).into_owned();
        for (k, n) in &cp { if *n > 1 { let id = k.split(' ').nth(1).unwrap_or(""); if text.matches(&format!("(step {id} ")).count() + text.matches(&format!("(assume {id} ")).count() <= 1 { j.bad("command checked more than once", format!("'{k}' was checked {n} times by {} workers", sc.m("threads"))); break; } } }
        w.stats.hit("rejected and compared");
    }
    j.sample = sample(sc, &o, &format!("{} commands recorded, {}", lp.log.len(), lp.verdict)); Ok(j)
}
/// A time that `--stats` prints, in nanoseconds.
fn printed_time(o: &Outcome, key: &str) -> f64 {
    let out = o.stdout(); let Some(l) = out.lines().find(|l| l.starts_with(key)) else { return 0.0 }; let t = l[key.len()..].trim().split(' ').next().unwrap_or("").to_string();
    for (u, f) in [("ns", 1.0), ("µs", 1e3), ("ms", 1e6), ("s", 1e9)] { if let Some(x) = t.strip_suffix(u) { return x.parse::<f64>().unwrap_or(0.0) * f; } } 0.0
}
/// The counts (not the times) that `--stats` prints.
pub fn counts(o: &Outcome) -> BTreeMap<String, String> {
    let keys = ["number of assumes:", "(easy):", "(hard):", "max polyeq depth:", "total polyeq depth:", "number of polyeq checks:", "mean depth:", "standard deviation of depth:"];
    // a mean over differently grouped partial sums may differ in the last printed digit
    o.stdout().lines().filter_map(|l| keys.iter().find(|k| l.contains(**k)).map(|k| { let v = l.split(": ").nth(1).unwrap_or("").trim().to_string(); let v = match v.parse::<f64>() { Ok(x) if v.contains('.') => format!("{:.2}", x + 1e-9), _ => v }; (k.to_string(), v) })).filter(|(k, _)| !k.contains("deviation") && !k.contains("mean")).collect()
}

// ---------------------------------------------------------------- C04: the reported error is a real one
pub fn gen_c04(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let b = if r.chance(1, 8) { let mut b = base_strict(r, tier, c, true); b.flags.retain(|f| f != "-i"); b } else { base_bad(r, tier) };
    let extra: &[&str] = if r.chance(1, 3) { &["--stats"] } else { &[] };
    par_variants(r, case, "C04", &b, w, 8, extra)
}
/// Every command of the proof that fails on its own account, with its message: the sequential checker is
/// run repeatedly, each time with the last failing command replaced by one it accepts as a hole.
fn failing(sc: &Scen, w: &mut Worker) -> Result<Option<BTreeSet<String>>, String> {
    let mut all = BTreeSet::new(); let mut wd = sequential_of(sc); wd.argv.retain(|a| a != "--stats"); let at = wd.argv.iter().position(|a| a == "--").unwrap(); wd.argv.insert(at, "zz_allowed".into()); wd.argv.insert(at, "--allowed-rules".into());
    let Ok(mut text) = String::from_utf8(wd.files[0].1.clone()) else { return Ok(None) };
    for _ in 0..40 {
        wd.files[0].1 = text.clone().into_bytes(); let o = w.run("cli", &wd)?; let v = check_verdict(&o);
        if v.v == "valid" || v.v == "holey" { return Ok(Some(all)); } if v.v != "invalid" { return Ok(None); }
        let e = message(&v.detail); let Some(i) = e.find("checking failed on step '") else { all.insert(e); return Ok(Some(all)); };
        let id = e[i + 25..].split('\'').next().unwrap_or("").to_string(); all.insert(e.clone());
        let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect(); let (ps, pa) = (format!("(step {id} "), format!("(assume {id} "));
        let Some(k) = lines.iter().position(|l| l.starts_with(&ps) || l.starts_with(&pa)) else { return Ok(None) };
        if lines[k].starts_with(&pa) { let t = lines[k][pa.len()..].trim_end().strip_suffix(')').unwrap_or("").to_string(); lines[k] = format!("(step {id} (cl {t}) :rule zz_allowed)"); }
        else { let Some(p) = lines[k].find(":rule ") else { return Ok(None) }; let e = lines[k][p + 6..].find([' ', ')']).map_or(lines[k].len(), |x| p + 6 + x); lines[k].replace_range(p + 6..e, "zz_allowed"); }
        text = lines.join("\n") + "\n";
    }
    Ok(None)
}
fn message(l: &str) -> String { unname(l.split_once("] ").map_or(l, |x| x.1).trim()) }
/// The text without the names given to repeated terms: whether a term counts as repeated is a matter of display.
fn unname(t: &str) -> String {
    let mut s = t.to_string(); let mut names: Vec<(String, String)> = vec![];
    while let Some(i) = s.rfind("(! ") {
        let Some(k) = s[i..].find(" :named ") else { break }; let Some(e) = s[i + k..].find(')') else { break };
        let (body, name) = (s[i + 3..i + k].to_string(), s[i + k + 8..i + k + e].to_string()); s.replace_range(i..i + k + e + 1, &body); names.push((name, body));
    }
    names.sort_by_key(|n| std::cmp::Reverse(n.0.len())); // @p_10 before @p_1
    for _ in 0..names.len() { for (n, b) in &names { s = s.replace(n.as_str(), b); } }
    s
}
pub fn judge_c04(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let o = w.run("cli", &sc.w)?; let v = check_verdict(&o);
    let key = fnv(&sc.w.files[0].1) ^ fnv(&sc.w.files[1].1); let set = match w.memo.get(&key) { Some(s) => s.clone(), None => { let s = failing(sc, w)?; w.memo.insert(key, s.clone()); s } };
    let Some(set) = set else { w.stats.hit("oracle not applicable"); return Ok(j) };
    if let Some(h) = sig(&o, sc) { j.nontrivial.push(h); }
    if v.v != "invalid" { if !set.is_empty() { j.bad(format!("{} although commands fail", v.v), format!("{} failing commands, e.g. {:?}; {}", set.len(), set.iter().next(), v.detail)); } return Ok(j); }
    let m = message(&v.detail);
    w.stats.hit(&format!("{} genuinely failing command(s)", set.len().min(9)));
    if set.is_empty() { j.bad("error reported for a proof without failing commands", m.clone()); }
    else if !set.contains(&m) { j.bad("reported error is not a genuine one", format!("{} workers reported {m:?}; the commands that fail are {set:?}", sc.m("threads"))); }
    else if m.contains("does not conclude") && set.len() > 1 { j.bad("missing conclusion reported although commands fail", format!("{set:?}")); }
    j.sample = sample(sc, &o, &m); Ok(j)
}

// ---------------------------------------------------------------- C16: shared contexts
pub fn gen_c16(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, _c: &Corpus) -> Result<Vec<Scen>, String> {
    let big = if tier == Tier::Thorough { 2 } else { 1 };
    let o = gen::Opts { size: r.range(3, 25 * big), depth: r.range(1, 6), holes: true, end: 2 }; let p = gen::generate(r, &o);
    let b = Base { problem: p.problem.clone(), proof: p.text(), flags: vec![], expect: String::new(), corrupted: vec![], src: "generated" };
    lib_variants(r, case, "C16", "contexts", &b, w, 6, &|r, n| vec!["ctx".into(), n.to_string(), (r.next() >> 20).to_string()])
}
pub fn judge_c16(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() }; let o = w.run("lib", &sc.w)?;
    if let Some(v) = crash_of(&o) { j.bad(v.v.clone(), format!("with {} threads: {}", sc.m("threads"), v.detail)); return Ok(j); }
    let out = o.stdout(); let Some(last) = out.lines().last() else { return Ok(j) };
    if let Some(h) = sig(&o, sc) { if !last.contains("contexts 0") && !last.contains("compared 0") { j.nontrivial.push(h); } }
    if last.starts_with("compared") && !last.contains("bad 0 ") { j.bad("shared context differs from a private one", out.lines().take(3).collect::<Vec<_>>().join(" ")); }
    j.sample = sample(sc, &o, last); Ok(j)
}
