//! Benchmark-mode properties: C05 verdict and totals, C06 tables, C14 clocks.
use crate::corpus::{self, Corpus};
use crate::engine::*;
use crate::explore::Judged;
use crate::gen;
use crate::props::cli;
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;
use crate::work::*;
use std::collections::{BTreeMap, BTreeSet};

fn one(r: &mut Rng, tier: Tier, c: &Corpus) -> (String, String) {
    let big = if tier == Tier::Thorough { 3 } else { 1 };
    match r.below(10) {
        _ if r.chance(1, 60) => { let bad = r.chance(1, 4); deep(r, bad, 1600) }
        0 | 1 => { let a = arith_full(r, 3, true); (a.problem, a.proof) }
        2 | 3 => { let n = r.range(1, 4 * big); let (a, mut b) = corpus::combine(c, r, n); if r.chance(1, 5) { b = b.replacen(":rule ", ":rule no_such_", 1); } (a, b) }
        4 => { let n = r.range(1, 3); let mut t = String::new(); for i in 0..n { t.push_str(&format!("(step t{i} (cl (= fin_p fin_p)) :rule refl)\n")); } (corpus::TAIL_PROBLEM.into(), t + corpus::TAIL_PROOF) } // valid without holes
        5 => { let t = "(assume h1 fin_p)\n(step t1 (cl fin_q) :rule hole)\n"; (corpus::TAIL_PROBLEM.into(), t.into()) } // does not parse
        _ => {
            let o = gen::Opts { size: r.range(1, 12 * big), depth: r.range(1, 4), holes: true, end: *r.pick(&[0, 0, 0, 0, 0, 1, 2, 4]) }; let mut p = gen::generate(r, &o);
            let mut cor = p.corruptible(); if r.chance(1, 5) && !cor.is_empty() { r.shuffle(&mut cor); p.corrupt(&cor[..1].to_vec()); }
            let mut t = p.text(); if r.chance(1, 20) { let cut = r.below(t.len()); t.truncate(cut); } (p.problem.clone(), t)
        }
    }
}
/// A benchmark over several proofs, some of which fail, do not parse or cannot be read.
pub fn bench_work(r: &mut Rng, tier: Tier, c: &Corpus, csv: bool) -> (Work, usize) {
    let n = if r.chance(1, 25) { r.range(7, 14) } else { r.range(1, 6) }; let mut w = World::default(); let (mut runs, mut jobs) = (*r.pick(&[1, 1, 2, 2, 3, 3, 5]), *r.pick(&[1, 2, 2, 3, 4, 4, 8, 16]));
    if r.chance(1, 80) { if r.chance(1, 2) { runs = 0; } else { jobs = 0; } }
    let mut args: Vec<String> = vec![]; let clean = r.chance(1, 3);
    for i in 0..n {
        let (mut a, mut b) = one(r, tier, c); if clean { let o = gen::Opts { size: r.range(1, 8), depth: 3, holes: true, end: 0 }; let p = gen::generate(r, &o); a = p.problem.clone(); b = p.text(); if r.chance(1, 2) { a = corpus::TAIL_PROBLEM.into(); b = corpus::TAIL_PROOF.into(); } }
        let dir = match r.below(4) { 0 => "b/", 1 => "b/sub/", 2 => "e/", _ => "" }; let ext = if r.chance(1, 4) { "proof" } else { "alethe" };
        let base = format!("{dir}x{i}.smt2"); let missing = !clean && r.chance(1, 25);
        if !missing { w.file(&base, a.as_bytes()); } w.file(&format!("{base}.{ext}"), b.as_bytes());
        let arg = if dir.is_empty() || r.chance(1, 5) && false { format!("{base}.{ext}") } else { dir.split('/').next().unwrap().to_string() };
        if !args.contains(&arg) { args.push(arg); }
    }
    if r.chance(1, 3) { w.file("b/notes.txt", b"nothing"); if !args.contains(&"b".to_string()) { args.push("b".into()); } }
    r.shuffle(&mut args);
    w.argv = cli(&["bench", "-n", &runs.to_string(), "-j", &jobs.to_string()]);
    if csv { w.argv.push("--dump-to-csv".into()); } else { w.argv.push("-t".into()); }
    if r.chance(1, 6) { w.argv.push("-i".into()); }
    if r.chance(1, 3) { w.argv.push("--elaborate".into()); if r.chance(1, 2) { w.argv.push("--pipeline".into()); let k = r.range(1, 3); for _ in 0..k { w.argv.push((*r.pick(&["polyeq", "local", "uncrowd", "polyeq", "local", "reordering"])).into()); } } }
    w.argv.push("--".into()); w.argv.extend(args);
    w.p(MODE, 0).p(MAX_EVENTS, 100_000_000).p(CPU_SECONDS, 25);
    (Work { w, cmd: "bench", ends_last: false, base_src: "benchmark set" }, n)
}
fn gen_bench(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus, prop: &str, csv: bool) -> Result<Vec<Scen>, String> {
    let (k, _) = bench_work(r, tier, c, csv); let mut v = vec![];
    let ev = w.run_ref("cli", &k.w)?.events;
    for _ in 0..5 {
        let mut wd = k.w.clone(); draw_schedule(r, &mut wd, ev); if r.chance(1, 3) { draw_environment(r, &mut wd); wd.p(CLOCK_MODE, r.below(3) as u64); } wd.p(IO_SEED, r.next()); if r.chance(1, 2) { wd.p(DIR_SHUFFLE, 1); }
        if r.chance(1, 3) { wd.p(READ_CHUNK, *r.pick(&[7u64, 100, 1000])); }
        if r.chance(1, 4) { let ps: Vec<usize> = wd.files.iter().enumerate().filter(|f| f.1 .0.contains(".smt2")).map(|f| f.0).collect(); let i = *r.pick(&ps); let l = wd.files[i].1.len(); wd.fault(F_READ_ERR, i as u64, r.below(l + 1) as u64, 5); }
        if r.chance(1, 12) { if r.chance(1, 2) { wd.fault(F_READDIR_ERR, 0, r.below(3) as u64, 5); } else { let i = r.below(wd.files.len()); wd.fault(F_STAT_ERR, i as u64, 0, 13); } }
        wd.p(MAX_EVENTS, ev * 50 + 5_000_000);
        let mut s = scen(prop, if csv { "csv" } else { "online" }, "cli", case, wd); s.set("cmd", "bench"); v.push(s);
    }
    Ok(v)
}
pub fn gen_c05(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> { let csv = r.chance(1, 3); gen_bench(r, case, tier, w, c, "C05", csv) }
pub fn gen_c06(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> { let csv = r.chance(2, 3); gen_bench(r, case, tier, w, c, "C06", csv) }

#[derive(Default, Debug)]
struct Expect { files: Vec<String>, failing: BTreeSet<String>, unparsed: BTreeSet<String>, holey: bool, rules: BTreeMap<String, usize>, assumes: usize, easy: usize, depths: Vec<usize>, unelaborable: Option<String> }
fn opt<'a>(w: &'a World, k: &str) -> Option<&'a str> { w.argv.iter().position(|a| a == k).and_then(|i| w.argv.get(i + 1)).map(|s| s.as_str()) }
/// What checking every file on its own says.
fn expect(w: &World, wk: &mut Worker) -> Result<Expect, String> {
    let cut = w.argv.iter().position(|a| a == "--").unwrap(); let mut e = Expect::default();
    for a in &w.argv[cut + 1..] { if w.files.iter().any(|f| f.0 == *a) { e.files.push(a.clone()); } else { for f in &w.files { if f.0.starts_with(&format!("{a}/")) && (f.0.ends_with(".alethe") || f.0.ends_with(".proof")) { e.files.push(f.0.clone()); } } } }
    for f in &e.files {
        let pb = f.rsplit_once('.').unwrap().0.to_string(); let idx = |n: &str| w.files.iter().position(|x| x.0 == n);
        let bad_io = [idx(f), idx(&pb)].iter().any(|i| match i { None => true, Some(i) => w.faults.iter().any(|x| x[0] == F_READ_ERR && x[1] == *i as u64) });
        if bad_io { e.failing.insert(f.clone()); e.unparsed.insert(f.clone()); continue; }
        let mut s = World { argv: vec!["simharness".into(), "seq".into()], ..Default::default() }; s.p(MODE, 0).p(CPU_SECONDS, 20);
        if w.argv.iter().any(|a| a == "-i") { s.argv.push("-i".into()); } s.argv.extend(["--".to_string(), f.clone(), pb.clone()]);
        for n in [f, &pb] { s.files.push(w.files[idx(n).unwrap()].clone()); }
        let o = wk.run_ref("lib", &s)?; if let Some(v) = crash_of(&o) { if v.detail.contains("overflowed its stack") { e.unelaborable = Some(f.clone()); return Ok(e); } return Err(format!("reference check of {f} crashed: {}", v.detail)); }
        for l in o.stdout().lines() {
            let t: Vec<&str> = l.split(' ').collect();
            match t[0] { "merged" => { *e.rules.entry(t[3..].join(" ")).or_default() += 1; if t[1] == "P" { e.assumes += 1; } }
                "stats" => { e.easy += l.split("easy=").nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0); let d = l.split("depths=[").nth(1).unwrap_or("").trim_end_matches(']'); e.depths.extend(d.split(", ").filter_map(|x| x.parse::<usize>().ok())); }
                "verdict" => match t[1] { "parse-error" => { e.failing.insert(f.clone()); e.unparsed.insert(f.clone()); } "error" => { e.failing.insert(f.clone()); } "holey" => e.holey = true, _ => {} }, _ => {} }
        }
    }
    // elaboration on its own must work: what it does with a given proof is not what is checked here
    if w.argv.iter().any(|a| a == "--elaborate") { for f in &e.files {
        if e.failing.contains(f) { continue; }
        let mut s = World { argv: cli(&["elaborate"]), ..Default::default() }; s.p(MODE, 0).p(CPU_SECONDS, 20); if w.argv.iter().any(|a| a == "-i") { s.argv.push("-i".into()); }
        if let Some(i) = w.argv.iter().position(|a| a == "--pipeline") { s.argv.extend(w.argv[i..cut].iter().cloned()); }
        let pb = f.rsplit_once('.').unwrap().0.to_string(); s.argv.extend(["--".to_string(), f.clone(), pb.clone()]);
        for n in [f, &pb] { if let Some(x) = w.files.iter().find(|x| x.0 == *n) { s.files.push(x.clone()); } }
        if crash_of(&wk.run_ref("cli", &s)?).is_some() { e.unelaborable = Some(f.clone()); }
    } }
    Ok(e)
}
fn judge_common(sc: &Scen, w: &mut Worker, j: &mut Judged) -> Result<Option<(Outcome, Expect, usize)>, String> {
    let runs: usize = opt(&sc.w, "-n").and_then(|x| x.parse().ok()).unwrap_or(1); let o = w.run("cli", &sc.w)?; j.evals = 1;
    if o.switches > 0 { j.nontrivial.push(o.sched_hash ^ fnv(sc.w.argv.join(" ").as_bytes()) ^ fnv(&sc.w.files.last().unwrap().1)); }
    j.sample = Some(format!("{} seed {:x}: {:?}, {} switches over {} points, faults {:?}", sc.w.argv[1..].join(" "), sc.w.params.get(&SCHED_SEED).unwrap_or(&0), o.end, o.switches, o.events, sc.w.faults.iter().map(|f| (FAULT_NAMES[f[0] as usize], f[1], f[2])).collect::<Vec<_>>()));
    if o.cnt("readdir_err") + o.cnt("stat_err") > 0 {
        let fired = o.cnt("readdir_err") > 0 || sc.w.faults.iter().any(|f| f[0] == F_STAT_ERR && sc.w.files.get(f[1] as usize).is_some());
        if fired { w.stats.hit("directory could not be listed"); if let Some(v) = crash_of(&o) { j.bad(v.v, v.detail); } else if o.end == End::Exit(0) || o.stdout().lines().any(|l| l == "valid" || l == "holey") { j.bad("unreadable directory reported as success", format!("{:?} {:?}", o.end, o.stdout().lines().next())); } }
        return Ok(None);
    }
    if ["-n", "-j"].iter().any(|k| opt(&sc.w, k) == Some("0")) {
        w.stats.hit("no runs or no jobs"); // nothing to measure: a usage error or an empty result, but no verdict
        if let Some(v) = crash_of(&o) { j.bad(format!("{} in benchmark", v.v), format!("{}: {}", sc.w.argv[1..].join(" "), v.detail)); } else if o.stdout().lines().any(|l| l == "valid" || l == "holey") { j.bad("benchmark without runs gives a verdict", format!("{:?}", o.stdout().lines().next())); }
        return Ok(None);
    }
    let e = expect(&sc.w, w)?; if e.files.is_empty() { return Ok(None); } if let Some(f) = &e.unelaborable {
        // a file that on its own crashes the command says nothing about the others, but must not go unnoticed
        w.stats.hit("a file alone crashes the command");
        if matches!(o.end, End::Deadlock | End::EventLimit | End::Signal(24) | End::Signal(9)) { j.bad("benchmark hangs", format!("{}: {}", sc.w.argv[1..].join(" "), o.msg)); }
        else if o.end == End::Exit(0) && !o.stderr().contains(&format!("encountered error in file '{f}'")) { j.bad("benchmark hides a crash", format!("{}: {f} alone crashes, here {:?} {:?}", sc.w.argv[1..].join(" "), o.end, o.stdout().lines().next())); }
        return Ok(None);
    }
    if let Some(v) = crash_of(&o) { j.bad(format!("{} in benchmark", v.v), format!("{}: {}", sc.w.argv[1..].join(" "), v.detail)); return Ok(None); }
    if !e.failing.is_empty() { w.stats.hit("benchmark with failing files"); } if e.holey { w.stats.hit("benchmark with holey files"); } if !e.unparsed.is_empty() { w.stats.hit("benchmark with unreadable files"); }
    Ok(Some((o, e, runs)))
}
pub fn judge_c05(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged::default(); let Some((o, e, runs)) = judge_common(sc, w, &mut j)? else { return Ok(j) };
    let out = o.stdout(); let lines: Vec<&str> = out.lines().collect();
    let want = if !e.failing.is_empty() { "invalid" } else if e.holey { "holey" } else { "valid" };
    let got: Vec<&&str> = lines.iter().filter(|l| matches!(**l, "valid" | "holey" | "invalid")).collect();
    let none = e.unparsed.len() == e.files.len() && sc.kind == "online" && out.starts_with("no benchmark data collected");
    if !none && (got.len() != 1 || *got[0] != want) { j.bad(format!("benchmark says {:?} instead of {want}", got), format!("files {:?}, failing {:?}: {:?}", e.files, e.failing, lines.first())); }
    if o.end != End::Exit(0) && want != "invalid" { j.bad("benchmark fails", format!("{:?} {}", o.end, error_line(&o))); }
    let mut errs: Vec<String> = o.stderr().lines().filter_map(|l| l.split("encountered error in file '").nth(1).map(|x| x.trim_end_matches('\'').to_string())).collect(); errs.sort();
    let mut ex: Vec<String> = e.failing.iter().flat_map(|f| std::iter::repeat_n(f.clone(), runs)).collect(); ex.sort();
    if errs != ex { j.bad("benchmark reports the wrong failing files", format!("reported {errs:?}, failing {ex:?}")); }
    if sc.kind == "csv" { let n: Option<usize> = lines.iter().find_map(|l| l.strip_suffix(" errors encountered during benchmark").and_then(|x| x.parse().ok())); if n != Some(e.failing.len() * runs) { j.bad("benchmark counts errors wrongly", format!("{n:?} reported, {} expected", e.failing.len() * runs)); } }
    Ok(j)
}
fn parse_count(l: &str) -> Option<usize> { l.trim_end().trim_end_matches(')').rsplit(" * ").next().and_then(|x| x.parse().ok()) }
fn csv(o: &Outcome, n: &str) -> Option<Vec<Vec<String>>> { o.stream(&format!("out:{n}")).map(|b| String::from_utf8_lossy(b).lines().map(|l| l.split(',').map(|x| x.to_string()).collect()).collect()) }
pub fn judge_c06(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged::default(); let Some((o, e, runs)) = judge_common(sc, w, &mut j)? else { return Ok(j) };
    let want: BTreeMap<String, usize> = e.rules.iter().map(|(k, v)| (k.clone(), v * runs)).collect(); let parsed = (e.files.len() - e.unparsed.len()) * runs;
    let cmp = |j: &mut Judged, got: &BTreeMap<String, usize>, src: &str| { if *got != want { let d: Vec<String> = want.keys().chain(got.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| want.get(*k) != got.get(*k)).map(|k| format!("{k}: {:?} instead of {:?}", got.get(k), want.get(k))).take(4).collect(); j.bad("benchmark loses or repeats step measurements", format!("{src}, {} files, {runs} runs: {}", e.files.len(), d.join("; "))); } };
    if sc.kind == "csv" {
        let (Some(rows), Some(steps)) = (csv(&o, "runs.csv"), csv(&o, "steps.csv")) else { j.bad("benchmark tables missing", format!("{:?}", o.end)); return Ok(j); };
        let elab = sc.w.argv.iter().any(|a| a == "--elaborate"); let pl = if !elab { 0 } else if let Some(i) = sc.w.argv.iter().position(|a| a == "--pipeline") { sc.w.argv[i + 1..].iter().take_while(|a| !a.starts_with('-')).count() } else { 6 };
        if let Some(h) = rows.first() { let np = h.iter().filter(|c| c.starts_with("pipeline_step_")).count(); if rows.len() > 1 && np != pl { j.bad("benchmark table malformed", format!("{np} pipeline columns instead of {pl}")); } for r in &rows[1..] { if r.len() != h.len() { j.bad("benchmark table malformed", format!("row {r:?}")); break; } let n = |i: usize| r[i].parse::<u128>().unwrap_or(u128::MAX); if n(5) != n(2) + n(3) + n(4) { j.bad("benchmark table inconsistent", format!("row {r:?}")); break; } } }
        let mut keys: Vec<(String, String)> = rows.iter().skip(1).map(|r| (r[0].clone(), r.get(1).cloned().unwrap_or_default())).collect(); keys.sort();
        let mut ex: Vec<(String, String)> = e.files.iter().filter(|f| !e.unparsed.contains(*f)).flat_map(|f| (0..runs).map(move |i| (f.clone(), i.to_string()))).collect(); ex.sort();
        if keys != ex { j.bad("benchmark loses or repeats runs", format!("rows {keys:?}, expected {ex:?}")); }
        let mut got: BTreeMap<String, usize> = BTreeMap::new(); for s in steps.iter().skip(1) { *got.entry(s[0].clone()).or_default() += 1; } cmp(&mut j, &got, "steps.csv");
    } else if parsed > 0 {
        let out = o.stdout(); let mut got = BTreeMap::new(); let mut inr = false;
        for l in out.lines() {
            if l == "by rule:" { inr = true; continue; } if l == "worst cases:" { inr = false; }
            if inr { let t = l.trim_start(); if let (Some(n), Some(c)) = (t.split(' ').next(), parse_count(l)) { let n = glued(n).map_or(n, |x| x.0); got.insert(n.to_string(), c); } }
            for k in ["parsing:", "checking:", "total accounted for:", "total:", "scheduling:", "on assume (core):"] { if l.starts_with(k) && !inr { if parse_count(l) != Some(parsed) { j.bad("benchmark loses or repeats runs", format!("{l:?}, {parsed} runs expected")); } } }
            let num = |k: &str| l.trim_start().strip_prefix(k).and_then(|x| x.trim().split(' ').next().and_then(|x| x.parse::<f64>().ok()));
            let mut exp = |k: &str, x: f64| if let Some(g) = num(k) { if (g - x).abs() > 0.0001 { j.bad("benchmark totals wrong", format!("{k} {g} instead of {x}")); } };
            exp("number of assumes:", (e.assumes * runs) as f64); exp("(easy):", (e.easy * runs) as f64); exp("(hard):", ((e.assumes - e.easy) * runs) as f64);
            let (n, s) = (e.depths.len() * runs, e.depths.iter().sum::<usize>() * runs); exp("number of polyeq checks:", n as f64); exp("total polyeq depth:", s as f64); exp("max polyeq depth:", e.depths.iter().max().copied().unwrap_or(0) as f64); if n > 0 { exp("mean depth:", s as f64 / n as f64); }
        }
        cmp(&mut j, &got, "by rule");
        if !e.depths.is_empty() && !out.contains("number of polyeq checks:") { j.bad("benchmark totals wrong", "polyeq summary missing"); }
    }
    Ok(j)
}
/// Benchmark outputs carry measured times: compare what does not depend on them.
pub fn bench_diff(a: &Outcome, b: &Outcome) -> Option<String> {
    if a.end != b.end { return Some(format!("exit {:?} instead of {:?}", b.end, a.end)); }
    let keys = |o: &Outcome, n: &str, k: usize| -> Option<Vec<String>> { csv(o, n).map(|r| { let w = r.first().map_or(0, |h| h.len()); let mut v: Vec<String> = r.iter().map(|x| format!("{} ({} columns)", x[..k.min(x.len())].join(","), if x.len() == w { "all" } else { "missing" })).collect(); v.sort(); v }) };
    for (n, k) in [("runs.csv", 2), ("steps.csv", 1)] { let (x, y) = (keys(a, n, k), keys(b, n, k)); if x != y { return Some(format!("{n}: {} rows instead of {}", y.map_or(0, |v| v.len()), x.map_or(0, |v| v.len()))); }
        if let Some(s) = b.stream(&format!("out:{n}")) { if !s.is_empty() && !s.ends_with(b"\n") { return Some(format!("{n} ends in the middle of a row")); } } }
    None
}

/// What a benchmark prints apart from times.
pub fn bench_text_diff(a: &Outcome, b: &Outcome) -> Option<String> {
    let (x, y) = (masked(a, "online"), masked(b, "online")); if x == y { return None; }
    Some(format!("printed {:?} instead of {:?}", y.iter().find(|l| !x.contains(l)), x.iter().find(|l| !y.contains(l))))
}

// ---------------------------------------------------------------- C14: clocks only affect reported times
pub fn gen_c14(r: &mut Rng, case: u64, tier: Tier, _w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let mut v = vec![]; let (k, kind) = match r.below(4) { 0 => { let csv = r.chance(1, 2); (bench_work(r, tier, c, csv).0, if csv { "csv" } else { "online" }) } 1 => { let mut k = work(r, tier, c, &["elaborate", "elaborate", "solver"], false); after_cmd(&mut k.w, "--stats"); (k, "elaborate") } _ => (work(r, tier, c, &["stats"], true), "stats") };
    for _ in 0..6 { let mut w = k.w.clone(); w.p(CLOCK_MODE, 1 + r.below(5) as u64).p(CLOCK_SEED, r.next()); v.push({ let mut s = scen("C14", kind, "cli", case, w); s.set("cmd", k.cmd).set("shrink", "p.alethe"); s }); }
    Ok(v)
}
/// A long name may run into the time printed after it.
fn glued(t: &str) -> Option<(&str, &str)> { let u = t.strip_suffix('s')?; let u = u.strip_suffix(|c| matches!(c, 'n' | 'm' | 'µ')).unwrap_or(u); let n = u.trim_end_matches(|c: char| c.is_ascii_digit() || c == '.'); if n.len() < u.len() && !n.is_empty() && n.chars().any(|c| c.is_alphabetic()) { Some((n, &t[n.len()..])) } else { None } }
/// Replaces every measured time, ratio and percentage.
fn mask(l: &str) -> String {
    l.split(' ').filter(|t| !t.is_empty()).map(|t| {
        let core = t.trim_matches(|c| c == '(' || c == ')'); let num = core.trim_end_matches(|c: char| c == '%' || c == 's' || c == 'm' || c == 'n' || c == 'µ');
        if let Some((n, _)) = glued(core) { return format!("{n} T"); }
        if core == "NaN" || core == "NaN%" || core == "inf" || core == "inf%" || (num.parse::<f64>().is_ok() && (num.len() != core.len() || num.contains('.'))) { "T".to_string() } else { t.to_string() }
    }).collect::<Vec<_>>().join(" ")
}
fn masked(o: &Outcome, kind: &str) -> Vec<String> {
    let mut v: Vec<String> = o.stdout().lines().map(|l| { let t = l.trim_start(); if t.starts_with("step: ") || t.starts_with("file ") { t.split(':').next().unwrap().to_string() } else { mask(l) } }).collect(); // which step or file took longest depends on the clock, that one is named does not
    if kind != "elaborate" { v.sort(); } else { let (mut st, pf): (Vec<String>, Vec<String>) = v.into_iter().partition(|l| !l.starts_with('(')); st.sort(); st.extend(pf); v = st; } v
}
pub fn judge_c14(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let mut plain = sc.w.clone(); plain.params.remove(&CLOCK_MODE); plain.params.remove(&CLOCK_SEED);
    let a = w.run_ref("cli", &plain)?; let o = w.run("cli", &sc.w)?;
    if let Some(v) = crash_of(&o) { if crash_of(&a).is_none() { j.bad(format!("{} under another clock", v.v), format!("{} clock mode {}: {}", sc.w.argv[1..].join(" "), sc.w.params.get(&CLOCK_MODE).unwrap_or(&0), v.detail)); } return Ok(j); }
    if crash_of(&a).is_some() { return Ok(j); }
    if o.cnt("clock_reads") > 2 { j.nontrivial.push(fnv(format!("{:?}{:?}", sc.w.params, sc.w.argv).as_bytes()) ^ fnv(&sc.w.files[0].1)); } if o.cnt("clock_jumps") > 0 { w.stats.hit("clock jumped during the run"); }
    if a.end != o.end { j.bad("exit status depends on the clock", format!("{:?} instead of {:?}", o.end, a.end)); }
    if sc.kind == "csv" { if let Some(d) = bench_diff(&a, &o) { j.bad("benchmark tables depend on the clock", d); } return Ok(j); }
    let par = sc.w.argv.iter().any(|x| x == "-u"); let (x, y) = (masked(&a, &sc.kind), masked(&o, &sc.kind));
    if !(par && a.end != End::Exit(0)) && x != y { let d: Vec<&String> = y.iter().filter(|l| !x.contains(l)).take(2).chain(x.iter().filter(|l| !y.contains(l)).take(2)).collect(); j.bad("results other than times depend on the clock", format!("{} {d:?}", sc.w.argv[1..].join(" "))); }
    j.sample = Some(format!("{} clock mode {} seed {:x}: {} clock reads, {} jumps", sc.w.argv[1..].join(" "), sc.w.params.get(&CLOCK_MODE).unwrap_or(&0), sc.w.params.get(&CLOCK_SEED).unwrap_or(&0), o.cnt("clock_reads"), o.cnt("clock_jumps"))); Ok(j)
}
