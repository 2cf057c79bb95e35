//! C20: several instances of the library in one process, one after the other or at the same time.
use crate::corpus::Corpus;
use crate::engine::*;
use crate::explore::Judged;
use crate::props::*;
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;
use crate::{props_solver, work};

fn world(threads: usize, jobs: &[String], files: &[(String, Vec<u8>)]) -> World {
    let mut w = World { argv: vec!["simmulti".into(), threads.to_string()], ..Default::default() }; w.argv.extend(jobs.iter().cloned());
    for (n, d) in files { if jobs.iter().any(|j| j.split(':').any(|x| x == n) || n == "r1.rare" && j.contains('R') || n == "r2.rare" && j.contains('S')) { w.file(n, d); } } w
}
/// With the replies the solvers give: they answer each query in the same way whoever asks.
fn with_replies(mut w: World, like: &World) -> World { w.solvers = like.solvers.clone(); w.blobs = like.blobs.clone(); w }
pub fn gen_c20(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let close = r.chance(1, 2); // a small instance on which all threads do much the same at the same time
    let solve = r.chance(1, 5); let nb = if solve { r.range(2, 3) } else if close { 1 } else { r.range(1, 4) }; let mut files = vec![]; let mut info = vec![];
    let mut ans = World::default();
    for i in 0..nb {
        if solve && (i == 0 || r.chance(1, 3)) {
            let q = props_solver::obedient(r); let get = |n: &str| q.files.iter().find(|f| f.0 == n).unwrap().1.clone(); let mut o = "i".to_string(); if q.argv.iter().any(|a| a == "--rare-file") { o.push('R'); } if r.chance(3, 4) { o.push('L'); } if r.chance(3, 4) { o.push('H'); }
            ans.blobs.extend(q.blobs.clone()); let ids = work::step_ids(&String::from_utf8_lossy(&get("p.alethe"))); files.push((format!("f{i}.alethe"), get("p.alethe"))); files.push((format!("f{i}.smt2"), get("p.smt2"))); info.push((o, ids)); continue;
        }
        let (mut problem, mut proof, opt) = match if close { r.below(3) * 4 } else { r.below(9) } { 8 => { let bad = r.chance(1, 3); let (a, b) = work::rare(r, bad); (a, b, if r.chance(1, 2) { "R" } else { "S" }.to_string()) } 0 | 1 => { let a = work::arith_full(r, if close { 1 } else { 3 }, true); (a.problem, a.proof, "A".to_string()) } _ => { let b = base(r, tier, c, true); let o = if b.src == "cvc5" { "ixs" } else if b.flags.iter().any(|f| f == "-i") { "i" } else { "" }; (b.problem, b.proof, o.to_string()) } };
        if close || r.chance(1, 2) { work::exotic(r, &mut problem, &mut proof); }
        if r.chance(1, 15) { let mut k = r.below(proof.len()); while !proof.is_char_boundary(k) { k -= 1; } proof.truncate(k); }
        let ids = work::step_ids(&proof); files.push((format!("f{i}.alethe"), proof.into_bytes())); files.push((format!("f{i}.smt2"), problem.into_bytes())); info.push((opt, ids));
    }
    files.push(("r1.rare".into(), work::RARE.as_bytes().to_vec())); files.push(("r2.rare".into(), work::RARE.replace("(= (= x y) (= y x))", "(= (= x y) (= x y))").replace("(= (or x true) true)", "(= (or x true) x)").into_bytes()));
    if solve { for _ in 0..60 { ans.solvers.push(props_solver::good()); } }
    let nj = r.range(2, 8); let mut jobs = vec![];
    for _ in 0..nj { let i = r.below(nb); let (opt, ids) = &info[i]; let kind = if close { *r.pick(&["parse", "parse", "elab", "check", "slice", "par"]) } else { *r.pick(&["check", "check", "par", "parse", "elab", "elab", "elab", "lia", "slice"]) }; let kind = if opt.contains('L') && r.chance(1, 2) { "elab" } else if solve && r.chance(1, 2) { "parse" } else { kind }; let arith = opt == "A"; let kind = if arith && r.chance(2, 5) { "lia" } else { kind }; let mut o = opt.clone(); if r.chance(1, 4) { o.push('n'); } if r.chance(1, 4) { o.push('r'); } for x in ['d', 'h', 't', 'e', 'w', 'o'] { if r.chance(1, 16) { o.push(x); } } if o.contains('R') && r.chance(1, 4) { o = o.replace('R', "S"); }
        let step = if kind == "slice" && !ids.is_empty() { format!(":{}", r.pick(ids)) } else { String::new() }; if step.contains(['|', '"']) { continue; }
        jobs.push(format!("{kind}:f{i}.alethe:f{i}.smt2:{o}{step}")); }
    let mut v = vec![];
    for _ in 0..4 {
        let t = if close { r.range(2, 5) } else { *r.pick(&[1, 2, 3, 3, 4]) }; r.shuffle(&mut jobs); let mut wd = with_replies(world(t, &jobs, &files), &ans); if r.chance(1, 2) { wd.argv[1].push('s'); } if solve { props_solver::conditions(r, &mut wd); } let mut probe = wd.clone(); probe.p(MODE, 0); let ev = w.run_ref("multi", &probe)?.events;
        draw_schedule(r, &mut wd, ev); if r.chance(1, 2) { draw_environment(r, &mut wd); } else { wd.p(HASH_SEED, r.next()); } wd.p(MAX_EVENTS, ev * 50 + 2_000_000).p(CPU_SECONDS, 20);
        let names = wd.files.iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(","); let mut s = scen("C20", "multi", "multi", case, wd); s.set("threads", t.to_string()).set("shrink", names.clone()); v.push(s);
    }
    Ok(v)
}
/// What each job printed.
fn parts(o: &Outcome) -> Vec<String> { let t = format!("\n{}", o.stdout()); t.split("\n=== ").skip(1).map(|x| x.split_once('\n').map_or("", |y| y.1).trim_end().to_string()).collect() }
pub fn judge_c20(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() }; let jobs: Vec<String> = sc.w.argv[2..].to_vec(); if jobs.is_empty() { return Ok(j); }
    let mut alone = vec![];
    for x in &jobs { let mut a = with_replies(world(1, &[x.clone()], &sc.w.files), &sc.w); if sc.w.argv[1].ends_with('s') { a.argv[1].push('s'); } a.p(MODE, 0).p(CPU_SECONDS, 20); let o = w.run_ref("multi", &a)?; let p = parts(&o); if p.len() != 1 || o.end != End::Exit(0) { w.stats.hit("skipped: a job on its own fails"); return Ok(j); } alone.push(p[0].clone()); }
    let o = w.run("multi", &sc.w)?;
    if let Some(v) = crash_of(&o) { if o.end != End::Exit(0) { j.bad(format!("{} with several instances", v.v), format!("{} jobs in {} thread(s): {}", jobs.len(), sc.m("threads"), v.detail)); return Ok(j); } }
    let got = parts(&o);
    if jobs.len() > 1 { j.nontrivial.push(o.sched_hash ^ fnv(jobs.join(" ").as_bytes()) ^ fnv(&sc.w.files[0].1)); }
    if got.len() != jobs.len() { j.bad("result missing", format!("{} results of {} jobs", got.len(), jobs.len())); return Ok(j); }
    for (i, x) in jobs.iter().enumerate() {
        w.stats.hit(&format!("{} compared", x.split(':').next().unwrap()));
        if got[i] != alone[i] { let (a, b) = (alone[i].lines().zip(got[i].lines()).find(|(a, b)| a != b).map(|(a, b)| (a.to_string(), b.to_string()))).unwrap_or((format!("{} lines", alone[i].lines().count()), format!("{} lines", got[i].lines().count()))); let cut = |s: String| s.chars().take(160).collect::<String>();
            j.bad("instances influence each other", format!("{x}: alone {:?}, among {} jobs in {} thread(s) {:?}", cut(a), jobs.len(), sc.m("threads"), cut(b))); break; }
    }
    j.sample = Some(format!("{} jobs in {} thread(s), {} switches over {} points: {}", jobs.len(), sc.m("threads"), o.switches, o.events, jobs.join(" "))); Ok(j)
}
