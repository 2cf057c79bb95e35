mod corpus; mod engine; mod explore; mod gen; mod json; mod props; mod props_bench; mod props_io; mod props_lib;
mod props_res; mod props_par; mod props_solver; mod rng; mod scen; mod sim; mod work;
use engine::*;
use std::sync::Arc;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("SIM_VERIF").unwrap_or("/verif".into());
    let build = std::env::var("CV_BUILD").unwrap_or(format!("{verif}/.build"));
    let shm = if std::fs::write("/dev/shm/.simprobe", b"x").is_ok() { let _ = std::fs::remove_file("/dev/shm/.simprobe"); "/dev/shm".to_string() } else { "/tmp".to_string() };
    let bins = Arc::new(Bins { cli: format!("{build}/sim/cli"), lib: format!("{build}/sim/lib"), multi: format!("{build}/sim/multi"), scratch: shm });
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
    let ncpu = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut cfg = explore::Cfg { verif, bins: bins.clone(), seed, tier: Tier::Quick, workers: std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(ncpu.min(8)) };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            if a.get(3).map(|s| s.as_str()) == Some("thorough") { cfg.tier = Tier::Thorough; }
            match props::all().into_iter().find(|p| p.id == a[2]) { Some(p) => explore::check(&p, &cfg), None => { eprintln!("unknown property"); 2 } }
        }
        Some("replay") => explore::replay(&a[2], &cfg),
        Some("calgen") => { calgen(bins, a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1000)); 0 }
        Some("gen1") => { let mut r = rng::Rng::new(a[2].parse().unwrap()); let o = gen::Opts { size: r.range(20, 40), depth: 4, holes: true, end: 0 }; let p = gen::generate(&mut r, &o); eprint!("{}", p.problem); print!("{}", p.text()); 0 }
        Some("calsolver") => { let mut w = Worker::new(0, bins); props_solver::calibrate(&mut w, a.get(2).and_then(|x| x.parse().ok()).unwrap_or(200)); 0 }
        Some("sol1") => { props_solver::dump1(&mut Worker::new(0, bins), a[2].parse().unwrap()); 0 }
        Some("calwork") => { calwork(bins, a.get(2).and_then(|x| x.parse().ok()).unwrap_or(2000)); 0 }
        Some("list") => { for p in props::all() { println!("{} {}", p.id, p.quick); } 0 }
        Some("calibrate") => { calibrate(bins); 0 }
        _ => { eprintln!("usage: simdriver check ID quick|thorough | replay FILE"); 2 }
    };
    std::process::exit(code);
}
/// Development-time: which snippets are accepted on their own on the current tree.
fn calibrate(bins: Arc<Bins>) {
    let c = corpus::load(); let mut w = Worker::new(0, bins); let mut ok = vec![]; let mut why = std::collections::BTreeMap::new();
    for (i, s) in c.snip.iter().enumerate() {
        if s.expect != "true" { continue; }
        let Some((a, b)) = corpus::instantiate(s, "_s0") else { *why.entry("inst".to_string()).or_insert(0) += 1; continue };
        let pb = a.join("\n") + "\n" + corpus::TAIL_PROBLEM; let pf = b.join("\n") + "\n" + corpus::TAIL_PROOF;
        let mut wd = sim::World::default(); wd.argv = ["carcara", "check", "p.alethe", "p.smt2"].iter().map(|s| s.to_string()).collect(); wd.file("p.smt2", pb.as_bytes()).file("p.alethe", pf.as_bytes()).p(sim::MODE, 0);
        let o = w.run("cli", &wd).unwrap(); let v = check_verdict(&o);
        if v.v == "valid" || v.v == "holey" { ok.push(i.to_string()); } else { *why.entry(format!("{} {} {}", s.name, v.v, v.detail.chars().take(150).collect::<String>())).or_insert(0) += 1; }
    }
    println!("{} usable", ok.len()); for (k, v) in why { println!("{v} {k}"); }
    std::fs::write("/verif/corpus/usable.txt", ok.join("\n") + "\n").unwrap();
}
/// Development-time: generated proofs that do not get the verdict they should have by construction.
fn calgen(bins: Arc<Bins>, n: usize) {
    let mut w = Worker::new(0, bins); let mut bad = std::collections::BTreeMap::new(); let mut ok = 0;
    for k in 0..n {
        let mut r = rng::Rng::new(k as u64 * 7919 + 5); let o = gen::Opts { size: r.range(2, 30), depth: r.range(1, 5), holes: true, end: 0 }; let mut p = gen::generate(&mut r, &o);
        if k % 2 == 1 { p.corrupt_some(&mut r, 1); }
        for cmd in ["check", "elaborate"] {
            let mut wd = sim::World::default(); wd.argv = ["carcara", cmd, "p.alethe", "p.smt2"].iter().map(|s| s.to_string()).collect(); wd.file("p.smt2", p.problem.as_bytes()).file("p.alethe", p.text().as_bytes()).p(sim::MODE, 0);
            let o = w.run("cli", &wd).unwrap(); let v = check_verdict(&o); let got = if o.end == sim::End::Exit(0) { o.stdout().lines().next().unwrap_or("").to_string() } else { format!("{:?}", o.end) };
            if v.v != p.expect && !(cmd == "elaborate" && (got == p.expect || p.expect == "invalid" && got == "Exit(1)")) { let what = format!("{cmd} {}: {} {}", p.expect, v.v, v.detail.chars().take(260).collect::<String>()); let key = v.detail.split("rule '").nth(1).map(|x| x.split('\'').next().unwrap_or("").to_string()).unwrap_or(v.v.clone()); let e = bad.entry(format!("{cmd} {} {key} {}", p.expect, if p.corrupted.is_empty() { String::new() } else { let l = p.lines.iter().find(|l| l.id == p.corrupted[0]).unwrap(); l.rule.clone() })).or_insert((0, what, p.text(), p.corrupted.clone())); e.0 += 1; } else { ok += 1; }
        }
    }
    println!("{ok} as expected"); for (k, (n, w, t, c)) in bad { println!("{n} x {k}: {w} {c:?}"); let id = w.split("on step '").nth(1).map(|x| x.split('\'').next().unwrap().to_string()).or(c.first().cloned()).unwrap_or_default(); for l in t.lines().filter(|l| l.contains(&format!(" {id} "))) { println!("      {}", l.chars().take(500).collect::<String>()); } }
}

/// Development-time: how the drawn commands end.
fn calwork(bins: Arc<Bins>, n: u64) {
    let mut w = Worker::new(0, bins); let c = corpus::load(); let mut m: std::collections::BTreeMap<String, (usize, String)> = Default::default();
    for k in 0..n {
        let mut r = rng::Rng::new(k * 7919 + 3); let wk = work::work(&mut r, Tier::Quick, &c, &["check", "par", "stats", "parse", "elaborate", "slice", "glia"], false); let o = w.run("cli", &wk.w).unwrap();
        let big = wk.w.files.iter().any(|f| f.1.windows(5).any(|x| x == b"bulk1" || x == b"bulk2") || f.1.len() > 30000); let e: String = error_line(&o).split("parser error").nth(1).unwrap_or("").chars().take(60).collect();
        let x = m.entry(format!("{} {}{} {:?} {}", wk.cmd, wk.base_src, if big { " big" } else { "" }, o.end, if e.is_empty() { "" } else { "parser error" })).or_default(); x.0 += 1; if x.1.is_empty() { x.1 = format!("{} | {}", e, error_line(&o).chars().take(150).collect::<String>()); }
    }
    for (k, (n, e)) in m { println!("{n:6} {k}   {e}"); }
}
