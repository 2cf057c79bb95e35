//! Several instances of the library in one process, inside the simulator:
//!   simmulti THREADS[s] JOB...  (s: errors show terms with sharing)  JOB is KIND:PROOF:PROBLEM:OPTIONS[:STEP]; L and H among the options call solvers; jobs are dealt to the threads in turn
use carcara::ast::*;
use carcara::{checker, parser, Error};
use std::fs::File;
use std::io::BufReader;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { return; }
    USE_SHARING_IN_TERM_DISPLAY.store(a[1].ends_with('s'), std::sync::atomic::Ordering::Relaxed);
    multi(a[1].trim_end_matches('s').parse().unwrap(), &a[2..]);
}
fn job(spec: &str) -> String {
    let f: Vec<&str> = spec.split(':').collect(); let open = |f: &str| BufReader::new(File::open(f).unwrap());
    let (pf, pb, extra) = (open(f[1]), open(f[2]), f.get(3).copied().unwrap_or("")); 
    let none = || -> Option<BufReader<File>> { if extra.contains('R') { Some(open("r1.rare")) } else if extra.contains('S') { Some(open("r2.rare")) } else { None } };
    let (mut pc, mut cc) = (parser::Config::new(), checker::Config::new());
    if extra.contains('i') { cc.ignore_unknown_rules = true; } if extra.contains('x') { pc.expand_lets = true; } if extra.contains('s') { pc.allow_int_real_subtyping = true; }
    if extra.contains('d') { pc.apply_function_defs = false; } if extra.contains('h') { pc.parse_hole_args = true; } if extra.contains('t') { pc.strict = true; } if extra.contains('e') { cc.elaborated = true; } if extra.contains('w') { cc.allowed_rules.extend(["refl", "trans", "cong"].map(String::from)); }
    let verdict = |r: Result<bool, Error>| match r { Ok(false) => "valid".to_string(), Ok(true) => "holey".into(), Err(e) => format!("error {e}") };
    let show = |pool: &mut PrimitivePool, prelude: &ProblemPrelude, proof: &Proof| { let mut o: Vec<u8> = vec![]; write_proof_to_dest(pool, prelude, proof, &mut o, !extra.contains('n')).unwrap(); String::from_utf8_lossy(&o).into_owned() };
    match f[0] {
        "check" => verdict(carcara::check(pb, pf, none(), pc, cc, false)),
        "par" => match carcara::check_parallel(pb, pf, none(), pc, cc, false, 3, 0) { Ok(h) => verdict(Ok(h)), Err(_) => "error".into() },
        "parse" => match parser::parse_instance(pb, pf, none(), pc) { Ok((p, q, _, mut pool)) => {
            let asserts: Vec<_> = p.premises.iter().cloned().collect(); let mut all: Vec<String> = vec![];
            for _ in 0..3 { // the same text each time
                let mut t = show(&mut pool, &p.prelude, &q); let mut o: Vec<u8> = vec![];
                write_asserts(&mut pool, &p.prelude, &mut o, &asserts, !extra.contains('n')).unwrap(); t += &String::from_utf8_lossy(&o);
                for c in &q.commands { for x in c.clause() { t += &format!("{x} {x:#}\n"); } } if !all.contains(&t) { all.push(t); } }
            all.join("and also\n") } Err(e) => format!("error {e}") },
        "slice" => match parser::parse_instance(pb, pf, none(), pc) { Ok((p, q, _, mut pool)) => { let id = f.get(4).copied().unwrap_or(""); match carcara::slice::slice(&q, id, &mut pool, 0) { Some((s, a)) => { let t = show(&mut pool, &p.prelude, &s); t + &a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n") } None => "no such step".into() } } Err(e) => format!("error {e}") },
        "lia" => match carcara::generate_lia_smt_instances(pb, pf, none(), pc, true) { Ok(v) => v.into_iter().map(|(i, t)| format!("{i} {t}")).collect::<Vec<_>>().join("\n"), Err(e) => format!("error {e}") },
        "elab" => { use carcara::elaborator::{Config, ElaborationStep::*, HoleOptions, LiaGenericOptions}; let (l, h) = (extra.contains('L'), extra.contains('H'));
            let c = Config { lia_options: l.then(|| LiaGenericOptions { solver: "smt".into(), arguments: vec!["lia".into()] }), uncrowd_rotation: extra.contains('r'), hole_options: h.then(|| HoleOptions { solver: "smt".into(), arguments: vec!["hole".into()] }) };
            match carcara::check_and_elaborate(pb, pf, none(), pc, cc, c, if l || h { vec![Polyeq, LiaGeneric, Hole, Local, Uncrowd] } else if extra.contains('o') { vec![Polyeq, Local, Uncrowd, Reordering] } else { vec![Polyeq, Local, Uncrowd] }, false) { Ok((h, p, q, mut pool)) => { let t = show(&mut pool, &p.prelude, &q); format!("{} {t}", verdict(Ok(h))) } Err(e) => format!("error {e}") } }
        _ => std::process::exit(64),
    }
}
fn multi(threads: usize, jobs: &[String]) {
    let done: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
            let mut o = vec![]; for (i, j) in jobs.iter().enumerate() { if i % threads == t { let r = std::panic::catch_unwind(|| job(j)).unwrap_or_else(|_| "panic".into()); o.push((i, r)); } } o
        }).unwrap()).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all: Vec<(usize, String)> = done.into_iter().flatten().collect(); all.sort();
    for (i, t) in all { println!("=== {i}\n{t}"); }
}
