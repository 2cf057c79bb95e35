//! Input, output, environment and crash properties: C07-C10, C13-C15, C17, C18.
use crate::corpus::{self, Corpus, Sx};
use crate::engine::*;
use crate::explore::Judged;
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;
use crate::work::*;

const ALL: &[&str] = &["check", "check", "check", "par", "parse", "parse", "elaborate", "elaborate", "elaborate", "slice", "slice", "glia", "solver"];
const SEQ: &[&str] = &["check", "check", "parse", "elaborate", "elaborate", "slice", "glia", "solver"];
fn mk(prop: &str, kind: &str, case: u64, k: &Work, w: World) -> Scen { let mut s = scen(prop, kind, "cli", case, w); s.set("cmd", k.cmd).set("src", k.base_src).set("shrink", "p.alethe,p.smt2"); s }
fn file_idx(w: &World, n: &str) -> Option<usize> { w.files.iter().position(|f| f.0 == n) }
fn inputs(w: &World) -> Vec<(u64, usize)> { let mut v: Vec<(u64, usize)> = w.files.iter().enumerate().map(|(i, f)| (i as u64, f.1.len())).collect(); if !w.stdin.is_empty() { v.push((1000, w.stdin.len())); } v }
/// The same command on the same inputs, delivered the plain way, without faults.
pub fn canonical(w: &World) -> World {
    let mut c = World { files: w.files.clone(), solvers: w.solvers.clone(), blobs: w.blobs.clone(), ..Default::default() };
    c.p(MODE, 0); for k in [MAX_EVENTS, CPU_SECONDS] { if let Some(v) = w.params.get(&k) { c.p(k, *v); } }
    if w.argv.get(1).map_or(false, |a| a == "bench") { c.argv = w.argv.clone(); if let Some(m) = w.params.get(&CLOCK_MODE) { c.p(CLOCK_MODE, *m); } return c; }
    let cut = w.argv.iter().position(|a| a == "--").unwrap_or(w.argv.len());
    c.argv = w.argv[..cut].iter().filter(|a| *a != "--buffer-entire-file").cloned().collect();
    let pos: Vec<&String> = w.argv[cut..].iter().skip(1).collect();
    if pos.is_empty() { return c; }
    c.argv.push("--".into());
    let mut give = |name: &str, a: &str| -> String { if a == "-" { c.files.push((name.into(), w.stdin.clone())); name.into() } else { a.into() } };
    let (a, b) = (give("p.alethe", pos[0]), pos.get(1).map_or("p.smt2".to_string(), |b| give("p.smt2", b))); c.argv.push(a); c.argv.push(b);
    c
}
fn use_stdin(r: &mut Rng, w: &mut World, allow_proof: bool) {
    let n = if allow_proof && r.chance(1, 2) { "p.alethe" } else { "p.smt2" };
    if let Some(i) = file_idx(w, n) { w.stdin = w.files.remove(i).1; let cut = w.argv.iter().position(|a| a == "--").unwrap(); for a in w.argv[cut..].iter_mut() { if a == n { *a = "-".into(); } } }
}
fn proof_stdin_ok(k: &Work) -> bool { k.cmd != "glia" && (k.cmd != "slice" || k.w.argv.iter().any(|a| a == "--sliced-output")) }
fn chunk(r: &mut Rng) -> u64 { *r.pick(&[1, 1, 2, 3, 5, 7, 16, 61, 255, 1000, 8191, 8192]) }
fn words(o: &Outcome) -> Vec<String> { o.stdout().lines().map(|s| s.to_string()).collect() }
pub fn accepted(o: &Outcome) -> bool { words(o).iter().any(|l| l == "valid" || l == "holey") }
fn io_sample(sc: &Scen, o: &Outcome) -> Option<String> { Some(format!("{} [{}] faults {:?} params {:?} -> {:?}", sc.m("cmd"), sc.w.argv[1..].join(" "), sc.w.faults.iter().map(|f| (FAULT_NAMES[f[0] as usize], &f[1..4])).collect::<Vec<_>>(), sc.w.params.iter().filter(|p| *p.0 >= READ_CHUNK || *p.0 == CLOCK_MODE).map(|p| (PARAM_NAMES.iter().find(|x| x.1 == *p.0).unwrap().0, *p.1)).collect::<Vec<_>>(), o.end)) }
fn input_key(sc: &Scen) -> u64 { fnv(&sc.w.files.iter().flat_map(|f| f.1.clone()).collect::<Vec<u8>>()) ^ fnv(sc.w.argv.join(" ").as_bytes()) }

// ---------------------------------------------------------------- C07: how input arrives does not matter
/// Bytes that text usually does not have: other line ends, marks, blanks, broken or unusual characters.
fn mangle(r: &mut Rng, b: &mut Vec<u8>, proof: bool, harmless: bool) {
    if proof && (harmless || r.chance(1, 2)) {
        // visible in what is printed: a string with the odd bytes in it
        let x: &[u8] = *r.pick(&[&b"a\r\nb"[..], b"\r\n", b"a\rb", b"\r", b"\n\n", b"a \t b", b"\xef\xbb\xbf", b"\xc3\xa9\r\n", b"\xc2\xa0", b" ;x\r\n", b"\x0c", b"\xef\xbf\xbd"]);
        let mut l = b"(step odd0 (cl (= \"".to_vec(); l.extend(x); l.extend(b"\" \"z"); if r.chance(1, 2) { l.extend(x); } l.extend(b"\")) :rule hole)\n"); l.extend(&b[..]); *b = l;
    }
    if !harmless { for _ in 0..r.below(3) {
        match r.below(6) {
            0 => { let mut o = vec![]; for c in b.iter() { if *c == b'\n' && (o.last() != Some(&b'\r')) { o.push(b'\r'); } o.push(*c); } *b = o; }
            1 => { while b.last() == Some(&b'\n') { b.pop(); } if r.chance(1, 2) { b.extend(*r.pick(&[&b" "[..], b"; end", b"\r", b"\x00", b"\xff", b"\n\n\n"])); } }
            2 => { let x: &[u8] = b"\xef\xbb\xbf"; b.splice(0..0, x.iter().copied()); }
            _ => {
                let x: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\r", b"\r\n", b"\x00", b"\xc3\xa9", b"\xc2\xa0", b"\xe2\x80\xa8", b"\x0c", b"\x0b", b"\t", b"; \xff\n", b"; x\r", b"\xc2\x85", b"\xed\xa0\x80", b"\x1a"]);
                let ends: Vec<usize> = b.iter().enumerate().filter(|c| *c.1 == b'\n' || *c.1 == b' ').map(|c| c.0).collect();
                let at = if ends.is_empty() || r.chance(1, 4) { r.below(b.len() + 1) } else { *r.pick(&ends) }; b.splice(at..at, x.iter().copied());
            }
        }
    } }
}
fn odd(r: &mut Rng, k: &mut Work) { if let Some(i) = file_idx(&k.w, "p.alethe") { mangle(r, &mut k.w.files[i].1, true, true); } }
pub fn gen_c07(r: &mut Rng, case: u64, tier: Tier, _w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let mut k = work(r, tier, c, ALL, true); let mut v = vec![];
    if r.chance(1, 3) { for n in ["p.alethe", "p.smt2"] { if r.chance(2, 3) { if let Some(i) = file_idx(&k.w, n) { mangle(r, &mut k.w.files[i].1, n == "p.alethe", false); } } } }
    for _ in 0..6 {
        let mut w = k.w.clone(); w.p(IO_SEED, r.next());
        if r.chance(4, 5) { w.p(READ_CHUNK, chunk(r)); } if r.chance(1, 2) { w.p(READ_EINTR, r.range(2, 9) as u64); }
        if r.chance(1, 6) { w.fault(F_OPEN_ERR, 1 + r.below(2) as u64, 0, 4); }
        if r.chance(1, 6) { w.fault(F_STAT_ERR, r.below(2) as u64, 0, 5); }
        if r.chance(1, 4) { after_cmd(&mut w, "--buffer-entire-file"); }
        if r.chance(1, 3) { use_stdin(r, &mut w, proof_stdin_ok(&k)); }
        else if r.chance(1, 5) && matches!(k.cmd, "check" | "par" | "parse" | "elaborate") { let n = if r.chance(1, 2) { "p.smt2.alethe" } else { "p.smt2.proof" }; let i = file_idx(&w, "p.alethe").unwrap(); w.files[i].0 = n.into(); w.argv.truncate(w.argv.len() - 2); w.argv.push(n.into()); }
        v.push(mk("C07", "delivery", case, &k, w));
    }
    Ok(v)
}
pub fn judge_c07(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let a = w.run_ref("cli", &canonical(&sc.w))?; let b = w.run("cli", &sc.w)?;
    if let Some(v) = crash_of(&b) { if crash_of(&a).is_none() { j.bad(v.v, format!("{} under another delivery of the same input: {}", sc.m("cmd"), v.detail)); return Ok(j); } }
    if b.cnt("short_read") + b.cnt("read_eintr") > 0 || !sc.w.stdin.is_empty() { j.nontrivial.push(input_key(sc) ^ b.cnt("reads").wrapping_mul(0x9e37) ^ fnv(&sc.w.params.get(&IO_SEED).unwrap_or(&0).to_le_bytes())); }
    if let Some(d) = diff(&a, &b) { j.bad("input delivery changes the result", format!("{}: {d}", sc.m("cmd"))); }
    else if sc.m("cmd") != "par" && a.stderr() != b.stderr() { j.bad("input delivery changes the diagnostics", format!("{}: {}", sc.m("cmd"), first_diff(&a.stderr(), &b.stderr()))); }
    j.sample = io_sample(sc, &b); Ok(j)
}

// ---------------------------------------------------------------- C08: input errors are reported
pub fn gen_c08(r: &mut Rng, case: u64, tier: Tier, _w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let mut k = work(r, tier, c, ALL, true); let mut v = vec![]; if r.chance(1, 6) { odd(r, &mut k); }
    for _ in 0..6 {
        let mut w = k.w.clone(); w.p(IO_SEED, r.next());
        if r.chance(1, 3) { after_cmd(&mut w, "--buffer-entire-file"); }
        if r.chance(1, 3) { use_stdin(r, &mut w, proof_stdin_ok(&k)); }
        let errno = *r.pick(&[5u64, 5, 13, 24, 21, 6, 110, 116, 12, 11]);
        if r.chance(1, 5) { let n = inputs(&w).iter().filter(|x| x.0 != 1000).count().max(1); w.fault(F_OPEN_ERR, 1 + r.below(n) as u64, 0, if errno == 11 { 2 } else { errno }); }
        else { let ins = inputs(&w); let (i, l) = *r.pick(&ins); let off = match r.below(5) { 0 => 0, 1 => l as u64, 2 => (l as u64).saturating_sub(1 + r.below(40) as u64), _ => r.below(l + 1) as u64 }; w.fault(F_READ_ERR, i, off, errno); }
        if r.chance(1, 2) { w.p(READ_CHUNK, chunk(r).max(16)); }
        v.push(mk("C08", "readerr", case, &k, w));
    }
    Ok(v)
}
pub fn judge_c08(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() }; let o = w.run("cli", &sc.w)?;
    let fired = o.cnt("read_err") + o.cnt("open_err"); if fired == 0 { return Ok(j); }
    j.nontrivial.push(input_key(sc) ^ fnv(format!("{:?}", sc.w.faults).as_bytes())); w.stats.hit(&format!("input error during {}", sc.m("cmd")));
    let what = format!("{} with {} failing: {:?}, stdout {:?}", sc.m("cmd"), sc.w.faults.iter().map(|f| format!("{} {:?}", FAULT_NAMES[f[0] as usize], &f[1..4])).collect::<Vec<_>>().join(" "), o.end, o.stdout().chars().take(200).collect::<String>());
    if let Some(v) = crash_of(&o) { j.bad(v.v, format!("{what}: {}", v.detail)); return Ok(j); }
    if o.end == End::Exit(0) { j.bad("input error reported as success", what.clone()); }
    if accepted(&o) { j.bad("verdict given although the input could not be read", what.clone()); }
    else if o.stdout().lines().any(|l| l != "invalid") { j.bad("output produced although the input could not be read", what.clone()); }
    if !outputs(&o).is_empty() { j.bad("files written although the input could not be read", what.clone()); }
    if error_line(&o).is_empty() && !sc.w.argv.windows(2).any(|a| a[0] == "--log" && a[1] == "off") { j.bad("input error not reported", what); }
    j.sample = io_sample(sc, &o); Ok(j)
}

// ---------------------------------------------------------------- C09: torn inputs are not accepted
fn is_cl(x: &Sx) -> bool { x.head() == "step" && x.list().get(2).map_or(false, |c| c.list().len() == 1 && c.head() == "cl") }
pub fn concludes_last(proof: &str) -> bool { match corpus::read(proof).map(corpus::unwrap) { Some(v) => !v.is_empty() && is_cl(v.last().unwrap()) && v.iter().filter(|c| is_cl(c)).count() == 1, None => false } }
/// Does the proof end inside a subproof, that is, before the step its last anchor names?
pub fn ends_in_subproof(proof: &str) -> bool {
    let Some(v) = corpus::read(proof).map(corpus::unwrap) else { return false }; let mut open: Vec<String> = vec![];
    for c in &v { match c.head() {
        "anchor" => { let l = c.list(); match l.iter().position(|x| x.text() == ":step").and_then(|k| l.get(k + 1)) { Some(x) => open.push(x.text()), None => return false } }
        "step" => if open.last().is_some() && c.list().get(1).map(|x| x.text()) == open.last().cloned() { open.pop(); }, _ => {} } }
    !open.is_empty()
}
pub fn gen_c09(r: &mut Rng, case: u64, tier: Tier, _w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let k = work(r, tier, c, &["check", "check", "check", "check", "check", "par", "parse", "elaborate", "elaborate", "slice", "solver"], false); let mut v = vec![]; let mut k = k; if r.chance(1, 6) { odd(r, &mut k); }
    for _ in 0..8 {
        let mut w = k.w.clone(); w.p(IO_SEED, r.next());
        if r.chance(1, 4) { after_cmd(&mut w, "--buffer-entire-file"); }
        if r.chance(1, 3) { use_stdin(r, &mut w, proof_stdin_ok(&k)); }
        let ins = inputs(&w); let (i, l) = *r.pick(&ins); if l == 0 { continue; }
        let data = if i == 1000 { &w.stdin } else { &w.files[i as usize].1 };
        let off = match r.below(4) { // half-way through a command, or right between two commands
            0 => l - 1 - r.below(l.min(80)), 1 => { let nl: Vec<usize> = data.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).filter(|x| *x < l).collect(); if nl.is_empty() { 0 } else { *r.pick(&nl) } } _ => r.below(l) };
        if r.chance(1, 2) { w.fault(F_READ_EOF, i, off as u64, 0); } else if i == 1000 { w.stdin.truncate(off); if off == 0 { continue; } } else { w.files[i as usize].1.truncate(off); }
        if r.chance(1, 2) { w.p(READ_CHUNK, chunk(r).max(16)); }
        let mut s = mk("C09", "torn", case, &k, w); s.meta.remove("shrink"); s.set("file", if i == 1000 { let cut = s.w.argv.iter().position(|a| a == "--").unwrap(); let j = s.w.argv[cut..].iter().position(|a| a == "-").unwrap_or(1); if j == 1 { "p.alethe".to_string() } else { "p.smt2".into() } } else { s.w.files[i as usize].0.clone() });
        s.set("ends_last", if concludes_last(&String::from_utf8_lossy(&k.w.files[file_idx(&k.w, "p.alethe").unwrap()].1)) { "1" } else { "" }).set("at", off.to_string());
        v.push(s);
    }
    Ok(v)
}
pub fn judge_c09(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let mut plain = canonical(&sc.w); let n = sc.m("file"); let at: usize = sc.m("at").parse().unwrap_or(0);
    let Some(fi) = file_idx(&plain, n) else { return Ok(j) }; plain.files[fi].1.truncate(at); let prefix = String::from_utf8_lossy(&plain.files[fi].1).into_owned();
    let o = w.run("cli", &sc.w)?; let a = w.run_ref("cli", &plain)?;
    let torn = corpus::read(&prefix).is_none();
    let what = format!("{} with {n} cut after {at} bytes ({}): {:?} {:?}; prefix ends in {:?}", sc.m("cmd"), if torn { "inside a command" } else { "between commands" }, o.end, o.stdout().lines().next().unwrap_or(""), prefix.chars().rev().take(50).collect::<String>().chars().rev().collect::<String>());
    j.nontrivial.push(input_key(sc) ^ at as u64); w.stats.hit(if torn { "cut inside a command" } else { "cut between commands" });
    if let Some(v) = crash_of(&o) { if crash_of(&a).is_none() || torn { j.bad(v.v, format!("{what}: {}", v.detail)); } return Ok(j); }
    if torn && (o.end == End::Exit(0) || accepted(&o)) { j.bad("input cut inside a command accepted", what.clone()); }
    if n == "p.alethe" && ends_in_subproof(&prefix) { w.stats.hit("cut inside a subproof"); if o.end == End::Exit(0) || accepted(&o) { j.bad("proof that ends inside a subproof accepted", what.clone()); } }
    if n == "p.alethe" && sc.m("ends_last") == "1" && !concludes_last(&prefix) && matches!(sc.m("cmd"), "check" | "par" | "elaborate" | "solver") && (o.end == End::Exit(0) || accepted(&o)) { j.bad("proof without its conclusion accepted", what.clone()); }
    if let Some(d) = diff(&a, &o) { j.bad("a file that ends early is not treated like a shorter file", format!("{what}: {d}")); }
    j.sample = io_sample(sc, &o); Ok(j)
}

// ---------------------------------------------------------------- C10: output errors are not swallowed
pub fn gen_c10(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let k = work(r, tier, c, &["check", "par", "parse", "parse", "elaborate", "elaborate", "slice", "slice", "slice", "glia", "solver"], true); let mut v = vec![]; let mut k = k;
    if r.chance(1, 6) { k = crate::props_bench::bench_work(r, tier, c, true).0; k.w.p(CLOCK_MODE, 2); } // a clock that stands still makes the tables comparable
    let a = w.run_ref("cli", &canonical(&k.w))?; let outs = outputs(&a); let so = a.stream("stdout").map_or(0, |s| s.len());
    for _ in 0..6 {
        let mut w = k.w.clone(); w.p(IO_SEED, r.next());
        let errno = *r.pick(&[28u64, 28, 5, 32, 122, 27]); let at = |r: &mut Rng, l: usize| match r.below(4) { 0 => 0, 1 => l.saturating_sub(1 + r.below(l.clamp(1, 60))), _ => r.below(l.max(1)) } as u64;
        match r.below(10) {
            0 | 1 => {} // short and interrupted writes only
            2 => { w.fault(F_WRITE_ERR, 2, at(r, a.stderr().len()), errno); }
            3 if !outs.is_empty() => { w.fault(F_CREATE_ERR, 1 + r.below(outs.len()) as u64, 0, *r.pick(&[13u64, 28, 30, 24])); }
            4..=6 if !outs.is_empty() => { let i = r.below(outs.len()); let l = outs.iter().map(|x| x.1.len()).max().unwrap_or(1); w.fault(F_WRITE_ERR, if r.chance(1, 4) { 3 } else { 10 + i as u64 }, at(r, l), errno); }
            _ => { w.fault(F_WRITE_ERR, 1, at(r, so), errno); }
        }
        if r.chance(1, 2) || w.faults.is_empty() { w.p(WRITE_CHUNK, chunk(r)); } if r.chance(1, 3) { w.p(WRITE_EINTR, r.range(2, 9) as u64); }
        v.push(mk("C10", "output", case, &k, w));
    }
    Ok(v)
}
fn is_prefix(a: &[u8], b: &[u8]) -> bool { b.len() >= a.len() && &b[..a.len()] == a }
pub fn judge_c10(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let a = w.run_ref("cli", &canonical(&sc.w))?; let o = w.run("cli", &sc.w)?;
    if crash_of(&a).is_some() { return Ok(j); }
    let fired = o.cnt("write_err") + o.cnt("create_err"); let on_stderr = sc.w.faults.iter().any(|f| f[0] == F_WRITE_ERR && f[1] == 2);
    if fired + o.cnt("short_write") + o.cnt("write_eintr") > 0 { j.nontrivial.push(input_key(sc) ^ fnv(format!("{:?}{:?}", sc.w.faults, sc.w.params).as_bytes())); }
    if fired > 0 { w.stats.hit(&format!("output error during {}{}", sc.m("cmd"), if on_stderr { " (stderr)" } else { "" })); }
    let what = format!("{} with {:?}: {:?} (without the fault {:?})", sc.m("cmd"), sc.w.faults.iter().map(|f| (FAULT_NAMES[f[0] as usize], &f[1..4])).collect::<Vec<_>>(), o.end, a.end);
    if matches!(o.end, End::Deadlock | End::EventLimit | End::Signal(_)) { let v = crash_of(&o).unwrap(); j.bad(v.v, format!("{what}: {}", v.detail)); return Ok(j); }
    if fired == 0 { if let Some(d) = diff(&a, &o) { j.bad("short or interrupted writes change the output", format!("{what}: {d}")); } }
    else if o.end == End::Exit(0) { if let Some(d) = diff(&a, &o) { j.bad("output error reported as success", format!("{what}: {d}")); } else if a.end != End::Exit(0) { j.bad("failure reported as success", what.clone()); } }
    else {
        // whatever got out is the beginning of the complete output
        let (x, y) = (a.stream("stdout").unwrap_or(b"").to_vec(), o.stream("stdout").unwrap_or(b"").to_vec());
        if !is_prefix(&y, &x) { j.bad("partial output is not the beginning of the complete output", format!("{what}: {}", first_diff(&String::from_utf8_lossy(&x), &String::from_utf8_lossy(&y)))); }
        let full = outputs(&a); for (n, d) in outputs(&o) { match full.iter().find(|f| f.0 == n) { Some(f) if is_prefix(&d, &f.1) => {} _ => j.bad("partial output is not the beginning of the complete output", format!("{what}: file {n}")) } }
        // nothing was accepted that would not have been accepted
        if accepted(&o) && !accepted(&a) { j.bad("failure reported as success", what.clone()); }
    }
    j.sample = io_sample(sc, &o); Ok(j)
}

// ---------------------------------------------------------------- C13: reproducible
pub fn gen_c13(r: &mut Rng, case: u64, tier: Tier, _w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let mut k = work(r, tier, c, SEQ, true); let mut v = vec![];
    if r.chance(1, 12) { let csv = r.chance(1, 2); k = crate::props_bench::bench_work(r, tier, c, csv).0; if let Some(i) = k.w.argv.iter().position(|a| a == "-j") { k.w.argv[i + 1] = "1".into(); } }
    for _ in 0..6 { let mut w = k.w.clone(); draw_environment(r, &mut w); w.p(NCPU, r.range(1, 64) as u64); if r.chance(1, 4) { w.p(HASH_FAIL, r.range(2, 6) as u64); } v.push(mk("C13", "environment", case, &k, w)); }
    Ok(v)
}
pub fn judge_c13(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let a = w.run_ref("cli", &canonical(&sc.w))?; let b = w.run("cli", &sc.w)?;
    if b.cnt("random_reads") > 0 { j.nontrivial.push(input_key(sc) ^ fnv(format!("{:?}", sc.w.params).as_bytes())); }
    if sc.m("cmd") == "bench" { if let Some(d) = crate::props_bench::bench_diff(&a, &b).or_else(|| crate::props_bench::bench_text_diff(&a, &b)) { j.bad("result depends on hash seed, memory layout or clock", format!("bench: {d}")); } }
    else if let Some(d) = diff(&a, &b) { j.bad("result depends on hash seed, memory layout or clock", format!("{}: {d}", sc.m("cmd"))); }
    else if a.stderr() != b.stderr() && crash_of(&a).is_none() { j.bad("diagnostics depend on hash seed, memory layout or clock", format!("{}: {}", sc.m("cmd"), first_diff(&a.stderr(), &b.stderr()))); }
    j.sample = io_sample(sc, &b); Ok(j)
}

// ---------------------------------------------------------------- C15: exhausted resources never yield a wrong verdict
pub fn gen_c15(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let k = match r.below(14) {
        0 | 1 => { let csv = r.chance(1, 2); crate::props_bench::bench_work(r, tier, c, csv).0 }
        2 => work(r, tier, c, &["solver"], false),
        _ => work(r, tier, c, &["check", "par", "par", "par", "elaborate", "slice", "parse"], true) };
    let mut v = vec![];
    let mut base = k.w.clone(); if matches!(k.cmd, "par" | "bench" | "solver") { let a = w.run_ref("cli", &canonical(&k.w))?; draw_schedule(r, &mut base, a.events); }
    let mut probe = base.clone(); probe.faults.clear(); let o = w.run("cli", &probe)?; let n = o.cnt("allocs"); let th = o.cnt("threads");
    for _ in 0..6 {
        let mut w = base.clone();
        if th > 0 && r.chance(if k.cmd == "par" { 1 } else { 2 }, 3) { w.p(THREAD_FAIL_AT, 1 + r.next() % th); }
        else { w.p(ALLOC_FAIL_AT, match r.below(4) { 0 => n.saturating_sub(r.next() % 200 % n.max(1)).max(1), _ => 1 + r.next() % n.max(1) }); if r.chance(1, 4) { w.p(ALLOC_FAIL_MIN, [64, 256, 1024][r.below(3)]); w.p(ALLOC_FAIL_AT, 1 + r.next() % (n / 20).max(1)); } }
        v.push(mk("C15", "exhaustion", case, &k, w));
    }
    Ok(v)
}
pub fn judge_c15(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let a = w.run_ref("cli", &canonical(&sc.w))?; let o = w.run("cli", &sc.w)?; if crash_of(&a).is_some() { return Ok(j); }
    let fired = o.cnt("alloc_fail") + o.cnt("thread_fail"); if fired == 0 { return Ok(j); }
    j.nontrivial.push(input_key(sc) ^ fnv(format!("{:?}", sc.w.params).as_bytes())); w.stats.hit(if o.cnt("thread_fail") > 0 { "thread creation failed" } else { "allocation failed" });
    let what = format!("{} with {}: {:?} {:?} (otherwise {:?} {:?})", sc.m("cmd"), if o.cnt("thread_fail") > 0 { "a thread that could not be created" } else { "a failed allocation" }, o.end, o.stdout().lines().last().unwrap_or(""), a.end, a.stdout().lines().next().unwrap_or(""));
    if matches!(o.end, End::Deadlock | End::EventLimit | End::Signal(24) | End::Signal(9)) { j.bad("hang", format!("{what}: {}", o.msg)); return Ok(j); }
    if o.end == End::Exit(0) { if a.end != End::Exit(0) { j.bad("failure reported as success", what.clone()); } else if sc.m("cmd") == "solver" { // a solver that cannot be fed or read has failed: its step stays
        let v = crate::props_solver::recheck(&sc.w, &o.stdout(), w)?; if v.v != "valid" && v.v != "holey" { j.bad("a failed allocation or thread spoils the elaborated proof", format!("{what}: {} {}", v.v, v.detail)); } }
      else if let Some(d) = if sc.m("cmd") == "bench" { crate::props_bench::bench_diff(&a, &o).or_else(|| crate::props_bench::bench_text_diff(&a, &o)) } else { diff(&a, &o) } { j.bad("a failed allocation or thread changes the result", format!("{what}: {d}")); } }
    else if accepted(&o) && !accepted(&a) { j.bad("failure reported as success", what.clone()); }
    else if o.cnt("alloc_fail") > 0 && a.end == End::Exit(0) && !words(&a).iter().any(|l| l == "invalid") && o.stdout().lines().any(|l| l == "invalid") { j.bad("proof rejected because memory ran out", what.clone()); }
    j.sample = io_sample(sc, &o); Ok(j)
}

// ---------------------------------------------------------------- C17: a killed run leaves nothing that spoils the next one
pub fn gen_c17(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let mut k = work(r, tier, c, &["slice", "slice", "glia"], false); let mut v = vec![];
    if r.chance(1, 3) { k = crate::props_bench::bench_work(r, tier, c, true).0; }
    if k.cmd == "slice" && r.chance(1, 3) { if let Some(i) = k.w.argv.iter().position(|a| a == "s1.out") { k.w.argv[i] = "d/s1.out".into(); k.w.file("d/other", b"x"); } }
    let a = w.run_ref("cli", &killless(&k.w))?; if a.end != End::Exit(0) { return Ok(vec![]); } let n = a.cnt("opens") + a.cnt("creates") + a.cnt("reads") + a.cnt("writes") + 4;
    for _ in 0..4 {
        let mut w = k.w.clone(); w.p(IO_SEED, r.next()).p(KILL_AT, if r.chance(1, 4) { 1 + r.next() % n } else { n.saturating_sub(r.next() % (a.cnt("writes") + a.cnt("creates") + 3)).max(1) });
        if r.chance(1, 2) { w.p(WRITE_CHUNK, chunk(r).max(5)); w.p(KILL_AT, 1 + r.next() % (n + 40)); }
        let mut s = mk("C17", "rerun", case, &k, w); s.set("stale", if r.chance(1, 4) { "1" } else { "" }); v.push(s);
    }
    Ok(v)
}
fn killless(w: &World) -> World { let mut c = w.clone(); for k in [KILL_AT, WRITE_CHUNK, IO_SEED] { c.params.remove(&k); } c }
pub fn judge_c17(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let clean = killless(&sc.w); let a = w.run_ref("cli", &clean)?; if a.end != End::Exit(0) { return Ok(j); }
    let o = w.run("cli", &sc.w)?;
    let left = outputs(&o); if o.end == End::Killed && !left.is_empty() { j.nontrivial.push(input_key(sc) ^ fnv(format!("{:?}", left).as_bytes())); w.stats.hit("killed with output files on disk"); }
    let mut again = clean.clone();
    let mut put = |n: &str, c: Vec<u8>| { if let Some(f) = again.files.iter_mut().find(|f| f.0 == n) { f.1 = c; } else { again.files.push((n.to_string(), c)); } };
    for (n, d) in &left { put(n, d.clone()); }
    if sc.m("stale") == "1" { for (n, d) in outputs(&a) { let mut x = d.clone(); x.extend(b"(step stale (cl) :rule hole)\n".repeat(3)); put(&n, x); } }
    let b = w.run("cli", &again)?;
    let what = format!("{} rerun after {:?} leaving {}{}", sc.m("cmd"), o.end, left.iter().map(|f| format!("{} ({} bytes)", f.0, f.1.len())).collect::<Vec<_>>().join(", "), if sc.m("stale") == "1" { " and stale files" } else { "" });
    if let Some(v) = crash_of(&b) { j.bad(v.v, format!("{what}: {}", v.detail)); return Ok(j); }
    let same = if sc.m("cmd") == "bench" { crate::props_bench::bench_diff(&a, &b) } else { diff(&a, &b) };
    if let Some(d) = same { j.bad("leftovers of a killed run change the next one", format!("{what}: {d}")); }
    j.sample = io_sample(sc, &o); Ok(j)
}

// ---------------------------------------------------------------- C18: a proof cut short while being written is never accepted
pub fn gen_c18(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    let k = work(r, tier, c, &["elaborate", "elaborate", "elaborate", "parse", "parse", "slice", "slice", "solver"], false); let mut v = vec![];
    let a = w.run_ref("cli", &canonical(&k.w))?; if a.end != End::Exit(0) { return Ok(v); } let slice = k.cmd == "slice";
    let so = if slice { outputs(&a).iter().map(|f| f.1.len()).max().unwrap_or(1) } else { a.stream("stdout").map_or(1, |s| s.len()) }; let n = a.cnt("writes") + a.cnt("reads") + a.cnt("opens") + 2;
    for _ in 0..6 {
        let mut w = k.w.clone(); w.p(IO_SEED, r.next()); if r.chance(2, 3) { w.p(WRITE_CHUNK, chunk(r).max(3)); }
        if slice { let m = if w.params.contains_key(&WRITE_CHUNK) { n * 3 } else { n }; w.p(KILL_AT, if r.chance(1, 2) { n.saturating_sub(r.next() % (a.cnt("writes") + 2)).max(1) } else { 1 + r.next() % m.max(1) }); }
        else if r.chance(1, 2) { w.fault(F_WRITE_ERR, 1, r.below(so.max(1)) as u64, *r.pick(&[28u64, 5, 32])); } else { let m = if w.params.contains_key(&WRITE_CHUNK) { n * 3 } else { n }; w.p(KILL_AT, 1 + r.next() % m.max(1)); }
        v.push(mk("C18", "cut", case, &k, w));
    }
    Ok(v)
}
/// The proof a command has printed or written, and for `slice` the problem that goes with it.
fn printed(o: &Outcome, cmd: &str, w: &World) -> (String, Option<Vec<u8>>) {
    if cmd != "slice" { return (printed_stdout(o, cmd), None); }
    let out = outputs(o); let opt = |k: usize| w.argv.iter().position(|a| a == "--sliced-output").and_then(|i| w.argv.get(i + k).cloned());
    let get = |n: Option<String>, ext: &str| out.iter().find(|f| match &n { Some(n) => f.0 == *n, None => f.0.ends_with(ext) }).map(|f| f.1.clone());
    (get(opt(1), ".alethe").map_or(String::new(), |x| String::from_utf8_lossy(&x).into_owned()), get(opt(2), ".smt2"))
}
fn printed_stdout(o: &Outcome, cmd: &str) -> String { let s = o.stdout(); if cmd == "elaborate" || cmd == "solver" { s.split_once('\n').map_or(String::new(), |x| x.1.to_string()) } else { s } }
pub fn judge_c18(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() };
    let a = w.run_ref("cli", &canonical(&sc.w))?; if a.end != End::Exit(0) { return Ok(j); }
    let o = w.run("cli", &sc.w)?; let ((full, prob), (part, _)) = (printed(&a, sc.m("cmd"), &sc.w), printed(&o, sc.m("cmd"), &sc.w));
    if sc.m("cmd") == "slice" && prob.is_none() { return Ok(j); }
    if part.trim_end() == full.trim_end() || !concludes_last(&full) { return Ok(j); }
    let mut rc = World::default(); rc.argv = crate::props::cli(&["check"]); rc.p(MODE, 0).p(CPU_SECONDS, 20);
    for f in ["--allow-int-real-subtyping", "--expand-let-bindings", "-i", "--apply-function-defs", "--parse-hole-args"] { if sc.w.argv.iter().any(|a| a == f) { rc.argv.push(f.into()); } }
    if sc.w.argv.iter().any(|a| a == "--rare-file") { rc.argv.extend(["--rare-file", "r.rare"].map(String::from)); rc.file("r.rare", RARE.as_bytes()); }
    let aw = sc.w.argv.iter().position(|a| a == "--allowed-rules"); if aw.is_some() { rc.argv.extend(["--allowed-rules", "mystery"].map(String::from)); }
    rc.argv.extend(["--", "p.alethe", "p.smt2"].map(String::from));
    rc.file("p.alethe", part.as_bytes()); if let Some(p) = prob { rc.file("p.smt2", &p); } else if let Some(i) = file_idx(&sc.w, "p.smt2") { rc.files.push(sc.w.files[i].clone()); }
    let c = w.run("cli", &rc)?; j.nontrivial.push(fnv(part.as_bytes())); w.stats.hit(if o.end == End::Killed { "killed while printing" } else { "write error while printing" });
    let what = format!("{} ended with {:?} after {} of {} bytes of proof", sc.m("cmd"), o.end, part.len(), full.len());
    if o.end == End::Exit(0) { j.bad("output error reported as success", what.clone()); }
    if accepted(&c) || c.end == End::Exit(0) { j.bad("cut-off proof accepted", format!("{what}; the checker says {:?}", c.stdout())); }
    if let Some(v) = crash_of(&c) { j.bad(v.v, format!("{what}: {}", v.detail)); }
    j.sample = io_sample(sc, &o); Ok(j)
}

// ---------------------------------------------------------------- C19: only the files that were asked for are written
pub fn gen_c19(r: &mut Rng, case: u64, tier: Tier, w: &mut Worker, c: &Corpus) -> Result<Vec<Scen>, String> {
    use crate::{props, props_bench, props_solver};
    let g: &[(usize, props::GenFn)] = &[(6, gen_c08), (6, gen_c10), (3, gen_c09), (3, gen_c07), (4, gen_c15), (6, gen_c17), (2, gen_c18), (3, props_bench::gen_c05), (2, props_bench::gen_c14), (4, props_solver::gen_c11), (1, props_solver::gen_c12), (1, props::gen_c01)];
    let mut k = r.below(g.iter().map(|x| x.0).sum()); let mut i = 0; while k >= g[i].0 { k -= g[i].0; i += 1; }
    let mut v = (g[i].1)(r, case, tier, w, c)?; v.retain(|s| s.bin == "cli"); v.truncate(6);
    for s in &mut v { s.prop = "C19".into(); s.set("like", s.kind.clone()); s.kind = "files".into();
        if r.chance(1, 2) { for o in ["--lia-solver", "--hole-solver"] { if let Some(i) = s.w.argv.iter().position(|x| x == o) { if r.chance(1, 2) { s.w.argv[i + 1] = format!("{}{o}", s.w.argv[i + 1]); } }
            if let Some(i) = s.w.argv.iter().position(|x| *x == format!("{o}-args")) { let x = *r.pick(&["", " --opt x --opt x", "  -i  -i", " --lang=smt2 - \t lia", " a=$HOME", " 'q w'", " ;x", " \"\" *"]); s.w.argv[i + 1].push_str(x); } } }
        if r.chance(1, 4) { if let Some(k) = s.w.argv.iter().rposition(|a| a == "p.alethe") { s.w.argv[k] = "d/p.alethe".into(); for f in &mut s.w.files { if f.0 == "p.alethe" { f.0 = "d/p.alethe".into(); } } if s.m("shrink").is_empty() { s.meta.remove("shrink"); } else { let t = s.m("shrink").replace("p.alethe", "d/p.alethe"); s.set("shrink", t); } } }
        if r.chance(1, 4) { s.w.file("other.alethe", b"(assume a0 p)\n").file("p.alethe.bak", b"x"); } if r.chance(1, 6) { s.w.file("runs.csv.old", b"y"); } }
    Ok(v)
}
/// The files a command is documented to write; a name ending in `*` stands for all names that begin with it.
pub fn documented(argv: &[String]) -> Vec<String> {
    let cut = argv.iter().position(|a| a == "--").unwrap_or(argv.len()); let opts = &argv[..cut]; let proof = argv.get(cut + 1).cloned().unwrap_or_default();
    let cmd = opts.iter().find(|a| ["parse", "check", "elaborate", "bench", "slice", "generate-lia-problems"].contains(&a.as_str())).map_or("", |a| a.as_str());
    match cmd {
        "bench" if opts.iter().any(|a| a == "--dump-to-csv") => vec!["runs.csv".into(), "steps.csv".into()],
        "slice" => match opts.iter().position(|a| a == "--sliced-output") {
            Some(i) => opts[i + 1..].iter().take(2).cloned().collect(),
            None => { let from = opts.iter().position(|a| a == "--from").and_then(|i| opts.get(i + 1)).cloned().unwrap_or_default(); let base = proof.rsplit('/').next().unwrap_or(""); let stem = base.rsplit_once('.').map_or(base, |x| if x.0.is_empty() { base } else { x.0 }); vec![format!("{stem}-{from}.smt2"), format!("{stem}-{from}.alethe")] } },
        "generate-lia-problems" => vec![format!("{proof}-*")],
        _ => vec![],
    }
}
pub fn judge_c19(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged { evals: 1, ..Default::default() }; let o = w.run("cli", &sc.w)?; let may = documented(&sc.w.argv);
    let cmd = sc.w.argv.iter().skip(1).find(|a| !a.starts_with('-')).cloned().unwrap_or_default();
    let out = outputs(&o); let what = format!("{cmd}{} ended with {:?}", if sc.w.faults.is_empty() { String::new() } else { format!(" with {}", sc.w.faults.iter().map(|f| FAULT_NAMES[f[0] as usize]).collect::<Vec<_>>().join(" ")) }, o.end);
    if !may.is_empty() || !sc.w.solvers.is_empty() || !sc.w.faults.is_empty() || o.end == End::Killed { j.nontrivial.push(input_key(sc) ^ fnv(format!("{:?}{:?}", sc.w.faults, sc.w.params).as_bytes())); }
    w.stats.hit(&format!("{cmd}, {}", if o.end == End::Exit(0) { "successful" } else { "unsuccessful" })); if !out.is_empty() { w.stats.hit("files written"); }
    for (n, _) in &out {
        let known = may.iter().any(|m| match m.strip_suffix('*') { Some(p) => n.starts_with(p) && n.ends_with(".lia_smt2"), None => m.trim_start_matches("./") == n });
        let input = sc.w.files.iter().any(|f| f.0 == *n) && !known;
        if input { j.bad("a file that was only to be read is changed", format!("{what}, and {n} is not what it was")); } else if !known { j.bad("a file is written that nothing asked for", format!("{what}, and wrote {n}")); }
    }
    for (n, _) in &o.streams { if let Some(n) = n.strip_prefix("deleted:") { if sc.w.files.iter().any(|f| f.0 == n) { j.bad("a file is removed", format!("{what}, and removed {n}")); } } }
    // on success the documented files are there
    if o.end == End::Exit(0) { for m in may.iter().filter(|m| !m.ends_with('*')) { if !out.iter().any(|f| f.0 == m.trim_start_matches("./")) { j.bad("a file that was asked for is missing", format!("{what}, but did not write {m}")); } } }
    // the only programs started are the configured solvers, with the configured arguments
    let opt = |k: &str| sc.w.argv.iter().position(|a| a == k).and_then(|i| sc.w.argv.get(i + 1).cloned());
    let conf: Vec<Vec<String>> = [("--lia-solver", "--lia-solver-args"), ("--hole-solver", "--hole-solver-args")].iter().filter(|(s, _)| { let has = |r: &str| sc.w.files.iter().map(|f| &f.1).chain([&sc.w.stdin]).any(|c| String::from_utf8_lossy(c).contains(r)); if *s == "--lia-solver" { has("lia_generic") } else { has("all_simplify") || has("rare_rewrite") } }).filter_map(|(s, a)| opt(s).map(|p| { let mut v = vec![p]; if let Some(a) = opt(a) { v.extend(a.split_whitespace().map(String::from)); } else { v.push("*".into()); } v })).collect();
    for (n, d) in &o.streams { if n.starts_with("child-argv:") {
        let got: Vec<String> = d.split(|b| *b == 0).filter(|x| !x.is_empty()).map(|x| String::from_utf8_lossy(x).into_owned()).collect();
        if !conf.iter().any(|c| if c.last().map_or(false, |x| x == "*") { got.first() == c.first() } else { *c == got }) { j.bad("a program is started that nothing asked for", format!("{what}, and started {got:?}")); } w.stats.hit("solver processes started");
    } }
    j.sample = io_sample(sc, &o); Ok(j)
}
