//! Workloads across all commands of the program, for the input, output and environment properties.
use crate::corpus::{self, Corpus};
use crate::engine::Tier;
use crate::props::{base, cli, Base};
use crate::rng::Rng;
use crate::sim::*;

pub const RARE: &str = "; rewrites\n(declare-rare-rule eq-symm ((x Bool) (y Bool)) :args (x y) :premises () :conclusion (= (= x y) (= y x)))\n(declare-rare-rule double-neg-elim ((x Bool)) :args (x) :premises () :conclusion (= (not (not x)) x))\n(declare-rare-rule or-true-simp ((x Bool)) :args (x) :premises () :conclusion (= (or x true) true))\n(declare-rare-rule implies-expand ((x Bool) (y Bool)) :args (x y) :premises () :conclusion (= (=> x y) (or (not x) y)))\n";

#[derive(Clone)]
pub struct Work { pub w: World, pub cmd: &'static str, pub ends_last: bool, pub base_src: &'static str }

/// A proof with arithmetic holes (lia_generic and hole steps), concluded by its last command.
pub struct Arith { pub problem: String, pub proof: String, pub queries: Vec<Query> }
/// One step a solver is asked about: its literals, and how to refute their negations.
#[derive(Clone, Debug)]
pub struct Query { pub rule: &'static str, pub lits: Vec<String>, pub kind: usize, pub var: usize, pub k: i64, pub depth: usize }
impl Query {
    /// What identifies the query in the text sent to the solver. The printer writes one assertion per negated literal.
    pub fn key(&self) -> String { format!("{} (+ i{} 3) {})", if self.kind == 2 { "=" } else { "<=" }, self.var, self.k) }
}
pub fn arith(r: &mut Rng, max: usize) -> Arith { arith_full(r, max, false) }
pub fn arith_full(r: &mut Rng, max: usize, nested: bool) -> Arith {
    let n = r.range(1, max.max(1)); let mut pb = String::new(); if r.chance(1, 2) { pb.push_str(if r.chance(1, 2) { "(set-logic QF_LIA)\n" } else { "(set-logic ALL)\n" }); }
    for i in 0..n { pb.push_str(&format!("(declare-fun i{i} () Int)\n(declare-fun q{i} () Bool)\n")); }
    let mut pf = String::new(); let mut queries = vec![]; let mut tail = String::new();
    for i in 0..n {
        let k = r.below(50) as i64 + 4;
        let (a, b) = (format!("(<= (+ i{i} 3) {k})"), format!("(>= (+ i{i} 3) {})", k + 1));
        let kind = r.below(3); let rule = if r.chance(1, 2) { "lia_generic" } else { "hole" };
        let (l1, l2) = match kind { 0 => (format!("(not {a})"), format!("(not {b})")), 1 => (a.clone(), b.clone()), _ => { let c = format!("(= (+ i{i} 3) {k})"); (format!("(not {c})"), format!("(not {b})")) } };
        let a = if kind == 2 { format!("(= (+ i{i} 3) {k})") } else { a };
        if kind == 1 { pb.push_str(&format!("(assert (not {a}))\n(assert (not {b}))\n")); pf.push_str(&format!("(assume a{i} (not {a}))\n(assume b{i} (not {b}))\n")); }
        else { pb.push_str(&format!("(assert {a})\n(assert {b})\n")); pf.push_str(&format!("(assume a{i} {a})\n(assume b{i} {b})\n")); }
        let mut lits = if r.chance(1, 3) { vec![l2, l1] } else { vec![l1, l2] };
        let (mut q_not, mut q_pos) = (false, false);
        if r.chance(1, 4) { lits.insert(r.below(3).min(lits.len()), format!("q{i}")); q_pos = true; pb.push_str(&format!("(assert (not q{i}))\n")); pf.push_str(&format!("(assume q{i} (not q{i}))\n")); }
        if !q_pos && r.chance(1, 6) { lits.push(format!("(not q{i})")); q_not = true; pb.push_str(&format!("(assert q{i})\n")); pf.push_str(&format!("(assume q{i} q{i})\n")); }
        if r.chance(1, 8) { let d = lits[r.below(2)].clone(); lits.push(d); }
        let extra = if q_not || q_pos { format!(" q{i}") } else { String::new() };
        let args = if rule == "hole" && r.chance(1, 2) { " :args (\"TRUST_THEORY\")" } else { "" };
        let inside = nested && r.chance(1, 3);
        queries.push(Query { rule, lits: lits.clone(), kind, var: i, k, depth: inside as usize });
        if inside { // inside a subproof, discharging an unrelated assumption
            pf.push_str(&format!("(anchor :step s{i})\n(assume s{i}.h0 (<= i{i} {}))\n(step s{i}.t1 (cl {}) :rule {rule}{args})\n(step s{i}.t2 (cl) :rule resolution :premises (s{i}.t1 a{i} b{i}{extra}))\n(step s{i} (cl (not (<= i{i} {})) false) :rule subproof :discharge (s{i}.h0))\n", k + 7, lits.join(" "), k + 7));
            // the outer refutation still uses a step of its own
            pf.push_str(&format!("(step g{i} (cl {}) :rule {rule}{args})\n", lits.join(" ")));
        } else { pf.push_str(&format!("(step g{i} (cl {}) :rule {rule}{args})\n", lits.join(" "))); }
        tail = format!("(step e (cl) :rule resolution :premises (g{i} a{i} b{i}{extra}))\n");
        if r.chance(1, 3) { pf.push_str(&format!("(step f{i} (cl (= q{i} q{i})) :rule eq_reflexive)\n")); }
    }
    // the final refutation must depend on every query, or elaboration drops the others
    if n > 1 && r.chance(4, 5) {
        let mut acc = String::new();
        for i in 0..n - 1 { let ps: Vec<String> = { let mut v = vec![format!("g{i}"), format!("a{i}"), format!("b{i}")]; if queries[i].lits.iter().any(|l| l.contains(&format!("q{i}"))) { v.push(format!("q{i}")); } v };
            acc.push_str(&format!("(step r{i} (cl) :rule resolution :premises ({}))\n(step w{i} (cl (not q{n0}) (not (not q{n0}))) :rule weakening :premises (r{i}))\n", ps.join(" "), n0 = n - 1)); }
        let i = n - 1; let lits = &queries[i].lits;
        acc.push_str(&format!("(step x0 (cl (not q{i}) q{i}) :rule hole)\n"));
        let mut prev = "x0".to_string();
        for j in 0..n - 1 { acc.push_str(&format!("(step x{} (cl (not q{i}) (not q{i}) q{i} (not (not q{i}))) :rule hole :premises ({prev} w{j}))\n", j + 1)); prev = format!("x{}", j + 1); }
        let mut ps = vec![format!("g{i}"), format!("a{i}"), format!("b{i}")]; if lits.iter().any(|l| l.contains(&format!("q{i}"))) { ps.push(format!("q{i}")); }
        acc.push_str(&format!("(step y (cl) :rule resolution :premises ({}))\n(step e (cl) :rule hole :premises (y {prev}))\n", ps.join(" ")));
        pf.push_str(&acc);
    } else { pf.push_str(&tail); }
    pb.push_str("(check-sat)\n");
    Arith { problem: pb, proof: pf, queries }
}
pub fn rare(r: &mut Rng, bad: bool) -> (String, String) {
    let n = r.range(1, 8); let mut pb = String::new(); let mut pf = String::new(); let at = r.below(n);
    for i in 0..3 { pb.push_str(&format!("(declare-fun p{i} () Bool)\n")); }
    pb.push_str(corpus::TAIL_PROBLEM);
    for i in 0..n {
        let (x, y) = (format!("p{}", r.below(3)), format!("(not p{})", r.below(3))); let b = bad && i == at;
        let (name, args, concl) = match r.below(4) { 0 => ("eq-symm", format!("{x} {y}"), format!("(= (= {x} {y}) (= {y} {}))", if b { &y } else { &x })), 1 => ("double-neg-elim", y.clone(), format!("(= (not (not {y})) {})", if b { &x } else { &y })), 2 => ("or-true-simp", x.clone(), format!("(= (or {x} true) {})", if b { "false" } else { "true" })), _ => ("implies-expand", format!("{x} {y}"), format!("(= (=> {x} {y}) (or {} {y}))", if b { x.clone() } else { format!("(not {x})") })) };
        pf.push_str(&format!("(step r{i} (cl {concl}) :rule rare_rewrite :args (\"{name}\" {args}))\n"));
    }
    pf.push_str(corpus::TAIL_PROOF); (pb, pf)
}
/// Deeply nested terms: fine on the main thread, so they must be fine on a worker's stack as well.
pub fn deep(r: &mut Rng, bad: bool, d: usize) -> (String, String) {
    let d = r.range(d, d + d / 4); let n = r.range(1, 5); let at = r.below(n);
    let t = |x: &str| format!("(p {}{x}{})", "(f ".repeat(d), ")".repeat(d)); let nn = |x: &str| format!("{}{x}{}", "(not ".repeat(d), ")".repeat(d));
    let pb = format!("(set-logic UF)\n(declare-sort U 0)\n(declare-fun f (U) U)\n(declare-const a U)\n(declare-const b U)\n(declare-fun p (U) Bool)\n(assert {})\n(assert (not {}))\n", nn("(= a b)"), nn("(= a b)"));
    let eq = if r.chance(1, 2) { "(= a b)" } else { "(= b a)" }; let mut pf = format!("(assume h1 {})\n(assume h2 (not {}))\n", nn(eq), nn(eq));
    for i in 0..n { let (x, y) = (t("x"), t("y")); let z = if bad && i == at { t("a") } else { y.clone() };
        pf.push_str(&format!("(anchor :step t{i} :args ((y U) (:= (x U) y)))\n(step t{i}.t1 (cl (= {x} {z})) :rule refl)\n(step t{i} (cl (= (forall ((x U)) {x}) (forall ((y U)) {y}))) :rule bind)\n")); }
    pf.push_str(&format!("(step c (cl) :rule resolution :premises (h1 h2) :args ({} true))\n", nn(eq))); (pb, pf)
}
pub fn step_ids(proof: &str) -> Vec<String> { corpus::read(proof).unwrap_or_default().iter().filter(|c| matches!(c.head(), "step" | "assume")).filter_map(|c| c.list().get(1).map(|x| x.atom().to_string())).collect() }
fn inner_ids(proof: &str) -> Vec<String> { step_ids(proof) }
/// Commands and terms in every corner of the concrete syntax, added in front of a problem and its proof.
pub fn exotic(r: &mut Rng, problem: &mut String, proof: &mut String) {
    let lits = ["17", "(- 5)", "1/3", "2.50", "-1/3", "1.0", "(- 2.5)", "-7", "100000000000000000000000", "#b0101", "#x0F", "#xaB", "(_ bv5 8)", "((_ extract 3 1) #xFF)", "((_ zero_extend 2) #b1)", "((_ sign_extend 2) #b10)", "(concat #b01 #x7)",
        "\"a\"\"b\"", "\"\\u{41}\"", "\"\\u0041\"", "\"\\u{2FFFF}\"", "\"\\u\"", "\"\\u{12\"", "\"é\"", "(str.++ \"x\" \"y\")", "(str.len \"\\u{7}\")", "(str.in_re \"a\" (re.* (str.to_re \"a\")))", "((_ re.loop 1 3) re.allchar)", "((_ re.^ 2) re.all)", "|ex c|", "(|ex f| |ex c|)", "(exg 1)",
        "(let ((?v (|ex f| |ex c|)) ($w 2)) (|ex f| ?v))", "(forall ((x Int) (|y z| ExS)) (= x (exg x)))", "(choice ((x Int)) (> x 3))", "(lambda ((x Int)) (+ x 1))", "(! (exg 2) :named exn)", "(forall ((x Int)) (! (> x 0) :pattern ((exg x)) :qid |a b|))", "(ite true 1 2)", "(select (store exa 1 2) 1)", "((_ int2bv 4) 3)", "((_ bit_of 0) #b1)", "(distinct 1 2 3)", "(cl)", "(@pbbterm true false)"];
    if problem.contains("exg") { return; }
    problem.insert_str(0, "; a comment \"with\" |quotes| (\n(set-info :source |several\nlines|)(set-info :smt-lib-version 2.6)\n(set-option :produce-proofs true)\n(declare-sort ExS 0)(declare-const |ex c| ExS)\n(declare-fun |ex f| (ExS) ExS)\n(define-fun exg ((x Int)) Int (+ x 1))(declare-fun exa () (Array Int Int))\n(define-sort ExT () Int)\n");
    let n = r.range(1, 5); let mut s = String::new();
    for i in 0..n { let t = *r.pick(&lits); if t == "(! (exg 2) :named exn)" && s.contains("exn") { continue; } let sep = *r.pick(&[" ", "  ", "\n  ", "\t", " ; comment )\n"]); s.push_str(&format!("(step ex{i}{sep}(cl (= {t} {t})){sep}:rule refl)\n")); if r.chance(1, 3) { problem.insert_str(problem.rfind("(check-sat)").unwrap_or(problem.len()), &format!("(assert (= {t} {t}))\n")); } }
    if r.chance(1, 3) { s.insert_str(0, "(define-fun exd () Int (+ 2 (- 7)))\n(step exd1 (cl (= (exg exd) (exg exd))) :rule refl)\n"); }
    proof.insert_str(0, &s);
}
/// Makes an input so large that it takes several buffers, with long lines, long tokens, and characters of several bytes across their ends.
pub fn bulk(r: &mut Rng, problem: &mut String, proof: &mut String) {
    let total = *r.pick(&[4096usize, 8192, 8192, 16384, 32768, 65536, 65536, 131072, 200_000]); let total = total + r.below(40) - 20; let in_proof = r.chance(2, 3);
    let t = if in_proof { &mut *proof } else { &mut *problem }; let mut s = String::new(); let mut k = 0;
    while t.len() + s.len() < total {
        k += 1; let room = total - t.len() - s.len(); let n = match r.below(3) { 0 => room, 1 => room.min(1 + r.below(300)), _ => room.min(1 + r.below(9000)) };
        let word = |r: &mut Rng, n: usize| -> String { let mut w = String::new(); while w.len() < n { w.push(*r.pick(&['a', 'b', 'é', '\u{20ac}', '\u{1d11e}', '~', '9'])); } w };
        match r.below(if in_proof { 4 } else { 5 }) {
            0 => { s.push_str("; "); s.push_str(&word(r, n)); s.push('\n'); }
            1 => { for _ in 0..n { s.push(*r.pick(&[' ', ' ', '\n', '\t'])); } }
            2 if in_proof => { let w = word(r, n / 2); s.push_str(&format!("(step bulk{k} (cl (= \"{w}\" \"{w}\")) :rule refl)\n")); }
            3 if in_proof => { let mut a = String::from("(and"); while a.len() < n / 2 { a.push_str(*r.pick(&[" true", " false", " (not true)", "\ntrue"])); } a.push_str(" true true)"); s.push_str(&format!("(step bulk{k} (cl (= {a} {a})) :rule refl)\n")); }
            2 => s.push_str(&format!("(set-info :notes \"{}\")\n", word(r, n))),
            3 => s.push_str(&format!("(declare-const |bulk {k} {}| Bool)\n", word(r, n))),
            _ => s.push_str(&format!("(set-info :source |{}\n|)\n", word(r, n))),
        }
    }
    if s.is_empty() { return; } if in_proof && (t.starts_with("unsat") || t.starts_with("(\n")) { let at = t.find('\n').unwrap() + 1; t.insert_str(at, &s); return; } let at = if r.chance(1, 3) && in_proof && !t.starts_with("unsat") { t.rfind("\n(").map_or(0, |x| x + 1) } else { 0 }; if at > 0 && in_proof && t[at..].starts_with("(step") && t[..at].contains("(anchor") { t.insert_str(0, &s); } else { t.insert_str(at, &s); }
}
/// Options that change what a command accepts or says, in the same way wherever they are given.
fn more_options(r: &mut Rng, cmd: &str, w: &mut World) {
    for (o, cmds, k) in [("--log info", "", 8), ("--log error", "", 20), ("--log warn", "", 30), ("--log off", "", 40), ("--no-color", "", 10), ("-s", "", 25), ("--parse-hole-args", "", 15), ("--expand-let-bindings", "", 12), ("--apply-function-defs", "", 12), ("--allow-int-real-subtyping", "", 15), ("-i", "check par stats elaborate", 15), ("--check-granularity elaborated", "check par stats elaborate", 12), ("--stack-size 4000000", "check par", 15), ("--stack-size 0", "check par", 25)] {
        if (cmds.is_empty() || cmds.split(' ').any(|c| c == cmd)) && r.chance(1, k) { let t: Vec<&str> = o.split(' ').collect(); if w.argv.iter().any(|a| a == t[0]) || (t[0] == "--log" && w.argv.contains(&"--log".to_string())) { continue; } for x in t.iter().rev() { after_cmd(w, x); } }
    }
}
/// Draws an invocation of one of `cmds` (check, par, stats, parse, elaborate, slice, glia).
pub fn work(r: &mut Rng, tier: Tier, c: &Corpus, cmds: &[&'static str], allow_bad: bool) -> Work {
    let cmd = *r.pick(cmds); let mut ends_last = false; let src;
    if cmd == "solver" { let mut w = crate::props_solver::obedient(r); if !w.argv.iter().any(|a| a == "--rare-file") { w.files.retain(|f| f.0 != "r.rare"); } return Work { w, cmd, ends_last: true, base_src: "solver queries" }; }
    let (mut problem, mut proof, mut flags, mut rarefile) = (String::new(), String::new(), vec![], None);
    let pick = r.below(10);
    if cmd == "glia" || (pick == 0 && cmd != "slice") || (cmd == "elaborate" && pick < 4) {
        let a = arith_full(r, 5, true); problem = a.problem; proof = a.proof; ends_last = true; src = "arithmetic";
    } else if pick == 1 && matches!(cmd, "check" | "par" | "parse" | "stats") {
        let bad = allow_bad && r.chance(1, 4); let (a, b) = rare(r, bad); problem = a; proof = b; rarefile = Some(RARE.to_string()); ends_last = true; src = "rare rewrites";
    } else {
        let Base { problem: a, proof: b, flags: f, src: s, .. } = base(r, tier, c, allow_bad); problem.push_str(&a); proof.push_str(&b); flags = f; src = s;
    }
    if r.chance(1, 5) && !proof.starts_with("unsat") { exotic(r, &mut problem, &mut proof); }
    if r.chance(1, 8) && proof.trim_start().starts_with('(') && !proof.trim_start()[1..].trim_start().starts_with('(') { // as some solvers print it
        proof = format!("(\n{}{}", proof, r.pick(&[")", ")\n", "\n)\n", "\n) ; end\n"]));
    }
    if r.chance(1, 8) && !proof.starts_with("unsat") { proof.insert_str(0, "unsat\n"); }
    if r.chance(1, 16) { bulk(r, &mut problem, &mut proof); }
    let mut w = World::default(); w.p(MODE, 0).p(MAX_EVENTS, 60_000_000).p(CPU_SECONDS, 20);
    let parse_only = |flags: &Vec<String>| -> Vec<String> { flags.iter().filter(|f| matches!(f.as_str(), "--allow-int-real-subtyping" | "--expand-let-bindings" | "--apply-function-defs")).cloned().collect() };
    match cmd {
        "check" => { w.argv = cli(&["check"]); w.argv.extend(flags); }
        "par" => { let n = r.range(2, 5).to_string(); w.argv = cli(&["check", "-u", &n]); w.argv.extend(flags); }
        "stats" => { w.argv = cli(&["check", "--stats"]); if r.chance(1, 3) { w.argv.extend(["-u".to_string(), r.range(2, 4).to_string()]); } w.argv.extend(flags); }
        "parse" => { w.argv = cli(&["parse"]); w.argv.extend(parse_only(&flags)); }
        "elaborate" => {
            w.argv = cli(&["elaborate"]); w.argv.extend(flags);
            if r.chance(1, 4) { w.argv.push("--uncrowd-rotate".into()); }
            if r.chance(1, 3) { let all = ["polyeq", "local", "uncrowd", "reordering", "lia-generic", "hole"]; w.argv.push("--pipeline".into()); let k = r.range(1, 4); for _ in 0..k { w.argv.push((*r.pick(&all)).into()); } }
        }
        "slice" => {
            let ids = inner_ids(&proof); w.argv = cli(&["slice"]); w.argv.extend(parse_only(&flags));
            let id = if ids.is_empty() || r.chance(1, 30) { "nosuch".to_string() } else { r.pick(&ids).clone() };
            w.argv.extend(["--from".to_string(), id]); if r.chance(1, 2) { w.argv.extend(["-d".to_string(), r.below(5).to_string()]); }
            if r.chance(1, 2) { w.argv.extend(["--sliced-output", "s1.out", "s2.out"].map(String::from)); }
        }
        "glia" => { w.argv = cli(&["generate-lia-problems"]); }
        _ => unreachable!(),
    }
    more_options(r, cmd, &mut w);
    if r.chance(1, 6) && cmd != "stats" { w.argv.insert(1, "-v".into()); }
    if let Some(t) = rarefile { w.file("r.rare", t.as_bytes()); w.argv.extend(["--rare-file", "r.rare"].map(String::from)); }
    w.argv.extend(["--", "p.alethe", "p.smt2"].map(String::from));
    w.file("p.alethe", proof.as_bytes()).file("p.smt2", problem.as_bytes());
    Work { w, cmd, ends_last, base_src: src }
}
/// Everything a user can see of a run, apart from diagnostics.
pub fn visible(o: &Outcome) -> (String, Vec<u8>, Vec<(String, Vec<u8>)>) { (format!("{:?}", o.end), o.stream("stdout").unwrap_or(b"").to_vec(), outputs(o)) }
/// Files the run created or changed.
pub fn outputs(o: &Outcome) -> Vec<(String, Vec<u8>)> { let mut v: Vec<_> = o.streams.iter().filter(|s| s.0.starts_with("out:")).map(|s| (s.0[4..].to_string(), s.1.clone())).collect(); v.sort(); v }
pub fn diff(a: &Outcome, b: &Outcome) -> Option<String> {
    if a.end != b.end { return Some(format!("exit {:?} instead of {:?}", b.end, a.end)); }
    if a.stdout() != b.stdout() { return Some(format!("standard output differs: {}", first_diff(&a.stdout(), &b.stdout()))); }
    let (x, y) = (outputs(a), outputs(b)); let n = |v: &Vec<(String, Vec<u8>)>| v.iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(" ");
    if n(&x) != n(&y) { return Some(format!("files written: {:?} instead of {:?}", n(&y), n(&x))); }
    for (p, q) in x.iter().zip(&y) { if p.1 != q.1 { return Some(format!("file {} differs: {}", p.0, first_diff(&String::from_utf8_lossy(&p.1), &String::from_utf8_lossy(&q.1)))); } }
    None
}
pub fn first_diff(a: &str, b: &str) -> String {
    let (mut x, mut y) = (a.lines(), b.lines()); let mut n = 1;
    loop { match (x.next(), y.next()) { (None, None) => return format!("lengths {} and {}", a.len(), b.len()), (p, q) if p != q => return format!("line {n}: {:?} became {:?}", p.map(clip), q.map(clip)), _ => n += 1 } }
}
fn clip(s: &str) -> String { s.chars().take(160).collect() }
/// Adds an option of the subcommand.
pub fn after_cmd(w: &mut World, o: &str) { let i = w.argv.iter().skip(1).position(|a| !a.starts_with('-')).map_or(w.argv.len(), |i| i + 2); w.argv.insert(i, o.into()); }
