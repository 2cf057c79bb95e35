//! External solvers (elaboration of lia_generic, all_simplify and rare_rewrite steps): C11 and C12.
use crate::corpus::Corpus;
use crate::engine::*;
use crate::explore::Judged;
use crate::props::cli;
use crate::rng::{fnv, Rng};
use crate::scen::Scen;
use crate::sim::*;
use crate::work::{after_cmd, first_diff, RARE};

/// A step the solver is asked about.
#[derive(Clone, Debug)]
pub struct Q { pub rule: &'static str, pub kind: usize, pub v: usize, pub k: i64, pub q: usize, pub answerable: bool }
pub struct Sol { pub problem: String, pub proof: String, pub qs: Vec<Q>, pub flags: Vec<String> }
impl Q {
    pub fn key(&self) -> String { if self.kind == 3 { format!("(not (not z{}))", self.v) } else { format!("(+ i{} 3)", self.v) } }
    fn a(&self) -> String { let t = format!("(+ i{} 3)", self.v); match self.kind { 2 => format!("(= {t} {})", self.k), 3 => format!("(= (not (not z{0})) z{0})", self.v), _ => format!("(<= {t} {})", self.k) } }
    fn b(&self) -> String { format!("(>= (+ i{} 3) {})", self.v, self.k + 1) }
    /// The two literals that refute each other under negation (one for kind 3).
    fn lits(&self) -> Vec<String> { match self.kind { 3 => vec![self.a()], 1 => vec![self.a(), self.b()], _ => vec![format!("(not {})", self.a()), format!("(not {})", self.b())] } }
}
fn neg(l: &str) -> String { format!("(not {l})") }

/// A refutation that needs every one of its solver steps: step i yields q_i, and not all q_i can hold.
pub fn problem(r: &mut Rng, max: usize) -> Sol { problem_at(r, max, 0, true) }
pub fn problem_at(r: &mut Rng, max: usize, from: usize, with_rare: bool) -> Sol {
    let n = r.range(1, max); let mut pb = String::new(); let mut pf = String::new(); let mut qs = vec![]; let mut flags: Vec<String> = vec![];
    if r.chance(1, 2) { pb.push_str(*r.pick(&["(set-logic QF_LIA)\n", "(set-logic QF_UFLIA)\n", "(set-logic ALL)\n"])); }
    pb.push_str("(declare-fun uf (Int) Int)\n(declare-sort U 0)\n(declare-const ux U)\n");
    for i in from..from + n { pb.push_str(&format!("(declare-fun i{i} () Int)\n(declare-fun q{i} () Bool)\n(declare-fun z{i} () Bool)\n")); }
    let mut used_simplify = false; let mut used_rare = false;
    for i in from..from + n {
        let kind = r.below(if with_rare { 4 } else { 3 }); let rule = if kind == 3 { used_rare = true; "rare_rewrite" } else if r.chance(1, 2) { "lia_generic" } else { used_simplify = true; "all_simplify" };
        let q = Q { rule, kind, v: i, k: r.below(50) as i64 + 4, q: i, answerable: true };
        let mut lits = q.lits(); let mut extra = vec![];
        if kind != 3 {
            if r.chance(1, 2) { lits.reverse(); }
            if r.chance(1, 4) { let at = r.below(lits.len() + 1); lits.insert(at, format!("q{i}")); extra.push("pos"); }
            if r.chance(1, 5) { let at = r.below(lits.len() + 1); lits.insert(at, format!("z{i}")); extra.push("z"); }
            if r.chance(1, 8) { let d = lits[r.below(lits.len())].clone(); let at = r.below(lits.len() + 1); lits.insert(at, d); }
        }
        // what the rest of the proof assumes, so that the step gives q_i
        let (ha, hb) = if kind == 3 { (format!("(not (not z{i}))"), String::new()) } else { let l = q.lits(); let f = |x: &String| if let Some(y) = x.strip_prefix("(not ") { y[..y.len() - 1].to_string() } else { neg(x) }; (f(&l[0]), f(&l[1])) };
        let args = if rule == "rare_rewrite" { format!(" :args (\"double-neg-elim\" z{i})") } else if rule == "all_simplify" && r.chance(1, 3) { " :args (\"x\")".into() } else { String::new() };
        let mut once: Vec<String> = vec![]; for l in &lits { if !once.contains(l) { once.push(l.clone()); } }
        let step = |id: &str| if once.len() == lits.len() { format!("(step {id} (cl {}) :rule {rule}{args})\n", lits.join(" ")) } else { format!("(step {id}.d (cl {}) :rule {rule}{args})\n(step {id} (cl {}) :rule contraction :premises ({id}.d))\n", lits.join(" "), once.join(" ")) };
        let posq = extra.contains(&"pos"); let hasz = extra.contains(&"z");
        pb.push_str(&format!("(assert {ha})\n")); pf.push_str(&format!("(assume a{i} {ha})\n"));
        if kind == 3 { pb.push_str(&format!("(assert (=> z{i} q{i}))\n")); pf.push_str(&format!("(assume b{i} (=> z{i} q{i}))\n(step c{i} (cl (not z{i}) q{i}) :rule implies :premises (b{i}))\n")); }
        else if posq { pb.push_str(&format!("(assert {hb})\n")); pf.push_str(&format!("(assume b{i} {hb})\n")); }
        else { pb.push_str(&format!("(assert (or {hb} q{i}))\n")); pf.push_str(&format!("(assume b{i} (or {hb} q{i}))\n(step c{i} (cl {hb} q{i}) :rule or :premises (b{i}))\n")); }
        if hasz { pb.push_str(&format!("(assert (not z{i}))\n")); pf.push_str(&format!("(assume z{i}x (not z{i}))\n")); }
        let zx = if hasz { format!(" z{i}x") } else { String::new() };
        let concl = |g: &str, pre: &str| if kind == 3 { format!("(step {pre}e (cl (not (not (not z{i}))) z{i}) :rule equiv1 :premises ({g}))\n(step {pre}r (cl q{i}) :rule resolution :premises ({pre}e a{i} c{i}))\n") } else { format!("(step {pre}r (cl q{i}) :rule resolution :premises ({g} a{i} {}{i}{zx}))\n", if posq { "b" } else { "c" }) };
        match r.below(6) {
            0 => { // inside a subproof, with a discharged assumption the result then passes through
                pf.push_str(&format!("(anchor :step s{i})\n(assume s{i}.h (or q{i} (not q{i})))\n{}{}(step s{i} (cl (not (or q{i} (not q{i}))) q{i}) :rule subproof :discharge (s{i}.h))\n(step t{i} (cl (or q{i} (not q{i})) (not q{i})) :rule or_neg :args (0))\n(step t{i}n (cl (or q{i} (not q{i})) (not (not q{i}))) :rule or_neg :args (1))\n(step t{i}m (cl (or q{i} (not q{i}))) :rule resolution :premises (t{i} t{i}n))\n(step o{i} (cl q{i}) :rule resolution :premises (s{i} t{i}m))\n", step(&format!("s{i}.t1")), concl(&format!("s{i}.t1"), &format!("s{i}."))));
            }
            1 => { // two levels down
                pf.push_str(&format!("(anchor :step s{i})\n(assume s{i}.h q{i})\n(anchor :step s{i}.s)\n(assume s{i}.s.h (not q{i}))\n{}{}(step s{i}.s.x (cl) :rule resolution :premises (s{i}.s.r s{i}.s.h))\n(step s{i}.s (cl (not (not q{i})) false) :rule subproof :discharge (s{i}.s.h))\n(step s{i}.f (cl (not false)) :rule false)\n(step s{i}.y (cl (not (not q{i}))) :rule resolution :premises (s{i}.s s{i}.f))\n(step s{i} (cl (not q{i}) (not (not q{i}))) :rule subproof :discharge (s{i}.h))\n", step(&format!("s{i}.s.t1")), concl(&format!("s{i}.s.t1"), &format!("s{i}.s."))));
                pf.push_str(&step(&format!("g{i}"))); pf.push_str(&concl(&format!("g{i}"), &format!("g{i}."))); pf.push_str(&format!("(step u{i} (cl (not (not q{i}))) :rule resolution :premises (s{i} g{i}.r))\n(step v{i} (cl (not (not (not q{i}))) q{i}) :rule not_not)\n(step o{i} (cl q{i}) :rule resolution :premises (u{i} v{i}))\n"));
            }
            2 => { // the same step twice, each of them needed
                let (g, h) = (format!("g{i}"), format!("g{i}y.t1"));
                pf.push_str(&step(&g)); pf.push_str(&step(&h)); pf.push_str(&concl(&g, &format!("{g}x."))); pf.push_str(&concl(&h, &format!("{g}y.")));
                pf.push_str(&format!("(step w{i} (cl (and q{i} (= q{i} q{i})) (not q{i}) (not (= q{i} q{i}))) :rule and_neg)\n(step w{i}r (cl (= q{i} q{i})) :rule refl)\n(step w{i}x (cl (and q{i} (= q{i} q{i}))) :rule resolution :premises (w{i} {g}x.r w{i}r))\n(step w{i}b (cl (and (and q{i} (= q{i} q{i})) q{i}) (not (and q{i} (= q{i} q{i}))) (not q{i})) :rule and_neg)\n(step w{i}c (cl (and (and q{i} (= q{i} q{i})) q{i})) :rule resolution :premises (w{i}b w{i}x {g}y.r))\n(step o{i} (cl q{i}) :rule and :premises (w{i}c) :args (1))\n"));
            }
            _ => { let g = r.pick(&["g", "t", "a0.t", "lia."]).to_string() + &format!("{i}.{}", r.below(3)); pf.push_str(&step(&g)); pf.push_str(&concl(&g, &format!("k{i}."))); pf.push_str(&format!("(step o{i}w (cl q{i} q{i}) :rule weakening :premises (k{i}.r))\n")); pf.push_str(&format!("(step o{i} (cl q{i}) :rule contraction :premises (o{i}w))\n")); }
        }
        qs.push(q);
    }
    let all: Vec<String> = (from..from + n).map(|i| format!("(not q{i})")).collect(); let os: Vec<String> = (from..from + n).map(|i| format!("o{i}")).collect();
    if n == 1 { pb.push_str(&format!("(assert (not q{from}))\n")); pf.push_str(&format!("(assume fin (not q{from}))\n(step e (cl) :rule resolution :premises (fin o{from}))\n")); }
    else { pb.push_str(&format!("(assert (or {0}))\n", all.join(" "))); pf.push_str(&format!("(assume fin (or {0}))\n(step finc (cl {0}) :rule or :premises (fin))\n(step e (cl) :rule resolution :premises (finc {1}))\n", all.join(" "), os.join(" "))); }
    pb.push_str("(check-sat)\n");
    if used_simplify { if r.chance(1, 2) { flags.push("-i".into()); } else { flags.extend(["--allowed-rules", "all_simplify"].map(String::from)); } }
    if used_rare { flags.extend(["--rare-file", "r.rare"].map(String::from)); }
    Sol { problem: pb, proof: pf, qs, flags }
}

/// A refutation of the query, in one of many forms a solver might choose. Always correct, and uses only known rules.
pub fn reply(r: &mut Rng, q: &Q) -> String {
    let ids = *r.pick(&["t", "a", "g0.t", "s0.t", "o", "@p_", "x.added.t", "h"]); let mut next = r.below(3); let mut id = || { next += 1; format!("{ids}{next}") };
    let (a, b) = (q.a(), q.b()); let mut out = String::new(); let mut names = r.chance(1, 3);
    // term as written: possibly named or let-bound
    let t = format!("(+ i{} 3)", q.v);
    let mut w = |s: &str| -> String { if q.kind == 3 || !s.contains(&t) { return s.to_string(); } if names { names = false; return s.replacen(&t, &format!("(! {t} :named @p_1)"), 1); } s.to_string() };
    let lits = q.lits(); let mut order: Vec<usize> = (0..lits.len()).collect(); r.shuffle(&mut order);
    let mut asm = vec![String::new(); lits.len()];
    for j in order { let i = id(); out.push_str(&format!("(assume {i} {})\n", w(&neg(&lits[j])))); asm[j] = i; if r.chance(1, 12) { out.push_str(&format!("(assume {} {})\n", id(), neg(&lits[j]))); } }
    let named = out.contains(":named @p_1"); let tt = |s: &str| if named && r.0 & 1 == 1 { s.replace(&t, "@p_1") } else { s.to_string() };
    let (a, b) = (tt(&a), tt(&b));
    let l: Vec<String> = lits.iter().map(|x| tt(x)).collect();
    if q.kind == 3 {
        let (s1, s2) = (id(), id()); out.push_str(&format!("(step {s1} (cl {a}) :rule not_simplify)\n"));
        if r.chance(1, 3) { // refuted inside a subproof that uses an outer assumption
            let (s, f) = (id(), id()); out.push_str(&format!("(anchor :step {s})\n(assume {s}.h {a})\n(step {s}.x (cl) :rule resolution :premises ({} {s}.h))\n(step {s} (cl (not {a}) false) :rule subproof :discharge ({s}.h))\n(step {f} (cl (not false)) :rule false)\n(step {s2} (cl) :rule resolution :premises ({s} {s1} {f}))\n", asm[0]));
        } else { out.push_str(&format!("(step {s2} (cl) :rule resolution :premises ({} {s1}))\n", asm[0])); }
        return finish(r, q, out, &s2);
    }
    let la = id(); let lc = format!("(cl {} {})", l[0], l[1]); let coeff = if q.kind == 2 { *r.pick(&["(- 1) 1", "(- 2) 2"]) } else { *r.pick(&["1 1", "1 1", "2 2", "1.0 1.0", "3/2 3/2"]) };
    let la_step = |id: &str| format!("(step {id} {lc} :rule la_generic :args ({coeff}))\n");
    let e; 
    match r.below(8) {
        0 | 1 => { out.push_str(&la_step(&la)); e = id(); out.push_str(&format!("(step {e} (cl) :rule {} :premises ({la} {} {}))\n", r.pick(&["resolution", "th_resolution"]), asm[0], asm[1])); }
        2 if q.kind != 1 => { // assumptions unwrapped first
            let mut p = vec![]; for j in 0..2 { let (n, m) = (id(), id()); let x = if j == 0 { &a } else { &b }; out.push_str(&format!("(step {n} (cl (not (not (not {x}))) {x}) :rule not_not)\n(step {m} (cl {x}) :rule resolution :premises ({n} {}))\n", asm[j])); p.push(m); }
            out.push_str(&la_step(&la)); e = id(); out.push_str(&format!("(step {e} (cl) :rule resolution :premises ({la} {} {}))\n", p[0], p[1]));
        }
        3 if q.kind != 1 => { // by a subproof discharging one of the facts
            let s = la.clone(); out.push_str(&format!("(anchor :step {s})\n(assume {s}.h {a})\n{}(step {s}.t2 (cl (not {b})) :rule resolution :premises ({s}.t1 {s}.h))\n(step {s} (cl (not {a}) (not {b})) :rule subproof :discharge ({s}.h))\n", la_step(&format!("{s}.t1"))));
            e = id(); out.push_str(&format!("(step {e} (cl) :rule resolution :premises ({s} {} {}))\n", asm[0], asm[1]));
        }
        4 if q.kind != 1 => { // refuted inside a subproof that uses an outer assumption
            let s = la.clone(); let f = id(); out.push_str(&format!("(anchor :step {s})\n(assume {s}.h {a})\n{}(step {s}.t2 (cl) :rule resolution :premises ({s}.t1 {s}.h {}))\n(step {s} (cl (not {a}) false) :rule subproof :discharge ({s}.h))\n(step {f} (cl (not false)) :rule false)\n", la_step(&format!("{s}.t1")), asm[1]));
            e = id(); out.push_str(&format!("(step {e} (cl) :rule resolution :premises ({s} {} {f}))\n", asm[0]));
        }
        5 if q.kind != 1 => { // nested subproofs
            let s = la.clone(); out.push_str(&format!("(anchor :step {s})\n(assume {s}.h {a})\n(anchor :step {s}.s)\n(assume {s}.s.h {b})\n{}(step {s}.s.t2 (cl) :rule resolution :premises ({s}.s.t1 {s}.h {s}.s.h))\n(step {s}.s (cl (not {b}) false) :rule subproof :discharge ({s}.s.h))\n(step {s}.f (cl (not false)) :rule false)\n(step {s}.t2 (cl (not {b})) :rule resolution :premises ({s}.s {s}.f))\n(step {s} (cl (not {a}) (not {b})) :rule subproof :discharge ({s}.h))\n", la_step(&format!("{s}.s.t1"))));
            e = id(); out.push_str(&format!("(step {e} (cl) :rule resolution :premises ({s} {} {}))\n", asm[0], asm[1]));
        }
        6 => { // a context with bound variables, needed for the conclusion
            let s = id(); let eq = "(= (forall ((x Int)) (> x 0)) (forall ((y Int)) (> y 0)))"; let w2 = id();
            out.push_str(&format!("(anchor :step {s} :args ((y Int) (:= (x Int) y)))\n(step {s}.t1 (cl (= x y)) :rule refl)\n(step {s}.t2 (cl (= (> x 0) (> y 0))) :rule cong :premises ({s}.t1))\n(step {s} (cl {eq}) :rule bind)\n{}(step {w2} (cl {} {} (not {eq})) :rule weakening :premises ({la}))\n", la_step(&la), l[0], l[1]));
            e = id(); out.push_str(&format!("(step {e} (cl) :rule resolution :premises ({w2} {} {} {s}))\n", asm[0], asm[1]));
        }
        _ => { // one at a time, with unused steps in between
            out.push_str(&la_step(&la)); let m = id(); out.push_str(&format!("(step {m} (cl {}) :rule resolution :premises ({la} {}))\n(step {} (cl (= i{v} i{v})) :rule eq_reflexive)\n", l[1], asm[0], id(), v = q.v));
            e = id(); out.push_str(&format!("(step {e} (cl) :rule resolution :premises ({m} {}))\n", asm[1]));
        }
    }
    finish(r, q, out, &e)
}
fn finish(r: &mut Rng, q: &Q, mut out: String, e: &str) -> String {
    match r.below(14) {
        0 => out.push_str(&format!("(step {e}.dup (cl) :rule contraction :premises ({e}))\n")),
        1 => out.push_str(&format!("(step {e}.w (cl q{}) :rule weakening :premises ({e}))\n", q.q)),
        2 => out.push_str(&format!("(step {e}.r (cl (= q{0} q{0})) :rule refl)\n", q.q)),
        3 => out = format!("; produced by a solver\n{}", out.replacen('\n', " ; comment ) (\n", 1)),
        4 => out.push_str(&format!("(anchor :step {e}.s)\n(assume {e}.s.h q{0})\n(step {e}.s.t (cl q{0}) :rule contraction :premises ({e}.s.h))\n(step {e}.s (cl (not q{0}) q{0}) :rule subproof :discharge ({e}.s.h))\n", q.q)),
        _ => {}
    }
    if r.chance(1, 8) { // a long reply
        let n = *r.pick(&[40usize, 70, 150, 300]); let pad: String = (0..n).map(|k| format!("(step {e}.p{k} (cl (= q{0} q{0})) :rule refl)\n", q.q)).collect(); if r.chance(1, 2) { out.push_str(&pad); } else { out = pad + &out; }
    }
    if r.chance(1, 3) { out = format!("(\n{out})\n"); }
    let head = *r.pick(&["unsat\n", "unsat\n", "unsat\n", "unsat\r\n", "unsat  \n"]);
    format!("{head}{out}")
}

pub fn world(s: &Sol, with: bool) -> World {
    let mut w = World::default(); w.p(MODE, 0).p(MAX_EVENTS, 60_000_000).p(CPU_SECONDS, 20);
    w.argv = cli(&["elaborate"]); w.argv.extend(s.flags.clone());
    if with { w.argv.extend(["--lia-solver", "smt", "--lia-solver-args", "lia", "--hole-solver", "smt", "--hole-solver-args", "hole"].map(String::from)); }
    w.argv.extend(["--", "p.alethe", "p.smt2"].map(String::from));
    w.file("p.alethe", s.proof.as_bytes()).file("p.smt2", s.problem.as_bytes()).file("r.rare", RARE.as_bytes()); w
}
pub fn good() -> Vec<Op> { vec![Op::read(0), Op::write_match(), Op::exit(0)] }
/// An elaboration whose solvers all do what they should.
pub fn obedient(r: &mut Rng) -> World {
    let s = problem(r, 4); let mut w = world(&s, true); options(r, &mut w); for q in &s.qs { w.blobs.push((q.key(), reply(r, q).into_bytes())); } for _ in 0..12 { w.solvers.push(good()); } w
}
pub fn bad() -> Vec<Op> { vec![Op::read(0), Op::exit(1)] }
/// Verdict of the checker, with the same options, on a proof printed by `elaborate`.
pub fn recheck(like: &World, printed: &str, w: &mut Worker) -> Result<Verdict, String> {
    let mut c = World { files: like.files.clone(), ..Default::default() }; c.p(MODE, 0).p(MAX_EVENTS, 60_000_000).p(CPU_SECONDS, 20);
    let mut it = like.argv.iter().peekable(); let mut v = vec![];
    while let Some(a) = it.next() { match a.as_str() { "elaborate" => v.push("check".to_string()), "--lia-solver" | "--lia-solver-args" | "--hole-solver" | "--hole-solver-args" => { it.next(); } "--pipeline" => { while it.peek().map_or(false, |x| !x.starts_with('-')) { it.next(); } } "--uncrowd-rotate" | "-v" => {} _ => v.push(a.clone()) } }
    c.argv = v; let i = c.files.iter().position(|f| f.0 == "p.alethe").unwrap(); c.files[i].1 = printed.splitn(2, '\n').nth(1).unwrap_or("").as_bytes().to_vec();
    Ok(check_verdict(&w.run("cli", &c)?))
}
/// Development-time: problems and replies that are not treated as they should be.
pub fn calibrate(w: &mut Worker, n: u64) {
    let mut h: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
    for k in 0..n {
        let mut r = Rng::of(&[k, 99]); let s = problem(&mut r, 3); let mut wd = world(&s, true); wd.solvers.push(good());
        for q in &s.qs { let t = reply(&mut r, q); wd.blobs.push((q.key(), t.into_bytes())); }
        let o = w.run("cli", &wd).unwrap(); let out = o.stdout(); let first = out.lines().next().unwrap_or("").to_string();
        let mut left = vec![]; for l in out.lines() { for x in ["lia_generic", "all_simplify", "rare_rewrite"] { if l.contains(x) { left.push(x); } } }
        let warn = o.stderr().lines().filter(|l| l.contains("failed to")).next().unwrap_or("").to_string();
        let cls = if let Some(v) = crash_of(&o) { format!("{} {}", v.v, v.detail) } else if !left.is_empty() { format!("{first}, not elaborated: {warn}") } else { let v = recheck(&wd, &out, w).unwrap(); format!("{:?} {first} -> {} {}", o.end, v.v, v.detail) };
        let cls: String = cls.split('\'').enumerate().filter(|x| x.0 % 2 == 0 || !x.1.contains(|c: char| c.is_ascii_digit())).map(|x| x.1).collect::<Vec<_>>().join("'").chars().filter(|c| !c.is_ascii_digit()).take(200).collect();
        let e = h.entry(cls).or_insert((0, k, String::new())); e.0 += 1; e.2 = format!("spawns {} zombies {}", o.cnt("spawns"), o.cnt("zombies"));
    }
    for (k, (n, c, x)) in h { println!("{n:5} case {c} {x}: {k}"); }
}
pub fn dump1(w: &mut Worker, k: u64) {
    let mut r = Rng::of(&[k, 99]); let s = problem(&mut r, 3); let mut wd = world(&s, true); wd.solvers.push(good());
    for q in &s.qs { let t = reply(&mut r, q); wd.blobs.push((q.key(), t.into_bytes())); }
    println!("{:?}\n--- problem\n{}\n--- proof\n{}", wd.argv, s.problem, s.proof); for b in &wd.blobs { println!("--- reply to {}\n{}", b.0, String::from_utf8_lossy(&b.1)); }
    let o = w.run("cli", &wd).unwrap(); println!("{:?} {}", o.end, o.msg); for (n, b) in &o.streams { println!("--- {n}\n{}", String::from_utf8_lossy(b)); }
    println!("{:?}", recheck(&wd, &o.stdout(), w));
}

// ---------------------------------------------------------------- scenarios
const PIPES: &[&[&str]] = &[&["lia-generic", "hole"], &["hole", "lia-generic"], &["polyeq", "lia-generic", "local", "uncrowd", "reordering", "hole"], &["lia-generic", "hole", "polyeq", "local", "uncrowd", "reordering"], &["hole", "polyeq", "lia-generic"], &["lia-generic"], &["hole"], &["lia-generic", "hole", "lia-generic", "hole"]];
fn options(r: &mut Rng, w: &mut World) -> bool {
    let mut both = true;
    if r.chance(2, 5) { let p = *r.pick(PIPES); both = p.contains(&"lia-generic") && p.contains(&"hole"); let at = w.argv.iter().position(|a| a == "--").unwrap(); let mut v = vec!["--pipeline".to_string()]; v.extend(p.iter().map(|s| s.to_string())); w.argv.splice(at..at, v); }
    if r.chance(1, 6) { after_cmd(w, "--uncrowd-rotate"); } if r.chance(1, 5) { after_cmd(w, "-v"); }
    both
}
/// Benign environment: how the pipes and the solver's timing behave.
pub fn conditions(r: &mut Rng, w: &mut World) {
    w.p(IO_SEED, r.next()).p(HASH_SEED, r.next());
    if r.chance(1, 2) { w.p(PIPE_CAP, *r.pick(&[1, 7, 64, 300, 1000, 4096])); } if r.chance(1, 3) { w.p(READ_CHUNK, *r.pick(&[1, 3, 40, 1000])); } if r.chance(1, 4) { w.p(WRITE_CHUNK, 1); }
    if r.chance(1, 4) { w.p(EINTR_WAIT, *r.pick(&[2, 3])); } if r.chance(1, 3) { let s = r.next(); w.p(MODE, 1).p(SCHED_SEED, s).p(GAP_AHOT, 30).p(GAP_ACOLD, 1000).p(GAP_RHOT, 1000).p(GAP_RCOLD, 10000).p(GAP_SYS, *r.pick(&[1, 2, 6])); }
}
/// A script that reads the whole query, delivers the whole reply and ends well.
fn usable(r: &mut Rng) -> Vec<Op> {
    let mut v = vec![]; let chat = |r: &mut Rng, v: &mut Vec<Op>| match r.below(6) { 0 => v.push(Op::junk(2, *r.pick(&[1, 100, 5000, 70000]), 119)), 1 => v.push(Op::sleep(*r.pick(&[1, 1_000_000, 3_600_000_000_000]))), _ => {} };
    chat(r, &mut v); if r.chance(1, 3) { v.push(Op::read(r.range(1, 400) as u64)); chat(r, &mut v); } v.push(Op::read(0)); if r.chance(1, 5) { v.push(Op::close(0)); } chat(r, &mut v);
    v.push(Op::write_match()); chat(r, &mut v); if r.chance(1, 5) { v.push(Op::close(1)); chat(r, &mut v); } if r.chance(1, 8) { v.push(Op::close(2)); } v.push(Op::exit(0)); v
}
/// A solver that delivers after a while.
pub fn slow(r: &mut Rng) -> Vec<Op> { let mut v = vec![Op::read(0)]; if r.chance(2, 3) { v.push(Op::sleep(*r.pick(&[1_000, 1_000_000, 60_000_000_000]))); } v.push(Op::write_match()); if r.chance(1, 2) { v.push(Op::sleep(*r.pick(&[1_000, 1_000_000_000]))); } v.push(Op::exit(0)); v }
/// A script after which no proof may be taken over: it fails, or says nothing usable.
fn unusable(r: &mut Rng, junk: u64) -> Vec<Op> {
    let fail = |r: &mut Rng| match r.below(4) { 0 => Op::exit(*r.pick(&[1, 2, 101, 126, 127, 255])), 1 => Op::die(*r.pick(&[9, 11, 6, 15, 13, 24])), 2 => Op::exit(1), _ => Op::die(9) };
    let read = |r: &mut Rng, v: &mut Vec<Op>| match r.below(4) { 0 => {} 1 => v.push(Op::read(r.range(1, 300) as u64)), _ => v.push(Op::read(0)) };
    let big = |r: &mut Rng| *r.pick(&[1u64, 50, 900, 5000, 70000, 200000]);
    let mut v = vec![];
    match r.below(13) {
        0 => { read(r, &mut v); v.push(fail(r)); }
        1 => { v.push(Op::read(0)); v.push(Op::write_match()); v.push(fail(r)); }
        2 => { v.push(Op::read(0)); v.push(Op::write_limit(r.range(1, 300) as u64)); v.push(fail(r)); }
        3 => { v.push(Op::read(0)); v.push(Op::exit(0)); }
        4 => { v.push(Op::junk(0, big(r), r.next() & 255)); read(r, &mut v); v.push(if r.chance(1, 2) { Op::exit(0) } else { fail(r) }); }
        5 => { v.push(Op::read(0)); v.push(Op::junk(0, big(r), *r.pick(&[0, 10, 32, 40, 59, 117, 128, 255]))); v.push(Op::exit(0)); }
        6 => { v.push(Op::junk(2, big(r), 101)); read(r, &mut v); v.push(fail(r)); }
        7 => { v.push(Op::close(0)); if r.chance(1, 2) { v.push(Op::sleep(1_000_000)); } if r.chance(1, 2) { v.push(Op::junk(0, big(r), 65)); } v.push(fail(r)); }
        8 => { v.push(Op::close(1)); read(r, &mut v); v.push(if r.chance(1, 2) { Op::exit(0) } else { fail(r) }); }
        9 => { v.push(Op::close(1)); v.push(Op::close(2)); v.push(Op::close(0)); v.push(Op::sleep(1_000_000_000)); v.push(Op::exit(0)); }
        10 => { v.push(Op::read(0)); v.push(Op { op: 2, a: 0, b: junk + r.below(5) as u64, c: 0 }); v.push(Op::exit(0)); }
        11 => { v.push(Op::read(0)); v.push(Op { op: 2, a: 2, b: junk + 5, c: 0 }); v.push(Op::exit(1)); }
        _ => { v.push(Op::read(0)); v.push(Op::junk(0, big(r), 10)); v.push(Op::write_match()); v.push(Op::exit(0)); }
    }
    v
}
/// Replies that are no refutation, followed by the message of a timeout.
const NOTHING: &[&[u8]] = &[b"sat\n", b"unknown\n(error \"no proof\")\n", b"unsat", b"unsat\n(error \"cannot get proof\")\n", b"unsat\n\xff\xfe(step t1 (cl) :rule hole)\n", b"cvc5 interrupted by timeout."];
fn damage(r: &mut Rng, t: &str, q: &Q) -> Vec<u8> {
    let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect(); let n = l.len(); let mut i = r.below(n.max(1)); if r.chance(2, 3) { let own: Vec<usize> = (0..n).filter(|k| !l[*k].contains(".p")).collect(); if !own.is_empty() { i = *r.pick(&own); } }
    match r.below(13) {
        0 => { let k = r.below(t.len()); return t.as_bytes()[..k].to_vec(); }
        1 => { l.truncate(i + 1); }
        2 => { l.remove(i); }
        3 => { let k = r.below(n); l.swap(i, k); }
        4 => { let x = l[i].clone(); l.insert(i, x); }
        5 => { let mut b = t.as_bytes().to_vec(); let k = r.below(b.len()); b[k] ^= 1 << r.below(8); return b; }
        6 => { let j = (0..n).filter(|k| l[*k].contains(":rule ")).nth(r.below(4)).unwrap_or(i); if let Some(p) = l[j].find(":rule ") { let e = l[j][p + 6..].find([' ', ')']).map_or(l[j].len(), |x| x + p + 6); l[j].replace_range(p + 6..e, *r.pick(&["hole", "resolution", "la_generic", "contraction", "subproof", "refl", "bind", "weakening"])); } }
        7 => { l.insert(1.min(n), format!("(assume hx.{} {})", r.below(9), *r.pick(&["false", "q0", "(not q0)", "(= 0 1)"]))); }
        8 => { l = vec!["unsat".into(), "(anchor :step s1)".into(), "(assume s1.h false)".into(), "(step s1.f (cl (not false)) :rule false)".into(), "(step s1.t (cl) :rule resolution :premises (s1.h s1.f))".into(), "(step s1 (cl (not false) false) :rule subproof :discharge (s1.h))".into()]; if r.chance(1, 2) { let lits = q.lits(); let p = (1..lits.len() + 1).map(|k| format!("(assume a{k} {})", neg(&lits[k - 1]))).collect::<Vec<_>>(); l.splice(1..1, p); } }
        9 => { l = vec!["unsat".into(), format!("(step t1 (cl) :rule {})", r.pick(&["hole", "resolution", "false"]))]; }
        10 => { for x in l.iter_mut() { *x = x.replacen(&q.k.to_string(), &(q.k + 1).to_string(), 1); } }
        11 => { l.push(format!("(step zz (cl {}) :rule hole)", r.pick(&["", "false", "q0"]))); }
        _ => { for x in l.iter_mut() { if x.contains("(cl)") { *x = x.replace("(cl)", *r.pick(&["(cl false)", "(cl q0)", "(cl true)"])); } } }
    }
    (l.join("\n") + "\n").into_bytes()
}
pub fn gen_c12(r: &mut Rng, case: u64, tier: Tier, _w: &mut Worker, _c: &Corpus) -> Result<Vec<Scen>, String> {
    let s = problem(r, if tier == Tier::Thorough { 6 } else { 4 }); let mut v = vec![]; let mut base = world(&s, true); let both = options(r, &mut base);
    for i in 0..6 {
        let mut w = base.clone(); w.solvers = vec![good()]; let mut kind = "good"; let mut qs: Vec<&Q> = s.qs.iter().collect(); r.shuffle(&mut qs);
        let mut rep: Vec<(String, Vec<u8>)> = qs.iter().map(|q| (q.key(), reply(r, q).into_bytes())).collect();
        if i >= 2 { match r.below(4) { 0 => { if rep.len() > 1 { kind = "misdelivered"; let k = r.range(1, rep.len() - 1); let old: Vec<Vec<u8>> = rep.iter().map(|x| x.1.clone()).collect(); for j in 0..rep.len() { rep[j].1 = old[(j + k) % old.len()].clone(); } } } 1 | 2 => { kind = "damaged"; for (j, q) in qs.iter().enumerate() { if j == 0 || r.chance(1, 3) { let t = String::from_utf8(rep[j].1.clone()).unwrap(); rep[j].1 = damage(r, &t, q); } } } _ => {} } }
        w.blobs = rep; if i > 0 { conditions(r, &mut w); w.solvers = (0..r.range(1, 4)).map(|_| usable(r)).collect(); }
        let mut sc = scen("C12", kind, "cli", case, w); sc.set("both", if both { "1" } else { "" }); v.push(sc);
    }
    Ok(v)
}
fn order(v: &str) -> usize { match v { "valid" => 0, "holey" => 1, "invalid" => 2, _ => 3 } }
fn plain_check(sc: &Scen, w: &mut Worker) -> Result<Verdict, String> {
    let p = format!("\n{}", String::from_utf8_lossy(&sc.w.files.iter().find(|f| f.0 == "p.alethe").unwrap().1)); recheck(&sc.w, &p, w)
}
/// The printed proof is accepted whenever the original is, and is as complete.
fn sound(sc: &Scen, o: &Outcome, w: &mut Worker, j: &mut Judged) -> Result<Option<Verdict>, String> {
    let a = plain_check(sc, w)?; if order(&a.v) > 1 { w.stats.hit("skipped: original proof not accepted"); return Ok(None); }
    let out = o.stdout(); let first = out.lines().next().unwrap_or("");
    if o.end != End::Exit(0) || first != a.v { j.bad("elaboration with a solver fails on an accepted proof", format!("{:?}, first line {first:?}, check says {}: {}", o.end, a.v, error_line(o))); return Ok(None); }
    let mut b = recheck(&sc.w, &out, w)?;
    // replies to lia_generic queries may use rules the checker does not know: then the result is for `--ignore-unknown-rules`
    if b.v == "invalid" && b.detail.contains("unknown rule") && sc.kind != "good" && !sc.w.argv.iter().any(|x| x == "-i") { let mut like = sc.w.clone(); after_cmd(&mut like, "-i"); b = recheck(&like, &out, w)?; }
    if order(&b.v) > order(&a.v) { j.bad(format!("{} proof becomes {} by elaboration with a solver", a.v, b.v), format!("{} replies; {}", sc.kind, b.detail)); }
    Ok(Some(b))
}
fn note(sc: &Scen, o: &Outcome, j: &mut Judged) {
    j.evals = 1; if o.cnt("spawns") > 0 { j.nontrivial.push(fnv(format!("{:?}{:?}{:?}{:?}", sc.w.params, sc.w.argv, sc.w.solvers, sc.w.faults).as_bytes()) ^ fnv(&sc.w.files[0].1) ^ sc.w.blobs.iter().fold(0u64, |a, b| a.rotate_left(5) ^ fnv(&b.1))); }
    j.sample = Some(format!("{}: {} solver processes, {} scripts {:?}, faults {:?}, {:?}", sc.kind, o.cnt("spawns"), sc.w.solvers.len(), sc.m("classes"), sc.w.faults.iter().map(|f| (FAULT_NAMES[f[0] as usize], f[1])).collect::<Vec<_>>(), o.end));
}
pub fn judge_c12(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged::default(); let o = w.run("cli", &sc.w)?; note(sc, &o, &mut j); *w.stats.extra.entry(format!("{} replies", sc.kind)).or_default() += 1;
    if let Some(v) = crash_of(&o) { j.bad(format!("{} during elaboration with a solver", v.v), format!("{} replies: {}", sc.kind, v.detail)); return Ok(j); }
    let Some(b) = sound(sc, &o, w, &mut j)? else { return Ok(j) };
    if sc.kind == "good" {
        // the result depends on the replies alone
        let mut p = sc.w.clone(); p.params.clear(); p.p(MODE, 0).p(MAX_EVENTS, 60_000_000).p(CPU_SECONDS, 20); p.solvers = vec![good()]; let d = w.run_ref("cli", &p)?;
        if crash_of(&d).is_none() && d.stdout() != o.stdout() { j.bad("the elaborated proof depends on how the solver's reply is delivered", first_diff(&d.stdout(), &o.stdout())); }
        if sc.m("both") == "1" {
            let out = o.stdout(); let rare = sc.w.argv.iter().any(|a| a == "--rare-file"); let _ = rare;
            if let Some(l) = out.lines().find(|l| l.contains(":rule lia_generic") || l.contains(":rule all_simplify")) { j.bad("a step the solver refuted is left unelaborated", format!("{l} {}", o.stderr().lines().find(|l| l.contains("failed to")).unwrap_or(""))); }
            else if b.v != "valid" && j.findings.is_empty() { j.bad("elaborated proof has holes although the solver answered everything", b.detail); }
        }
    }
    Ok(j)
}
// ---------------------------------------------------------------- C11: unreliable solver processes
fn gen_c11_bench(r: &mut Rng, case: u64) -> Vec<Scen> {
    let n = r.range(1, 4); let runs = *r.pick(&[1, 1, 2]); let mut base = World::default(); let mut files = vec![]; let mut all = vec![];
    for f in 0..n { let s = problem_at(r, 2, 4 * f, false); base.file(&format!("x{f}.smt2"), s.problem.as_bytes()).file(&format!("x{f}.smt2.alethe"), s.proof.as_bytes()); files.push(format!("x{f}.smt2.alethe")); for q in s.qs { base.blobs.push((q.key(), reply(r, &q).into_bytes())); all.push(q); } }
    let nothing = base.blobs.len() as u64; for b in NOTHING { base.blobs.push((String::from("\u{1}never"), b.to_vec())); }
    base.argv = cli(&["bench", "--elaborate", "-n", &runs.to_string(), "-j", &r.pick(&[1, 2, 3, 4]).to_string(), "-i", "--lia-solver", "smt", "--lia-solver-args", "lia", "--hole-solver", "smt", "--hole-solver-args", "hole"]);
    if r.chance(1, 2) { base.argv.push("--dump-to-csv".into()); } base.argv.push("--".into()); base.argv.extend(files);
    base.p(MODE, 0).p(MAX_EVENTS, 200_000_000).p(CPU_SECONDS, 25); let mut v = vec![];
    for _ in 0..4 {
        let mut w = base.clone(); conditions(r, &mut w); if r.chance(2, 3) { draw_schedule(r, &mut w, 50_000); } let mut cls = String::new(); let calm = r.chance(1, 2);
        for _ in 0..r.range(1, 5) { if calm || r.chance(1, 3) { w.solvers.push(usable(r)); cls.push('u'); } else { w.solvers.push(unusable(r, nothing)); cls.push('b'); } }
        if !calm { match r.below(6) { 0 => for q in 0..8u64 { if r.chance(1, 3) { w.fault(F_SPAWN_ERR, q + 1, 0, *r.pick(&[2, 11, 12, 13])); } }, 1 => { w.fault(F_PIPE_ERR, r.range(1, 12) as u64, 0, *r.pick(&[24, 23])); } _ => {} } }
        let mut sc = scen("C11", "bench", "cli", case, w); sc.set("classes", cls); v.push(sc);
    }
    v
}
fn queries(o: &Outcome) -> Vec<Vec<u8>> { let mut v: Vec<Vec<u8>> = o.streams.iter().filter(|s| s.0.starts_with("child-stdin:")).map(|s| s.1.clone()).collect(); v.sort(); v }
fn judge_c11_bench(sc: &Scen, o: &Outcome, w: &mut Worker, mut j: Judged) -> Result<Judged, String> {
    let cut = sc.w.argv.iter().position(|a| a == "--").unwrap(); let mut worst = 0; let mut asked = vec![]; let runs: usize = sc.w.argv[sc.w.argv.iter().position(|a| a == "-n").unwrap() + 1].parse().unwrap_or(1);
    for f in &sc.w.argv[cut + 1..] {
        let pb = f.strip_suffix(".alethe").unwrap().to_string(); let mut p = World { files: sc.w.files.iter().filter(|x| x.0 == *f || x.0 == pb).cloned().collect(), blobs: sc.w.blobs.clone(), solvers: vec![good()], ..Default::default() }; p.p(MODE, 0).p(CPU_SECONDS, 20);
        p.argv = cli(&["elaborate", "-i", "--lia-solver", "smt", "--lia-solver-args", "lia", "--hole-solver", "smt", "--hole-solver-args", "hole", "--", f, &pb]); let d = w.run_ref("cli", &p)?; if crash_of(&d).is_some() { return Ok(j); }
        let v = order(d.stdout().lines().next().unwrap_or("")); if v > 1 { w.stats.hit("skipped: original proof not accepted"); return Ok(j); } worst = worst.max(v); for q in queries(&d) { for _ in 0..runs { asked.push(q.clone()); } }
    }
    asked.sort(); let want = if worst == 1 { "holey" } else { "valid" }; let out = o.stdout(); let got: Vec<&str> = out.lines().filter(|l| matches!(*l, "valid" | "holey" | "invalid")).collect();
    if o.end != End::Exit(0) || got != [want] || o.stderr().contains("encountered error in file") { j.bad("an unreliable solver changes the benchmark's verdict", format!("{:?}, {got:?} instead of {want}; scripts {}: {}", o.end, sc.m("classes"), error_line(o))); }
    if sc.m("classes").chars().all(|c| c == 'u') && sc.w.faults.is_empty() { w.stats.hit("queries compared"); if queries(o) != asked { j.bad("the solver is not asked about every step once", format!("{} queries instead of {}: {}", queries(o).len(), asked.len(), queries(o).iter().zip(&asked).find(|x| x.0 != x.1).map_or(String::new(), |x| first_diff(&String::from_utf8_lossy(x.1), &String::from_utf8_lossy(x.0))))); } }
    Ok(j)
}
pub fn gen_c11(r: &mut Rng, case: u64, tier: Tier, _w: &mut Worker, _c: &Corpus) -> Result<Vec<Scen>, String> {
    if r.chance(1, 5) { return Ok(gen_c11_bench(r, case)); }
    let s = problem(r, if tier == Tier::Thorough { 6 } else { 4 }); let mut base = world(&s, true); options(r, &mut base);
    for q in &s.qs { base.blobs.push((q.key(), reply(r, q).into_bytes())); } let nothing = base.blobs.len() as u64; for b in NOTHING { base.blobs.push((String::from("\u{1}never"), b.to_vec())); }
    if r.chance(1, 6) { let i = base.files.iter().position(|f| f.0 == "p.smt2").unwrap(); let mut big = String::new(); for k in 0..r.range(1500, 4000) { big.push_str(&format!("(declare-fun some_long_function_name_{k} (Int Int Bool) Bool)\n")); } let t = String::from_utf8_lossy(&base.files[i].1).replacen("(declare-fun uf", &format!("{big}(declare-fun uf"), 1); base.files[i].1 = t.into_bytes(); }
    let mut v = vec![];
    for _ in 0..5 {
        let mut w = base.clone(); conditions(r, &mut w); let n = r.range(1, 5); let mut cls = String::new();
        for _ in 0..n { if r.chance(1, 3) { w.solvers.push(usable(r)); cls.push('u'); } else if r.chance(1, 8) { cls.push('e'); let mut x = vec![]; if r.chance(1, 2) { x.push(Op::read(0)); } if r.chance(1, 2) { x.push(Op::write_limit(r.range(1, 400) as u64)); } else { x.push(Op { op: 2, a: 0, b: r.below(nothing as usize) as u64, c: 0 }); } x.push(Op::exit(0)); w.solvers.push(x); } else { w.solvers.push(unusable(r, nothing)); cls.push('b'); } }
        let mut failing: Vec<usize> = vec![]; // queries whose solver cannot be started
        match r.below(6) { 0 => for q in 0..8usize { if r.chance(1, 3) { w.fault(F_SPAWN_ERR, q as u64 + 1, 0, *r.pick(&[2, 11, 12, 13])); failing.push(q); } }, 1 => { let k = r.range(1, 12) as u64; w.fault(F_PIPE_ERR, k, 0, *r.pick(&[24, 23])); failing.push((k as usize - 1) / 3); } 2 => { w.fault(F_SPAWN_ERR, 0, 0, *r.pick(&[2, 11, 13])); failing.extend(0..64); } _ => {} }
        let mut sc = scen("C11", "solver", "cli", case, w); sc.set("classes", cls).set("failing", failing.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); v.push(sc);
    }
    Ok(v)
}
pub fn judge_c11(sc: &Scen, w: &mut Worker) -> Result<Judged, String> {
    let mut j = Judged::default(); let o = w.run("cli", &sc.w)?; note(sc, &o, &mut j);
    if let Some(v) = crash_of(&o) { j.bad(format!("{} with an unreliable solver", v.v), format!("scripts {}: {}", sc.m("classes"), v.detail)); return Ok(j); }
    if o.cnt("zombies") > 0 { j.bad("a solver process is left behind", format!("{} of {} never waited for; scripts {}", o.cnt("zombies"), o.cnt("spawns"), sc.m("classes"))); return Ok(j); }
    if sc.kind == "bench" { return judge_c11_bench(sc, &o, w, j); }
    if sound(sc, &o, w, &mut j)?.is_none() || !j.findings.is_empty() { return Ok(j); }
    let cls: Vec<char> = sc.m("classes").chars().collect(); if cls.is_empty() || cls.len() != sc.w.solvers.len() { return Ok(j); }
    // a faultless world in which the same queries fail plainly and the others are answered plainly
    let has = |k: u64| sc.w.faults.iter().any(|f| f[0] == k); let failing: std::collections::BTreeSet<usize> = if has(F_SPAWN_ERR) || has(F_PIPE_ERR) { sc.m("failing").split(',').filter_map(|x| x.parse().ok()).collect() } else { Default::default() };
    let mut p = sc.w.clone(); p.params.clear(); p.faults.clear(); p.p(MODE, 0).p(MAX_EVENTS, 60_000_000).p(CPU_SECONDS, 20); p.solvers.clear(); let mut next = 0; let mut either = false;
    let total = o.cnt("spawns") as usize + failing.len();
    for q in 0..total.clamp(1, 60) { if failing.contains(&q) { p.solvers.push(bad()); } else { let c = cls[next % cls.len()]; next += 1; if c == 'e' { either = true; } p.solvers.push(if c == 'u' { good() } else { bad() }); } }
    if either || total > 60 { w.stats.hit("runs with replies that may or may not be usable"); return Ok(j); }
    let d = w.run_ref("cli", &p)?; if crash_of(&d).is_some() { return Ok(j); }
    if d.stdout() == o.stdout() && d.end == o.end { return Ok(j); }
    // which terms get names in the output depends on the terms in memory, also those of rejected replies: compare without names
    let (mut a, mut b) = (p.clone(), sc.w.clone()); for x in [&mut a, &mut b] { if !x.argv.iter().any(|t| t == "-v") { after_cmd(x, "-v"); } } w.stats.hit("compared without term names");
    let (d, o) = (w.run_ref("cli", &a)?, w.run("cli", &b)?);
    if d.stdout() != o.stdout() || d.end != o.end { j.bad("an unreliable solver changes the result", format!("scripts {}, failing {:?}: {}", sc.m("classes"), failing, first_diff(&d.stdout(), &o.stdout()))); }
    Ok(j)
}
