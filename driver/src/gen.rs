//! Workload generator: valid Alethe proofs by construction, with optional corrupted variants of
//! individual commands, nested subproofs, shared contexts, holes and unknown rules.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Line { pub id: String, pub text: String, pub bad: Option<(String, String)>, pub rule: String, pub depth: usize, pub anchor: bool }
#[derive(Clone, Debug, Default)]
pub struct Proof { pub problem: String, pub lines: Vec<Line>, pub expect: String, pub corrupted: Vec<String>, pub has_cl: bool, pub shadowing: Vec<String> }
impl Proof {
    pub fn text(&self) -> String { let mut s = String::new(); for l in &self.lines { s.push_str(&l.text); s.push('\n'); } s }
    pub fn corruptible(&self) -> Vec<usize> { (0..self.lines.len()).filter(|i| self.lines[*i].bad.is_some()).collect() }
    /// Corrupts up to `k` commands; often one whose validity hangs on which of two variables of the same name it means.
    pub fn corrupt_some(&mut self, r: &mut Rng, k: usize) { let mut c = self.corruptible(); let s: Vec<usize> = c.iter().copied().filter(|i| self.shadowing.contains(&self.lines[*i].id)).collect(); if !s.is_empty() && r.chance(1, 2) { c = vec![*r.pick(&s)]; } r.shuffle(&mut c); c.truncate(k); self.corrupt(&c); }
    /// Applies the corruption of the given lines.
    pub fn corrupt(&mut self, which: &[usize]) {
        for &i in which { let l = &mut self.lines[i]; if let Some((t, _)) = l.bad.clone() { l.text = t; self.corrupted.push(l.id.clone()); } }
        if !which.is_empty() { self.expect = "invalid".into(); }
    }
}

const SORTS: [&str; 2] = ["U", "Int"];
fn words(t: &str) -> impl Iterator<Item = &str> { t.split([' ', '(', ')']).filter(|w| !w.is_empty()) }
#[derive(Clone, Debug)]
struct V { l: String, r: String, sort: usize } // left-hand name, right-hand term
pub struct Gen<'a> { pub r: &'a mut Rng, cp: bool, lines: Vec<Line>, n: usize, prefix: Vec<String>, vars: Vec<V>, old: Vec<V>, nv: usize, pub size: usize, holes: usize, unknown: usize, max_depth: usize, corrupt_ok: bool, shadow: bool, shadowing: Vec<String>, hist: Vec<(usize, Vec<String>, String, String)> }

pub const PRELUDE: &str = "(set-logic ALL)\n(declare-sort U 0)\n(declare-fun c0 () U)\n(declare-fun c1 () U)\n(declare-fun c2 () U)\n(declare-fun c3 () U)\n(declare-fun f (U) U)\n(declare-fun g (U U) U)\n(declare-fun P (U) Bool)\n(declare-fun Q (U U) Bool)\n(declare-fun p0 () Bool)\n(declare-fun p1 () Bool)\n(declare-fun p2 () Bool)\n(declare-fun p3 () Bool)\n(declare-fun i0 () Int)\n(declare-fun i1 () Int)\n(declare-fun i2 () Int)\n(declare-fun h (Int) Int)\n(declare-fun R (Int) Bool)\n(declare-fun S (Int U) Bool)\n(declare-fun zzz () Bool)\n(declare-fun zu () U)\n(declare-fun f3 (U U U) U)\n(declare-fun f4 (U U U U) U)\n(declare-fun P3 (U U U) Bool)\n(assert p0)\n(assert (not p0))\n(assert (or p1 p2 p3))\n(assert (not p1))\n(assert (not p2))\n(assert (not p3))\n(assert (= c0 c1))\n(assert (= c1 c2))\n(assert (= c2 c3))\n(assert (= i0 i1))\n(assert (and p1 p2 p3))\n(assert (=> p0 p1))\n";

impl<'a> Gen<'a> {
    fn id(&mut self) -> String { self.n += 1; let mut s = self.prefix.join("."); if !s.is_empty() { s.push('.'); } format!("{s}t{}", self.n) }
    fn depth(&self) -> usize { self.prefix.len() }
    fn push(&mut self, id: &str, text: String, bad: Option<(String, String)>, rule: &str, anchor: bool) {
        let depth = self.depth(); let bad = if self.corrupt_ok { bad } else { None };
        self.lines.push(Line { id: id.into(), text, bad, rule: rule.into(), depth, anchor });
    }
    /// Remembers a step other steps may refer to, from the same subproof or from one inside it.
    fn remember(&mut self, id: &str, clause: &str) { let p = self.prefix.clone(); self.hist.retain(|h| p.starts_with(&h.1)); if self.hist.len() > 40 { let k = self.r.below(20); self.hist.remove(k); } self.hist.push((p.len(), p, id.into(), clause.into())); }
    fn recall(&mut self) -> Option<(String, Vec<String>)> {
        let p = self.prefix.clone(); self.hist.retain(|h| p.starts_with(&h.1)); if self.hist.is_empty() { return None; }
        let outer: Vec<usize> = (0..self.hist.len()).filter(|i| self.hist[*i].0 < p.len()).collect();
        let i = if !outer.is_empty() && self.r.chance(2, 3) { *self.r.pick(&outer) } else { self.r.below(self.hist.len()) };
        let (_, _, id, c) = self.hist[i].clone(); let l: Vec<String> = crate::corpus::read(&c)?.iter().map(|x| x.text()).collect(); if l.is_empty() || c.len() > 600 { return None; } Some((id, l))
    }
    /// Steps that use earlier ones, often from enclosing subproofs.
    fn reuse(&mut self) -> bool {
        let Some((id, l)) = self.recall() else { return false }; let zz = |c: String, r: &str, e: String| Some((c, r.to_string(), e)); let e = format!(" :premises ({id})");
        match self.r.below(5) {
            0 => { let w = self.gf(); let c = l.join(" "); self.leaf(&format!("{c} {w}"), "weakening", &e, zz(format!("zzz {c} {w}"), "weakening", e.clone())); }
            1 => { let mut m = l.clone(); self.r.shuffle(&mut m); let c = m.join(" "); self.leaf(&c, "reordering", &e, zz(format!("zzz {c}"), "reordering", e.clone())); }
            2 => { let c = l.join(" "); let a = l[0].clone(); let w = self.step(&format!("{c} {a}"), "weakening", &e); let e2 = format!(" :premises ({w})"); let mut seen = vec![]; for x in l.iter() { if !seen.contains(x) { seen.push(x.clone()); } } self.leaf(&seen.join(" "), "contraction", &e2, zz(format!("{} zzz", seen.join(" ")), "contraction", e2.clone())); }
            3 => { // several premises, most of them from outside
                let mut ps = vec![id.clone()]; for _ in 0..self.r.range(1, 4) { if let Some((i, _)) = self.recall() { if !ps.contains(&i) { ps.push(i); } } } self.holes += 1; let t = self.gf(); self.leaf(&format!("(or {t} (not {t}))"), "hole", &format!(" :premises ({})", ps.join(" ")), None); }
            _ => { let a = l[0].clone(); let w = self.gf(); let s = self.step(&format!("(or {a} {w}) (not {a})"), "or_neg", " :args (0)"); let rest = l[1..].to_vec(); if rest.contains(&a) || rest.iter().any(|x| x == &format!("(not {a})") || &format!("(not {x})") == &a) || l.iter().any(|x| x.starts_with("(not (not")) || w == a { return true; }
                let mut c = vec![format!("(or {a} {w})")]; for x in rest { if !c.contains(&x) { c.push(x); } } if c.len() > 1 && c.iter().any(|x| c.contains(&format!("(not {x})"))) { return true; }
                let e = format!(" :premises ({id} {s}) :args ({a} true)"); self.leaf(&c.join(" "), "resolution", &e, zz(format!("zzz {}", c.join(" ")), "resolution", e.clone())); }
        }
        true
    }
    fn arg_pairs(&mut self, n: usize, sort: usize) -> Vec<(String, String)> { let mut v: Vec<(String, String)> = vec![]; for _ in 0..n { let x = if !v.is_empty() && self.r.chance(1, 5) { v[self.r.below(v.len())].clone() } else { (self.atom_term(sort, 1, true).0, self.atom_term(sort, 1, true).0) }; v.push(x); } v }
    fn eq_either(&mut self, a: &str, b: &str) -> String { if self.r.chance(1, 2) { format!("(= {a} {b})") } else { format!("(= {b} {a})") } }
    /// Steps the elaborator rewrites: flipped and shuffled equalities, crowded resolutions, assumptions up to symmetry.
    fn elaborable(&mut self) {
        let zz = |c: String, r: &str, e: String| Some((c, r.to_string(), e));
        match self.r.below(7) {
            0 => { let n = self.r.range(2, 4); let ps = self.arg_pairs(n, 0); let es: Vec<String> = ps.iter().map(|(a, b)| { let e = self.eq_either(a, b); format!("(not {e})") }).collect(); let f = ["f", "g", "f3", "f4"][n - 1]; let (l, r): (Vec<_>, Vec<_>) = ps.into_iter().unzip();
                self.leaf(&format!("{} (= ({f} {}) ({f} {}))", es.join(" "), l.join(" "), r.join(" ")), "eq_congruent", "", zz(format!("{} (= ({f} {}) zu)", es.join(" "), l.join(" ")), "eq_congruent", String::new())); }
            1 => { let ps = self.arg_pairs(3, 0); let es: Vec<String> = ps.iter().map(|(a, b)| { let e = self.eq_either(a, b); format!("(not {e})") }).collect(); let (l, r): (Vec<_>, Vec<_>) = ps.into_iter().unzip(); let (x, y) = (format!("(P3 {})", l.join(" ")), format!("(P3 {})", r.join(" "))); let (x, y) = if self.r.chance(1, 2) { (format!("(not {x})"), y) } else { (x, format!("(not {y})")) };
                self.leaf(&format!("{} {x} {y}", es.join(" ")), "eq_congruent_pred", "", zz(format!("{} {x} zzz", es.join(" ")), "eq_congruent_pred", String::new())); }
            2 => { let n = self.r.range(2, 5); let ts: Vec<String> = (0..=n).map(|k| format!("(g c{} {})", k % 4, if k < 4 { "c0".to_string() } else { format!("(f c{})", k % 4) })).collect(); let mut es: Vec<String> = (0..n).map(|i| { let e = self.eq_either(&ts[i], &ts[i + 1]); format!("(not {e})") }).collect(); self.r.shuffle(&mut es); let c = self.eq_either(&ts[0], &ts[n]);
                self.leaf(&format!("{} {c}", es.join(" ")), "eq_transitive", "", zz(format!("{} (= {} zu)", es.join(" "), ts[0]), "eq_transitive", String::new())); }
            3 => { // assumed equalities inside a subproof, used flipped and out of order
                let n = self.r.range(2, 4); let (id, sv) = self.open(""); let ts: Vec<String> = (0..=n).map(|k| format!("(g c{k} c{})", self.r.below(4))).map(|t| t.replace("c4", "(f c0)")).collect(); let mut hs = vec![]; let mut ph = vec![];
                for i in 0..n { let e = self.eq_either(&ts[i], &ts[i + 1]); let h = format!("{}.q{i}", self.prefix.join(".")); self.push(&h, format!("(assume {h} {e})"), None, "assume", false); hs.push(h); ph.push(e); }
                let mut ps = hs.clone(); self.r.shuffle(&mut ps);
                let (a, b) = (ts[0].clone(), ts[n].clone());
                let mut ts2 = ts.clone(); ts2.sort(); ts2.dedup();
                if ts2.len() == ts.len() { let e = format!(" :premises ({})", ps.join(" ")); self.leaf(&format!("(= {a} {b})"), "trans", &e, zz(format!("(= {a} zu)"), "trans", e.clone())); }
                let e = format!(" :premises ({})", hs[0]); let (x, y) = (ts[0].clone(), ts[1].clone()); if x != y { self.leaf(&format!("(= (f {x}) (f {y}))"), "cong", &e, zz(format!("(= (f {x}) zu)"), "cong", e.clone())); }
                if self.r.chance(1, 2) { self.fillers(2); }
                let t = self.atom_term(0, 1, true).0; self.step(&format!("(= {t} {t})"), "refl", ""); let neg: Vec<String> = ph.iter().map(|a| format!("(not {a})")).collect(); let d = format!(" :discharge ({})", hs.join(" "));
                self.close(&id, sv, &format!("{} (= {t} {t})", neg.join(" ")), "subproof", &d, zz(format!("{} zzz", neg.join(" ")), "subproof", d.clone())); }
            4 => { // a resolution whose pivots come back before they are eliminated for good
                let n = self.r.range(3, 6); let atom = |k: usize| format!("(Q c{} c{})", k % 4, k / 4); let (id, sv) = self.open(""); let mut hs = vec![]; let mut ph = vec![]; let mut prem = vec![]; let mut args = vec![];
                // clause 0: a1..an r ; clause i eliminates a_i and may bring back later a_j, j > i
                let mut cls: Vec<Vec<String>> = vec![(1..=n).map(atom).chain([atom(0)]).collect()];
                for i in 1..=n { let mut c = vec![format!("(not {})", atom(i))]; for j in i + 1..=n { if self.r.chance(1, 2) { c.push(atom(j)); } } if c.len() == 1 || self.r.chance(1, 3) { c.push(atom(0)); } self.r.shuffle(&mut c); cls.push(c); args.push(format!("{} true", atom(i))); }
                for (i, c) in cls.iter().enumerate() { let h = format!("{}.q{i}", self.prefix.join(".")); let f = format!("(or {})", c.join(" ")); self.push(&h, format!("(assume {h} {f})"), None, "assume", false); hs.push(h); ph.push(f); }
                for (i, c) in cls.iter().enumerate() { let s = self.step(&c.join(" "), "or", &format!(" :premises ({})", hs[i])); prem.push(s); }
                let e = if self.r.chance(1, 2) { format!(" :premises ({}) :args ({})", prem.join(" "), args.join(" ")) } else { format!(" :premises ({})", prem.join(" ")) };
                let ru = if self.r.chance(1, 2) { "resolution" } else { "th_resolution" }; self.leaf(&atom(0), ru, &e, zz("zzz".into(), "resolution", e.clone()));
                let t = self.atom_term(0, 1, true).0; self.step(&format!("(= {t} {t})"), "refl", ""); let neg: Vec<String> = ph.iter().map(|a| format!("(not {a})")).collect(); let d = format!(" :discharge ({})", hs.join(" "));
                self.close(&id, sv, &format!("{} (= {t} {t})", neg.join(" ")), "subproof", &d, None); }
            5 => { let k = self.r.below(3); let a = format!("m{}", self.id().replace('.', "_")); if self.depth() == 0 { let (x, y) = (format!("c{}", k + 1), format!("c{k}")); self.push(&a, format!("(assume {a} (= {x} {y}))"), Some((format!("(assume {a} (= {x} (f {y})))"), "assume".into())), "assume", false); } }
            _ => { let (a, b) = (self.atom_term(0, 1, true).0, self.atom_term(0, 1, true).0); self.leaf(&format!("(= (= {a} {b}) (= {b} {a}))"), "refl", "", zz(format!("(= (= {a} {b}) zzz)"), "refl", String::new())); }
        }
    }
    fn step(&mut self, clause: &str, rule: &str, extra: &str) -> String {
        let id = self.id(); self.remember(&id, clause); self.push(&id, format!("(step {id} (cl {clause}) :rule {rule}{extra})"), None, rule, false); id
    }
    /// A step nobody refers to; `bad` is the clause/rest of its corrupted form.
    fn leaf(&mut self, clause: &str, rule: &str, extra: &str, bad: Option<(String, String, String)>) {
        let id = self.id();
        let b = bad.map(|(c, r, e)| (format!("(step {id} (cl {c}) :rule {r}{e})"), r));
        self.push(&id, format!("(step {id} (cl {clause}) :rule {rule}{extra})"), b, rule, false); self.remember(&id, clause);
    }
    fn atom_term(&mut self, sort: usize, d: usize, left: bool) -> (String, String) {
        // (left form, right form) of a term of the given sort over the variables in scope
        let _ = left;
        let vs: Vec<V> = self.vars.iter().filter(|v| v.sort == sort).cloned().collect();
        if !vs.is_empty() && self.r.chance(3, 5) { let v = &vs[self.r.below(vs.len())]; if d == 0 || self.r.chance(1, 2) { return (v.l.clone(), v.r.clone()); } }
        if d == 0 { let c = if sort == 0 { format!("c{}", self.r.below(4)) } else if self.r.chance(1, 3) { format!("{}", self.r.below(9)) } else { format!("i{}", self.r.below(3)) }; return (c.clone(), c); }
        if sort == 0 {
            if self.r.chance(1, 6) { let (a, b) = self.formula(0); let (c, e) = self.atom_term(0, d - 1, left); let (x, y) = self.atom_term(0, d - 1, left); return (format!("(ite {a} {c} {x})"), format!("(ite {b} {e} {y})")); }
            if self.r.chance(1, 2) { let (a, b) = self.atom_term(0, d - 1, left); (format!("(f {a})"), format!("(f {b})")) }
            else { let (a, b) = self.atom_term(0, d - 1, left); let (c, e) = self.atom_term(0, d - 1, left); (format!("(g {a} {c})"), format!("(g {b} {e})")) }
        } else {
            let (a, b) = self.atom_term(1, d - 1, left);
            match self.r.below(4) {
                0 => (format!("(h {a})"), format!("(h {b})")),
                1 => { let (c, e) = self.atom_term(1, d - 1, left); (format!("(+ {a} {c})"), format!("(+ {b} {e})")) }
                2 => { let (c, e) = self.atom_term(1, d - 1, left); (format!("(ite (R {c}) {a} {c})"), format!("(ite (R {e}) {b} {e})")) }
                _ => (format!("(* 2 {a})"), format!("(* 2 {b})")),
            }
        }
    }
    fn formula(&mut self, d: usize) -> (String, String) {
        if d > 0 && self.r.chance(1, 2) {
            let (a, b) = self.formula(d - 1);
            return match self.r.below(4) {
                0 => (format!("(not {a})"), format!("(not {b})")),
                1 => { let (c, e) = self.formula(d - 1); (format!("(and {a} {c})"), format!("(and {b} {e})")) }
                2 => { let (c, e) = self.formula(d - 1); (format!("(or {a} {c})"), format!("(or {b} {e})")) }
                _ => { let (c, e) = self.formula(d - 1); (format!("(=> {a} {c})"), format!("(=> {b} {e})")) }
            };
        }
        let td = self.r.below(3);
        match self.r.below(6) {
            0 => { let (a, b) = self.atom_term(0, td, true); (format!("(P {a})"), format!("(P {b})")) }
            1 => { let (a, b) = self.atom_term(0, td, true); let (c, e) = self.atom_term(0, td, true); (format!("(Q {a} {c})"), format!("(Q {b} {e})")) }
            2 => { let (a, b) = self.atom_term(1, td, true); (format!("(R {a})"), format!("(R {b})")) }
            3 => { let s = self.r.below(2); let (a, b) = self.atom_term(s, td, true); let (c, e) = self.atom_term(s, td, true); (format!("(= {a} {c})"), format!("(= {b} {e})")) }
            4 => { let (a, b) = self.atom_term(1, td, true); let (c, e) = self.atom_term(1, td, true); (format!("(< {a} {c})"), format!("(< {b} {e})")) }
            _ => { let (a, b) = self.atom_term(1, td, true); let (c, e) = self.atom_term(0, td, true); (format!("(S {a} {c})"), format!("(S {b} {e})")) }
        }
    }
    /// Quantified formula whose right-hand form uses a renamed bound variable (alpha-equivalent).
    fn qformula(&mut self) -> (String, String) {
        let s = self.r.below(2); let z = format!("z{}", self.r.below(3)); let w = if self.r.chance(2, 3) { format!("w{}", self.r.below(3)) } else { z.clone() };
        let keep = self.vars.clone(); self.vars.retain(|v| v.l != z && v.l != w && v.r != w && v.r != z);
        let hide = self.vars.iter().any(|v| v.r.contains(&w) || v.r.contains(&z)); if hide { self.vars.clear(); }
        self.vars.push(V { l: z.clone(), r: w.clone(), sort: s });
        let (a, b) = self.formula(1); self.vars = keep;
        let q = *self.r.pick(&["forall", "exists"]); let st = SORTS[s];
        (format!("({q} (({z} {st})) {a})"), format!("({q} (({w} {st})) {b})"))
    }
    fn form2(&mut self) -> (String, String) { if self.r.chance(1, 3) { self.qformula() } else { let d = self.r.below(3); self.formula(d) } }
    fn gf(&mut self) -> String { if self.r.chance(1, 4) { self.qformula().0 } else { let d = self.r.below(2); self.formula(d).0 } }

    /// A context-independent valid step (or short run of steps).
    fn filler(&mut self) {
        let zz = |c: &str, r: &str, e: &str| Some((c.to_string(), r.to_string(), e.to_string()));
        if self.r.chance(1, 6) && self.reuse() { return; }
        if self.r.chance(1, 8) { return self.elaborable(); }
        match self.r.below(27) {
            0 => { let (a, b) = (self.gf(), self.gf()); self.leaf(&format!("(not (and {a} {b})) {a}"), "and_pos", " :args (0)", zz(&format!("(not (and {a} {b})) zzz"), "and_pos", " :args (0)")); }
            1 => { let (a, b) = (self.gf(), self.gf()); self.leaf(&format!("(or {a} {b}) (not {b})"), "or_neg", " :args (1)", zz(&format!("(or {a} {b}) (not zzz)"), "or_neg", " :args (1)")); }
            2 => { let (a, b) = (self.gf(), self.gf()); self.leaf(&format!("(not (= {a} {b})) {a} (not {b})"), "equiv_pos1", "", zz(&format!("(not (= {a} {b})) zzz (not {b})"), "equiv_pos1", "")); }
            3 => { let (a, b) = (self.gf(), self.gf()); self.leaf(&format!("(not (=> {a} {b})) (not {a}) {b}"), "implies_pos", "", zz("zzz", "implies_pos", "")); }
            4 => { let a = self.gf(); self.leaf(&format!("(not (not (not {a}))) {a}"), "not_not", "", zz(&format!("(not (not {a})) {a}"), "not_not", "")); }
            5 => { let t = self.atom_term(0, 2, true).0; self.leaf(&format!("(= {t} {t})"), "eq_reflexive", "", zz("(= c0 c1)", "eq_reflexive", "")); }
            6 => { let t = self.atom_term(1, 2, true).0; self.leaf(&format!("(= {t} {t})"), "refl", "", zz("(= i0 (h i0))", "refl", "")); }
            7 => { let (a, b) = (self.atom_term(0, 1, true).0, self.atom_term(0, 1, true).0); self.leaf(&format!("(not (= {a} {b})) (= (f {a}) (f {b}))"), "eq_congruent", "", zz(&format!("(not (= {a} {b})) (= (f {a}) c3)"), "eq_congruent", "")); }
            8 => { let (a, b, c) = ("c0", "c1", self.atom_term(0, 1, true).0); self.leaf(&format!("(not (= {a} {b})) (not (= {b} {c})) (= {a} {c})"), "eq_transitive", "", zz(&format!("(not (= {a} {b})) (not (= {b} {c})) (= {a} (ite zzz c3 c2))"), "eq_transitive", "")); }
            9 => { let n = self.r.below(50); let t = self.atom_term(1, 1, true).0; self.leaf(&format!("(<= {t} {n}) (>= {t} {n})"), "la_generic", " :args (1 1)", zz(&format!("(<= (+ i2 (h i0)) {n}) (>= (+ i2 (h i0)) {})", n + 7), "la_generic", " :args (1 1)")); }
            10 => { let a = format!("(P {})", self.atom_term(0, 1, true).0); self.leaf(&format!("(= (and {a} true) {a})"), "and_simplify", "", zz(&format!("(= (and {a} true) zzz)"), "and_simplify", "")); }
            11 => { let a = format!("(R {})", self.atom_term(1, 1, true).0); self.leaf(&format!("(= (or {a} false) {a})"), "or_simplify", "", zz(&format!("(= (or {a} false) zzz)"), "or_simplify", "")); }
            12 => { self.leaf("true", "true", "", zz("false", "true", "")); }
            13 => { let t = self.atom_term(1, 1, true).0; self.leaf(&format!("(= (< {t} 5) (not (<= 5 {t})))"), "comp_simplify", "", zz(&format!("(= (< {t} 5) (not (<= 6 {t})))"), "comp_simplify", "")); }
            14 => { let (a, b) = (self.gf(), self.gf()); self.leaf(&format!("(= (= {a} {b}) (and (=> {a} {b}) (=> {b} {a})))"), "connective_def", "", zz(&format!("(= (= {a} {b}) (and (=> {a} {b}) zzz))"), "connective_def", "")); }
            15 => { // contraction/reordering of an earlier clause
                let (a, b) = (self.gf(), self.gf()); let s = self.step(&format!("(or {a} {b}) (not {a})"), "or_neg", " :args (0)");
                self.leaf(&format!("(not {a}) (or {a} {b})"), "reordering", &format!(" :premises ({s})"), zz(&format!("(not {a}) zzz"), "reordering", &format!(" :premises ({s})")));
            }
            16 => { let (a, b) = (self.gf(), self.gf()); let s = self.step(&format!("(not (and {a} {b})) {a}"), "and_pos", " :args (0)"); let w = self.gf();
                self.leaf(&format!("(not (and {a} {b})) {a} {w}"), "weakening", &format!(" :premises ({s})"), zz(&format!("{a} {w}"), "weakening", &format!(" :premises ({s})"))); }
            17 => { let t = self.atom_term(0, 1, true).0; let s = self.step(&format!("(= (f {t}) (f {t}))"), "refl", ""); self.leaf(&format!("(= (f {t}) (f {t}))"), "symm", &format!(" :premises ({s})"), zz(&format!("(= (f {t}) c1)"), "symm", &format!(" :premises ({s})"))); }
            18 => { let n = self.r.range(2, 6); let t = self.atom_term(0, 1, true).0; let mut ps = vec![]; for _ in 0..n { ps.push(self.step(&format!("(= {t} {t})"), "refl", "")); } self.leaf(&format!("(= {t} {t})"), "trans", &format!(" :premises ({})", ps.join(" ")), zz(&format!("(= {t} (ite zzz c3 c2))"), "trans", &format!(" :premises ({})", ps.join(" ")))); }
            19 => { let (a, b) = (self.gf(), self.gf()); let s1 = self.step(&format!("(or {a} {b}) (not {a})"), "or_neg", " :args (0)"); let s2 = self.step(&format!("(not (or {a} {b})) {a} {b}"), "or_pos", "");
                self.leaf(&format!("{a} {b} (not {a})"), "resolution", &format!(" :premises ({s2} {s1})"), zz("zzz", "resolution", &format!(" :premises ({s2} {s1})"))); }
            20 => { // cong over refls
                let (x, y) = (self.atom_term(0, 1, true).0, self.atom_term(0, 1, true).0); let s1 = self.step(&format!("(= {x} {x})"), "refl", ""); let s2 = self.step(&format!("(= {y} {y})"), "refl", "");
                self.leaf(&format!("(= (g {x} {y}) (g {x} {y}))"), "cong", &format!(" :premises ({s1} {s2})"), zz(&format!("(= (g {x} {y}) (g {x} (f {y})))"), "cong", &format!(" :premises ({s1} {s2})"))); }
            21 => { let a = self.gf(); self.leaf(&format!("(= (=> {a} false) (not {a}))"), "implies_simplify", "", zz(&format!("(= (=> {a} false) {a})"), "implies_simplify", "")); }
            22 => { let t = self.r.below(4); let u = self.r.below(3); self.leaf(&format!("(not (= c{t} c{t})) (P c{u}) (not (P c{u}))"), "hole", "", None); self.holes += 1; }
            23 => { let a = self.gf(); let b = self.gf(); self.leaf(&format!("(not (xor {a} {b})) {a} {b}"), "xor_pos1", "", zz(&format!("(not (xor {a} {b})) zzz {b}"), "xor_pos1", "")); }
            24 => { let t = self.atom_term(0, 1, true).0; self.leaf(&format!("(or (not (forall ((z0 U)) (P (g z0 c1)))) (P (g {t} c1)))"), "forall_inst", &format!(" :args ({t})"), zz(&format!("(or (not (forall ((z0 U)) (P (g z0 c1)))) (P (g {t} c2)))"), "forall_inst", &format!(" :args ({t})"))); }
            25 => { let t = self.atom_term(1, 1, true).0; self.leaf(&format!("(= (= {t} {t}) true)"), "eq_simplify", "", zz(&format!("(= (= {t} {t}) false)"), "eq_simplify", "")); }
            _ => { let (a, b) = (self.gf(), self.gf()); self.leaf(&format!("(not (ite {a} {b} true)) (not {a}) {b}"), "ite_pos2", "", zz(&format!("(not (ite {a} {b} true)) {a} {b}"), "ite_pos2", "")); }
        }
    }
    fn fillers(&mut self, max: usize) { let n = self.r.below(max + 1); for _ in 0..n { if self.size == 0 { return; } self.size -= 1; self.filler(); } }
    /// The given names get a new meaning: variables called so, or renamed to terms over them, are out of reach.
    fn hide(&mut self, names: &[String]) {
        let hidden = |t: &str| words(t).any(|w| names.iter().any(|n| n == w)); let mut gone = vec![]; self.hist.retain(|h| !hidden(&h.3));
        self.vars.retain(|v| { let h = names.contains(&v.l) || hidden(&v.r); if h { gone.push(v.clone()); } !h }); self.old.retain(|v| !hidden(&v.r));
        for v in gone { if names.contains(&v.l) && !hidden(&v.r) { self.old.push(v); } }
    }
    /// A name for a variable of a new context: often one that is in use already.
    fn name(&mut self, fresh: String, taken: &[String], sort: usize) -> String {
        if !self.shadow || self.r.chance(3, 5) { return fresh; }
        let c: Vec<String> = self.vars.iter().chain(&self.old).filter(|v| v.sort == sort).flat_map(|v| [v.l.clone(), v.r.clone()]).filter(|n| n.starts_with(['x', 'y', 'v', 'z']) && !taken.contains(n)).collect();
        let n = if c.is_empty() { return fresh } else { self.r.pick(&c).clone() };
        for v in self.vars.clone() { if v.l == n && v.l != v.r && self.r.chance(3, 4) { let p = if v.sort == 0 { "P" } else { "R" }; self.leaf(&format!("(= ({p} {}) ({p} {}))", v.l, v.r), "refl", "", None); } }
        n
    }
    /// refl across the current context
    fn ctx_leaf(&mut self) {
        let c: Vec<(V, V)> = self.vars.iter().filter_map(|v| self.old.iter().rev().find(|o| o.l == v.l && o.sort == v.sort && o.r != v.r).map(|o| (v.clone(), o.clone()))).collect();
        if !c.is_empty() && self.r.chance(3, 4) { let (v, o) = self.r.pick(&c).clone(); let p = if v.sort == 0 { "P" } else { "R" }; self.leaf(&format!("(= ({p} {}) ({p} {}))", v.l, v.r), "refl", "", Some((format!("(= ({p} {}) ({p} {}))", v.l, o.r), "refl".into(), String::new()))); let id = self.lines.last().unwrap().id.clone(); self.shadowing.push(id); return; }
        let (a, b) = self.form2(); let id = self.id();
        let bad = if a != b { Some((format!("(step {id} (cl (= {a} (and zzz {b}))) :rule refl)"), "refl".to_string())) } else { None };
        self.push(&id, format!("(step {id} (cl (= {a} {b})) :rule refl)"), bad, "refl", false);
    }
    fn open(&mut self, args: &str) -> (String, usize) {
        let id = self.id(); let n = self.n;
        self.push(&id, if args.is_empty() { format!("(anchor :step {id})") } else { format!("(anchor :step {id} :args ({args}))") }, None, "anchor", true);
        // local names
        let local = id.rsplit('.').next().unwrap().to_string(); self.prefix.push(local); self.n = 0; (id, n)
    }
    fn close(&mut self, id: &str, saved: usize, clause: &str, rule: &str, extra: &str, bad: Option<(String, String, String)>) {
        let d = self.depth(); self.prefix.pop(); self.n = saved;
        let b = bad.map(|(c, r, e)| (format!("(step {id} (cl {c}) :rule {r}{e})"), r));
        let b = if self.corrupt_ok { b } else { None };
        self.lines.push(Line { id: id.into(), text: format!("(step {id} (cl {clause}) :rule {rule}{extra})"), bad: b, rule: rule.into(), depth: d, anchor: false }); self.remember(id, clause);
    }
    /// Emits commands whose last one is a step proving (= L R) under the current context; returns (L, R, id).
    fn eq_body(&mut self) -> (String, String, String) {
        let f = if self.size > 4 { 3 } else { 1 };
        self.fillers(f);
        if self.r.chance(1, 3) { self.ctx_leaf(); }
        if self.depth() < self.max_depth && self.size > 0 && self.r.chance(3, 5) {
            self.size = self.size.saturating_sub(1);
            if self.r.chance(1, 5) { // congruence over two nested equalities
                let (l1, r1, i1) = self.ctx(); let (l2, r2, i2) = self.eq_body();
                let op = *self.r.pick(&["and", "or", "=>"]); let (l, r) = (format!("({op} {l1} {l2})"), format!("({op} {r1} {r2})"));
                let id = self.step(&format!("(= {l} {r})"), "cong", &format!(" :premises ({i1} {i2})")); return (l, r, id);
            }
            return self.ctx();
        }
        if self.r.chance(1, 4) { // congruence of two refls
            let (l1, r1) = self.formula(1); let (l2, r2) = self.formula(1); let i1 = self.step(&format!("(= {l1} {r1})"), "refl", ""); let i2 = self.step(&format!("(= {l2} {r2})"), "refl", "");
            let id = self.step(&format!("(= (or {l1} {l2}) (or {r1} {r2}))"), "cong", &format!(" :premises ({i1} {i2})")); return (format!("(or {l1} {l2})"), format!("(or {r1} {r2})"), id);
        }
        let (l, r) = self.form2();
        if self.r.chance(1, 12) { self.holes += 1; let id = self.step(&format!("(= {l} {r})"), "hole", ""); return (l, r, id); }
        let id = self.step(&format!("(= {l} {r})"), "refl", "");
        (l, r, id)
    }
    /// A subproof concluding (= L' R') in the enclosing context.
    fn ctx(&mut self) -> (String, String, String) {
        let s = self.r.below(2); let st = SORTS[s]; self.nv += 1; let k = self.nv;
        let (x, _y) = (format!("x{k}"), format!("y{k}"));
        let zz = |c: &str, r: &str, e: &str| Some((c.to_string(), r.to_string(), e.to_string()));
        match self.r.below(6) {
            0 | 1 => { // bind, possibly over several variables and with passive extra binders
                let m = self.r.range(1, 3); let mut args = vec![]; let (mut lb, mut rb) = (vec![], vec![]); let (keep, keep_old) = (self.vars.clone(), self.old.clone()); let mut asg = vec![]; let mut new: Vec<V> = vec![]; let mut taken: Vec<String> = vec![];
                for j in 0..m { let s = self.r.below(2);
                    let l = self.name(format!("x{k}_{j}"), &taken, s); taken.push(l.clone()); let again = self.vars.iter().any(|v| v.l == l); let r = if self.r.chance(if again { 2 } else { 1 }, 4) { l.clone() } else { self.name(format!("y{k}_{j}"), &taken, s) }; taken.push(r.clone()); new.push(V { l, r, sort: s }); }
                if m > 1 && !self.shadow && self.r.chance(1, 3) { let z = format!("z{}", self.r.below(3)); if !self.vars.iter().any(|v| v.l == z || words(&v.r).any(|w| w == z)) { new[1].l = z.clone(); new[1].r = z; } }
                self.hide(&taken);
                for V { l, r, sort } in &new { let st = SORTS[*sort]; args.push(format!("({r} {st})")); if l != r || self.r.chance(1, 3) { asg.push(format!("(:= ({l} {st}) {r})")); } lb.push(format!("({l} {st})")); rb.push(format!("({r} {st})")); }
                self.vars.extend(new); args.extend(asg);
                let (id, sv) = self.open(&args.join(" ")); if self.old.len() > keep_old.len() && self.r.chance(1, 2) { self.ctx_leaf(); } let (l, r, _) = self.eq_body(); self.vars = keep; self.old = keep_old;
                let q = *self.r.pick(&["forall", "exists"]); let (lb, rb) = (lb.join(" "), rb.join(" "));
                let (l2, r2) = (format!("({q} ({lb}) {l})"), format!("({q} ({rb}) {r})"));
                self.close(&id, sv, &format!("(= {l2} {r2})"), "bind", "", zz(&format!("(= {l2} (and zzz {r2}))"), "bind", "")); (l2, r2, id)
            }
            2 => { // let
                let (t, u) = self.atom_term(s, 1, true); let mut v = self.name(format!("v{k}"), &[], s); if words(&u).any(|w| w == v) { v = format!("v{k}"); }
                let prem = if t != u && self.r.chance(2, 3) { let i = self.step(&format!("(= {t} {u})"), "refl", ""); Some(i) } else { None };
                let val = if prem.is_some() { u.clone() } else { t.clone() };
                let (keep, keep_old) = (self.vars.clone(), self.old.clone()); self.hide(&[v.clone()]); self.vars.push(V { l: v.clone(), r: u.clone(), sort: s });
                let (id, sv) = self.open(&format!("(:= ({v} {st}) {val})")); let (l, r, _) = self.eq_body(); self.vars = keep; self.old = keep_old;
                let l2 = format!("(let (({v} {t})) {l})"); let e = prem.map_or(String::new(), |p| format!(" :premises ({p})"));
                self.close(&id, sv, &format!("(= {l2} {r})"), "let", &e, zz(&format!("(= {l2} (or zzz {r}))"), "let", &e)); (l2, r, id)
            }
            3 => { // onepoint
                let (keep, keep_old) = (self.vars.clone(), self.old.clone()); let x = self.name(x, &[], s); self.hide(&[x.clone()]); let (t, u) = self.atom_term(s, 1, true);
                self.vars.push(V { l: x.clone(), r: u.clone(), sort: s });
                let (id, sv) = self.open(&format!("(:= ({x} {st}) {u})"));
                let (l, r, i) = self.eq_body();
                let (lb, rb) = (format!("(=> (= {x} {t}) {l})"), format!("(=> (= {u} {u}) {r})"));
                let e = self.step(&format!("(= (= {x} {t}) (= {u} {u}))"), "refl", "");
                self.step(&format!("(= {lb} {rb})"), "cong", &format!(" :premises ({e} {i})"));
                self.vars = keep; self.old = keep_old; let l2 = format!("(forall (({x} {st})) {lb})");
                self.close(&id, sv, &format!("(= {l2} {rb})"), "onepoint", "", zz(&format!("(= {l2} zzz)"), "onepoint", "")); (l2, rb, id)
            }
            4 => { // skolemisation over an atomic body, only under contexts without pending renamings of its body
                let ex = self.r.chance(1, 2); let c = if s == 0 { "P" } else { "R" }; let f = if s == 0 { format!("f") } else { "h".into() };
                let (keep, keep_old) = (self.vars.clone(), self.old.clone()); self.hide(&[x.clone()]); // the body may mention a variable the enclosing contexts rename
                let cand: Vec<V> = self.vars.iter().filter(|v| v.sort == s).cloned().collect(); let outer = if !cand.is_empty() && self.r.chance(1, 2) { Some(self.r.pick(&cand).clone()) } else { None };
                let at = move |v: &str, w: Option<&str>| match w { Some(w) => format!("(= ({f} {v}) {w})"), None => format!("({c} ({f} {v}))") };
                let (wl, wr) = (outer.as_ref().map(|v| v.l.as_str()), outer.as_ref().map(|v| v.r.as_str())); let body = |v: &str| at(v, wr);
                let ch = if ex { format!("(choice (({x} {st})) {})", body(&x)) } else { format!("(choice (({x} {st})) (not {}))", body(&x)) };
                let (id, sv) = self.open(&format!("(:= ({x} {st}) {ch})")); self.fillers(1);
                let (l, r) = (at(&x, wl), body(&ch)); self.step(&format!("(= {l} {r})"), "refl", ""); self.vars = keep; self.old = keep_old;
                let q = if ex { "exists" } else { "forall" }; let l2 = format!("({q} (({x} {st})) {l})");
                let rule = if ex { "sko_ex" } else { "sko_forall" };
                self.close(&id, sv, &format!("(= {l2} {r})"), rule, "", zz(&format!("(= {l2} zzz)"), rule, "")); (l2, r, id)
            }
            _ => { // plain subproof inside the equality chain, then go on
                if self.size > 2 { self.subproof(); }
                let (l, r) = self.form2(); let id = self.step(&format!("(= {l} {r})"), "refl", ""); (l, r, id)
            }
        }
    }
    /// assume/discharge subproof
    fn subproof(&mut self) {
        let m = self.r.below(4); let (id, sv) = self.open(""); let mut hs = vec![]; let mut phis = vec![];
        for j in 0..m { let a = if self.r.chance(1, 2) { format!("p{}", self.r.below(4)) } else { self.gf() }; let h = format!("{}.h{}", self.prefix.join("."), j); let t = format!("(assume {h} {a})"); self.push(&h, t, None, "assume", false); hs.push(h); phis.push(a); }
        self.fillers(3);
        if self.depth() < self.max_depth && self.size > 0 && self.r.chance(1, 2) { self.size -= 1; if self.r.chance(1, 2) { self.subproof(); } else { self.ctx(); } self.fillers(1); }
        let zz = |c: &str, r: &str, e: &str| Some((c.to_string(), r.to_string(), e.to_string()));
        let neg: Vec<String> = phis.iter().map(|a| format!("(not {a})")).collect();
        let d = if hs.is_empty() { String::new() } else { format!(" :discharge ({})", hs.join(" ")) };
        match self.r.below(4) {
            0 => { let (a, b) = (self.gf(), self.gf()); self.step(&format!("(not (and {a} true)) {a}"), "and_pos", " :args (0)"); let t = format!("(or {b} (not {b}))"); self.holes += 1; self.step(&t, "hole", ""); self.close(&id, sv, &format!("{} {t}", neg.join(" ")), "subproof", &d, zz(&format!("{} zzz", neg.join(" ")), "subproof", &d)); }
            1 if m >= 1 => { let j = self.r.below(m); let w = self.gf(); let s = self.step(&format!("{} {w}", phis[j]), "weakening", &format!(" :premises ({})", hs[j])); let o = self.step(&format!("{} {w} (not (and p0 p1)) p0", phis[j]), "weakening", &format!(" :premises ({s})")); let _ = o; let t = self.atom_term(0, 1, true).0; self.step(&format!("(= {t} {t})"), "eq_reflexive", "");
                let bad = if m > 1 { zz(&format!("{} (= {t} {t})", neg[..m - 1].join(" ")), "subproof", &format!(" :discharge ({})", hs[..m - 1].join(" "))) } else { zz(&format!("{} (= {t} c2)", neg.join(" ")), "subproof", &d) };
                self.close(&id, sv, &format!("{} (= {t} {t})", neg.join(" ")), "subproof", &d, bad); }
            2 if m >= 1 => { // (cl) inside the subproof by contradiction with a hypothesis
                let a = phis[0].clone(); self.holes += 1; let n = self.step(&format!("(not {a})"), "hole", ""); self.step("", "resolution", &format!(" :premises ({} {n})", hs[0])); self.close(&id, sv, &format!("{} false", neg.join(" ")), "subproof", &d, zz(&format!("{} true", neg.join(" ")), "subproof", &d)); }
            _ => { let t = self.atom_term(1, 1, true).0; self.step(&format!("(= {t} {t})"), "refl", ""); self.close(&id, sv, &format!("{} (= {t} {t})", neg.join(" ")), "subproof", &d, zz(&format!("{} (= {t} (h {t}))", neg.join(" ")), "subproof", &d)); }
        }
    }
    /// Cutting-planes steps over literals without variables, among steps that take those literals apart.
    fn cutting(&mut self) {
        let zz = |c: String, r: &str, e: String| Some((c, r.to_string(), e));
        let k = self.r.below(1000) * 7 + self.n; let n = k + 3 + self.r.below(9);
        let a = match self.r.below(4) { 0 => format!("(< {k} {n})"), 1 => format!("(= {k} {n})"), 2 => format!("(= (let ((zcp {k})) zcp) {n})"), _ => format!("(not (= {k} {n}))") };
        let l = match self.r.below(3) { 0 => format!("(ite {a} 1 0)"), 1 => format!("(ite {a} {n} {k})"), _ => format!("(ite (R i0) 0 (ite {a} 1 0))") };
        let (c, d, e, f) = (self.r.range(1, 6), self.r.range(1, 6), self.r.range(0, 9), self.r.range(0, 9)); let (id, sv) = self.open(""); let p = self.prefix.join(".");
        let (f1, f2) = (format!("(>= (* {c} {l}) {e})"), format!("(>= (* {d} {l}) {f})"));
        for (h, t) in [("q1", &f1), ("q2", &f2)] { let h = format!("{p}.{h}"); self.push(&h, format!("(assume {h} {t})"), None, "assume", false); }
        let touch = |g: &mut Self| { let t = format!("(or (not (forall ((ycp Int)) (= ycp {l}))) (= {k} {l}))"); g.leaf(&t, "forall_inst", &format!(" :args ({k})"), None) };
        let mut last = (f1.clone(), format!("{p}.q1"));
        for _ in 0..self.r.range(1, 4) {
            if self.r.chance(1, 2) { touch(self); }
            let x = format!(" :premises ({p}.q1 {p}.q2)"); let t = format!("(>= (* {} {l}) {})", c + d, e + f); let b = if self.r.chance(1, 3) { format!("(>= {l} {})", e + f) } else { format!("(>= (* {} {l}) {})", c + d, e + f + 1) }; self.leaf(&t, "cp_addition", &x, zz(b, "cp_addition", x.clone()));
            let m = self.r.range(2, 5); let x = format!(" :premises ({}) :args ({m})", last.1); let t = format!("(>= (* {} {l}) {})", c * m, e * m); let i = self.step(&t, "cp_multiplication", &x); if self.r.chance(1, 3) { let x = format!(" :premises ({i}) :args ({m})"); self.leaf(&f1, "cp_division", &x, zz(f2.replace(&format!("(* {d} "), &format!("(* {} ", c + 1)), "cp_division", x.clone())); }
            last = (f1.clone(), format!("{p}.q1"));
        }
        if self.r.chance(1, 2) { touch(self); }
        let t = self.atom_term(0, 1, true).0; self.step(&format!("(= {t} {t})"), "refl", "");
        let (x, y) = (format!(" :discharge ({p}.q1 {p}.q2)"), format!("(not {f1}) (not {f2}) (= {t} {t})")); self.close(&id, sv, &y, "subproof", &x, None);
    }
    fn top_item(&mut self) {
        if self.cp && self.r.chance(2, 3) || self.r.chance(1, 40) { return self.cutting(); }
        match self.r.below(10) {
            0..=2 => self.filler(),
            3..=5 => { self.ctx(); }
            6 | 7 => self.subproof(),
            8 => { // resolution on the problem's assertions
                let k = self.n; let a = format!("a{k}o"); self.push(&a, format!("(assume {a} (or p1 p2 p3))"), Some((format!("(assume {a} (or p1 p2 p3 zzz))"), "assume".into())), "assume", false);
                let o = self.step("p1 p2 p3", "or", &format!(" :premises ({a})")); let n1 = format!("a{k}n"); self.push(&n1, format!("(assume {n1} (not p1))"), None, "assume", false);
                let r1 = self.step("p2 p3", "resolution", &format!(" :premises ({o} {n1})")); let n2 = format!("a{k}m"); self.push(&n2, format!("(assume {n2} (not p2))"), None, "assume", false);
                self.leaf("p3", "resolution", &format!(" :premises ({r1} {n2})"), Some(("zzz".into(), "resolution".into(), format!(" :premises ({r1} {n2})")))); }
            _ => { // equality chain over assumed equalities
                let k = self.n; let mut ps = vec![]; for j in 0..3 { let a = format!("e{k}_{j}"); self.push(&a, format!("(assume {a} (= c{j} c{}))", j + 1), Some((format!("(assume {a} (= c{j} (f c{})))", j + 1), "assume".into())).filter(|_| false), "assume", false); ps.push(a); }
                let t = self.step("(= c0 c3)", "trans", &format!(" :premises ({})", ps.join(" "))); self.leaf("(= (f c0) (f c3))", "cong", &format!(" :premises ({t})"), Some(("(= (f c0) (f c2))".into(), "cong".into(), format!(" :premises ({t})")))); }
        }
    }
}

pub struct Opts { pub size: usize, pub depth: usize, pub holes: bool, pub end: usize }
/// end: 0 conclude (cl) at the end, 1 conclude in the middle, 2 never, 3 only inside a subproof, 4 as closing step of a subproof
pub fn generate(r: &mut Rng, o: &Opts) -> Proof {
    let shadow = r.chance(1, 2); let cp = r.chance(1, 14); let mut g = Gen { cp, r, shadow, shadowing: vec![], lines: vec![], n: 0, prefix: vec![], vars: vec![], old: vec![], nv: 0, size: o.size, holes: 0, unknown: 0, max_depth: o.depth, corrupt_ok: true, hist: vec![] };
    let concl = |g: &mut Gen| { g.push("k1", "(assume k1 p0)".into(), None, "assume", false); g.push("k2", "(assume k2 (not p0))".into(), None, "assume", false); let n = "kend".to_string(); g.push(&n, format!("(step {n} (cl) :rule resolution :premises (k1 k2))"), None, "resolution", false); };
    let mid = if o.end == 1 { Some(g.r.below(o.size.max(1))) } else { None };
    let mut done = false;
    if g.r.chance(1, 4) { let n = g.r.range(2, 7); for i in 0..n { let k = g.r.below(3); let a = format!("hard{i}"); let t = format!("(assume {a} (= c{} c{k}))", k + 1); g.push(&a, t, None, "assume", false); } } // assumptions that are not literally in the problem
    while g.size > 0 { g.size -= 1; if let Some(m) = mid { if !done && g.size <= m { concl(&mut g); done = true; } } g.top_item(); }
    match o.end { 0 => concl(&mut g), 1 => if !done { concl(&mut g) }, 3 => { let (id, sv) = g.open(""); g.push("ss.h1", "(assume ss.h1 p0)".into(), None, "assume", false); g.push("ss.h2", "(assume ss.h2 (not p0))".into(), None, "assume", false); g.step("", "resolution", " :premises (ss.h1 ss.h2)"); g.close(&id, sv, "(not p0) (not (not p0)) false", "subproof", " :discharge (ss.h1 ss.h2)", None); },
        4 => { let (id, sv) = g.open(""); g.fillers(2); g.step("true", "true", ""); g.holes += 1; g.close(&id, sv, "", "hole", "", None); g.size = 1; if g.r.chance(1, 2) { g.filler(); } } _ => {} }
    let shadowing = std::mem::take(&mut g.shadowing); let (holes, _u) = (g.holes, g.unknown);
    let mut lines = g.lines;
    if !o.holes { // replace every hole by an always-valid formulation is not possible in general: drop to rules allowed by construction
        for l in lines.iter_mut() { if l.rule == "hole" { l.bad = None; } }
    }
    let has_cl = matches!(o.end, 0 | 1) || o.end == 4;
    let expect = if !has_cl { "invalid" } else if holes > 0 { "holey" } else { "valid" };
    Proof { problem: format!("{PRELUDE}(check-sat)\n"), lines: std::mem::take(&mut lines), expect: expect.into(), corrupted: vec![], has_cl, shadowing }
}
