//! Committed workloads: real cvc5 proofs and the rule-test snippets.
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};
#[derive(Clone)]
pub struct Rec { pub name: String, pub flags: String, pub expect: String, pub problem: String, pub proof: String }
fn parse(t: &str) -> Vec<Rec> {
    let b = t.as_bytes(); let mut p = 0; let mut v = vec![];
    while p < b.len() {
        let e = p + t[p..].find('\n').unwrap(); let h: Vec<&str> = t[p + 4..e].split('\t').collect(); let (a, c): (usize, usize) = (h[3].parse().unwrap(), h[4].parse().unwrap());
        let pr = &t[e + 1..e + 1 + a]; let pf = &t[e + 2 + a..e + 2 + a + c];
        v.push(Rec { name: h[0].into(), flags: h[1].into(), expect: h[2].into(), problem: pr.into(), proof: pf.into() }); p = e + 3 + a + c;
    }
    v
}
pub struct Corpus { pub cvc5: Vec<Rec>, pub snip: Vec<Rec>, pub usable: Vec<usize> }
pub fn load() -> Corpus {
    let snip = parse(include_str!("../../corpus/snippets.txt"));
    let usable = include_str!("../../corpus/usable.txt").split_whitespace().map(|x| x.parse().unwrap()).collect();
    Corpus { cvc5: parse(include_str!("../../corpus/cvc5.txt")), snip, usable }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sx { A(String), L(Vec<Sx>) }
impl Sx {
    pub fn head(&self) -> &str { match self { Sx::L(v) => v.first().map_or("", |x| x.atom()), _ => "" } }
    pub fn atom(&self) -> &str { match self { Sx::A(s) => s, _ => "" } }
    pub fn list(&self) -> &[Sx] { match self { Sx::L(v) => v, _ => &[] } }
    pub fn show(&self, o: &mut String) { match self { Sx::A(s) => o.push_str(s), Sx::L(v) => { o.push('('); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(' '); } x.show(o); } o.push(')'); } } }
    pub fn text(&self) -> String { let mut s = String::new(); self.show(&mut s); s }
}
pub fn read(t: &str) -> Option<Vec<Sx>> {
    let b = t.as_bytes(); let mut st: Vec<Vec<Sx>> = vec![vec![]]; let mut p = 0;
    while p < b.len() {
        match b[p] {
            b';' => { while p < b.len() && b[p] != b'\n' { p += 1; } }
            c if c.is_ascii_whitespace() => p += 1,
            b'(' => { st.push(vec![]); p += 1; }
            b')' => { let v = st.pop()?; st.last_mut()?.push(Sx::L(v)); p += 1; }
            b'"' => { let s = p; p += 1; loop { if p >= b.len() { return None; } if b[p] == b'"' { if b.get(p + 1) == Some(&b'"') { p += 2; continue; } p += 1; break; } p += 1; } st.last_mut()?.push(Sx::A(t[s..p].into())); }
            b'|' => { let s = p; p += 1; while p < b.len() && b[p] != b'|' { p += 1; } p += 1; st.last_mut()?.push(Sx::A(t.get(s..p)?.into())); }
            _ => { let s = p; while p < b.len() && !b[p].is_ascii_whitespace() && !matches!(b[p], b'(' | b')' | b';' | b'"' | b'|') { p += 1; } st.last_mut()?.push(Sx::A(t[s..p].into())); }
        }
    }
    if st.len() == 1 { st.pop() } else { None }
}
/// The commands of a proof without a leading `unsat` and an extra pair of parentheses around them.
pub fn unwrap(mut v: Vec<Sx>) -> Vec<Sx> {
    if v.first().map_or(false, |x| x.atom() == "unsat") { v.remove(0); }
    if v.len() == 1 && (v[0].list().is_empty() && v[0].atom().is_empty() || matches!(v[0].list().first(), Some(Sx::L(_)))) { if let Some(Sx::L(w)) = v.pop() { return w; } }
    v
}
fn ren(x: &mut Sx, m: &HashMap<String, String>) { match x { Sx::A(s) => if let Some(n) = m.get(s) { *s = n.clone(); }, Sx::L(v) => { for y in v { ren(y, m); } } } }
fn ren_cmd(c: &mut Sx, syms: &HashMap<String, String>, ids: &HashMap<String, String>) {
    let Sx::L(v) = c else { return }; let h = v.first().map_or("", |x| x.atom()).to_string();
    let mut i = 1; if (h == "step" || h == "assume") && v.len() > 1 { ren(&mut v[1], ids); i = 2; }
    while i < v.len() {
        match v[i].atom() { ":rule" => i += 2, ":premises" | ":discharge" | ":step" => { if i + 1 < v.len() { ren(&mut v[i + 1], ids); } i += 2; } _ => { ren(&mut v[i], syms); i += 1; } }
    }
}
/// Problem and proof lines of one snippet, with its symbols and step ids renamed by `tag`.
pub fn instantiate(s: &Rec, tag: &str) -> Option<(Vec<String>, Vec<String>)> {
    let mut defs = read(&s.problem)?; let mut cmds = read(&s.proof)?;
    let mut syms = HashMap::new();
    for d in &defs { if matches!(d.head(), "declare-fun" | "declare-const" | "declare-sort" | "define-fun" | "define-fun-rec" | "declare-datatype" | "define-sort") { let n = d.list().get(1)?.atom(); if n.is_empty() || n.starts_with('|') { continue; } syms.insert(n.to_string(), format!("{n}{tag}")); } }
    let mut ids = HashMap::new();
    for c in &cmds { if matches!(c.head(), "step" | "assume") { let n = c.list().get(1)?.atom().to_string(); ids.insert(n.clone(), format!("{tag}{n}")); } if c.head() == "anchor" { for w in c.list().windows(2) { if w[0].atom() == ":step" { let n = w[1].atom().to_string(); ids.insert(n.clone(), format!("{tag}{n}")); } } } 
        if matches!(c.head(), "define-fun" | "define-const" | "declare-fun" | "declare-const" | "declare-sort" | "declare-rare-rule") { return None; } }
    for d in defs.iter_mut() { ren(d, &syms); }
    for c in cmds.iter_mut() { ren_cmd(c, &syms, &ids); }
    let mut depth = 0; let mut open: Vec<String> = vec![]; let mut asserts = vec![]; let mut seen = HashSet::new();
    for c in &cmds {
        match c.head() { "anchor" => { let l = c.list(); let i = l.iter().position(|x| x.atom() == ":step")?; open.push(l.get(i + 1)?.atom().into()); depth += 1; }
            "step" => { if open.last().map(|s| s.as_str()) == Some(c.list().get(1)?.atom()) { open.pop(); depth -= 1; } }
            "assume" if depth == 0 && !defs.iter().any(|d| d.head() == "assert") => { let t = c.list().get(2)?.text(); if seen.insert(t.clone()) { asserts.push(format!("(assert {t})")); } } _ => {} }
    }
    if !open.is_empty() { return None; }
    let mut pl: Vec<String> = defs.iter().map(|d| d.text()).collect(); pl.extend(asserts);
    Some((pl, cmds.iter().map(|c| c.text()).collect()))
}
pub const TAIL_PROBLEM: &str = "(declare-fun fin_p () Bool)\n(assert fin_p)\n(assert (not fin_p))\n";
pub const TAIL_PROOF: &str = "(assume fin_1 fin_p)\n(assume fin_2 (not fin_p))\n(step fin_3 (cl) :rule resolution :premises (fin_1 fin_2))\n";
/// Concatenates usable snippets; returns (problem, proof, does any use hole).
pub fn combine(c: &Corpus, r: &mut Rng, n: usize) -> (String, String) {
    let (mut pb, mut pf) = (String::new(), String::new());
    let shared = r.chance(1, 2);
    for k in 0..n {
        let s = &c.snip[c.usable[r.below(c.usable.len())]];
        if let Some((a, b)) = instantiate(s, &format!("_s{k}")) { for l in a { pb.push_str(&l); pb.push('\n'); } for l in b { pf.push_str(&l); pf.push('\n'); } }
        if shared && r.chance(1, 6) { pf.push_str(&format!("(step mid{k} (cl (= fin_p fin_p)) :rule eq_reflexive)\n")); }
    }
    pb.push_str(TAIL_PROBLEM); pf.push_str(TAIL_PROOF);
    (pb, pf)
}
