//! A scenario: everything needed to repeat one simulated case; serialised as the replay file.
use crate::json::J;
use crate::sim::{Op, World, FAULT_NAMES, PARAM_NAMES};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Scen {
    pub prop: String,
    pub kind: String,
    pub bin: String, // "cli" or "lib"
    pub case: u64,
    pub w: World,
    pub meta: BTreeMap<String, String>,
}
impl Scen {
    pub fn m(&self, k: &str) -> &str { self.meta.get(k).map_or("", |s| s.as_str()) }
    pub fn set(&mut self, k: &str, v: impl Into<String>) -> &mut Self { self.meta.insert(k.into(), v.into()); self }
    pub fn to_json(&self) -> J {
        let w = &self.w;
        J::obj(vec![
            ("property", J::s(&self.prop)), ("kind", J::s(&self.kind)), ("binary", J::s(&self.bin)), ("case", J::u(self.case)),
            ("argv", J::Arr(w.argv.iter().map(J::s).collect())),
            ("files", J::Arr(w.files.iter().map(|(n, c)| J::obj(vec![("name", J::s(n)), ("content", bytes(c))])).collect())),
            ("stdin", bytes(&w.stdin)),
            ("params", J::Obj(w.params.iter().map(|(k, v)| (PARAM_NAMES.iter().find(|x| x.1 == *k).map_or(format!("P{k}"), |x| x.0.to_string()), J::u(*v))).collect())),
            ("faults", J::Arr(w.faults.iter().map(|f| J::obj(vec![("kind", J::s(FAULT_NAMES[f[0] as usize])), ("args", J::Arr(f[1..].iter().map(|x| J::u(*x)).collect()))])).collect())),
            ("solvers", J::Arr(w.solvers.iter().map(|s| J::Arr(s.iter().map(|o| J::Arr(vec![J::u(o.op as u64), J::u(o.a as u64), J::u(o.b), J::u(o.c)])).collect())).collect())),
            ("blobs", J::Arr(w.blobs.iter().map(|(k, c)| J::obj(vec![("key", J::s(k)), ("content", bytes(c))])).collect())),
            ("schedule", match &w.switches { None => J::Null, Some(s) => J::Arr(s.iter().flat_map(|(e, t)| [J::u(*e), J::u(*t)]).collect()) }),
            ("meta", J::Obj(self.meta.iter().map(|(k, v)| (k.clone(), J::s(v))).collect())),
        ])
    }
    pub fn from_json(j: &J) -> Result<Scen, String> {
        let mut w = World::default();
        w.argv = j.get("argv").arr().iter().map(|x| x.str().to_string()).collect();
        for f in j.get("files").arr() { w.files.push((f.get("name").str().into(), unbytes(f.get("content")))); }
        w.stdin = unbytes(j.get("stdin"));
        for (k, v) in j.get("params").map() { let id = PARAM_NAMES.iter().find(|x| x.0 == k).map(|x| x.1).or_else(|| k.strip_prefix('P').and_then(|x| x.parse().ok())).ok_or(format!("param {k}"))?; w.params.insert(id, v.int()); }
        for f in j.get("faults").arr() { let mut a = [0u64; 6]; a[0] = FAULT_NAMES.iter().position(|x| *x == f.get("kind").str()).ok_or("fault kind")? as u64; for (i, x) in f.get("args").arr().iter().enumerate().take(5) { a[i + 1] = x.int(); } w.faults.push(a); }
        for s in j.get("solvers").arr() { w.solvers.push(s.arr().iter().map(|o| { let v = o.arr(); Op { op: v[0].int() as u32, a: v[1].int() as u32, b: v[2].int(), c: v[3].int() } }).collect()); }
        for b in j.get("blobs").arr() { w.blobs.push((b.get("key").str().into(), unbytes(b.get("content")))); }
        if let J::Arr(s) = j.get("schedule") { w.switches = Some(s.chunks(2).map(|c| (c[0].int(), c[1].int())).collect()); }
        Ok(Scen { prop: j.get("property").str().into(), kind: j.get("kind").str().into(), bin: j.get("binary").str().into(), case: j.get("case").int(), w, meta: j.get("meta").map().into_iter().map(|(k, v)| (k, v.str().to_string())).collect() })
    }
}
fn bytes(b: &[u8]) -> J {
    match std::str::from_utf8(b) { Ok(s) => J::s(s), Err(_) => J::obj(vec![("hex", J::s(b.iter().map(|x| format!("{x:02x}")).collect::<String>()))]) }
}
fn unbytes(j: &J) -> Vec<u8> {
    match j { J::Str(s) => s.clone().into_bytes(), J::Obj(_) => { let h = j.get("hex").str().as_bytes(); h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap_or(0)).collect() } _ => vec![] }
}
