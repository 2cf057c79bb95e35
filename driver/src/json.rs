//! Minimal JSON reader and writer.
use std::collections::BTreeMap;
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Int(i128), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }
impl J {
    pub fn s<T: Into<String>>(x: T) -> J { J::Str(x.into()) }
    pub fn u(x: u64) -> J { J::Int(x as i128) }
    pub fn obj(v: Vec<(&str, J)>) -> J { J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
    pub fn get(&self, k: &str) -> &J { match self { J::Obj(m) => m.get(k).unwrap_or(&J::Null), _ => &J::Null } }
    pub fn arr(&self) -> &[J] { match self { J::Arr(v) => v, _ => &[] } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => "" } }
    pub fn int(&self) -> u64 { match self { J::Int(i) => *i as u64, J::Num(f) => *f as u64, _ => 0 } }
    pub fn map(&self) -> BTreeMap<String, J> { match self { J::Obj(m) => m.clone(), _ => BTreeMap::new() } }
    pub fn render(&self) -> String { let mut o = String::new(); self.w(&mut o, 0); o.push('\n'); o }
    fn flat(&self) -> bool { match self { J::Arr(v) => v.iter().all(|x| matches!(x, J::Int(_) | J::Num(_) | J::Bool(_))) || v.is_empty(), J::Obj(m) => m.is_empty(), _ => true } }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"), J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(f) => { let _ = write!(o, "{}", f); } J::Int(i) => { let _ = write!(o, "{}", i); }
            J::Str(s) => esc(s, o),
            J::Arr(v) => { o.push('['); let fl = self.flat(); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } if !fl { o.push('\n'); o.push_str(&" ".repeat(ind + 1)); } x.w(o, ind + 1); } if !fl { o.push('\n'); o.push_str(&" ".repeat(ind)); } o.push(']'); }
            J::Obj(m) => { o.push('{'); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { o.push(','); } o.push('\n'); o.push_str(&" ".repeat(ind + 1)); esc(k, o); o.push_str(": "); x.w(o, ind + 1); } if !m.is_empty() { o.push('\n'); o.push_str(&" ".repeat(ind)); } o.push('}'); }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> { let b = s.as_bytes(); let mut p = 0; let v = val(b, &mut p)?; ws(b, &mut p); if p != b.len() { return Err("trailing data".into()); } Ok(v) }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 || c as u32 == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && b[*p].is_ascii_whitespace() { *p += 1; } }
fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() { return Err("eof".into()); }
    match b[*p] {
        b'{' => { *p += 1; let mut m = BTreeMap::new(); loop { ws(b, p); if b.get(*p) == Some(&b'}') { *p += 1; return Ok(J::Obj(m)); } if b.get(*p) == Some(&b',') { *p += 1; continue; } let k = match val(b, p)? { J::Str(s) => s, _ => return Err("key".into()) }; ws(b, p); if b.get(*p) != Some(&b':') { return Err("colon".into()); } *p += 1; let v = val(b, p)?; m.insert(k, v); } }
        b'[' => { *p += 1; let mut v = vec![]; loop { ws(b, p); if b.get(*p) == Some(&b']') { *p += 1; return Ok(J::Arr(v)); } if b.get(*p) == Some(&b',') { *p += 1; continue; } v.push(val(b, p)?); } }
        b'"' => { *p += 1; let mut o = vec![]; loop { let c = *b.get(*p).ok_or("eof in string")?; *p += 1; match c { b'"' => return String::from_utf8(o).map(J::Str).map_err(|e| e.to_string()), b'\\' => { let e = *b.get(*p).ok_or("eof")?; *p += 1; match e { b'n' => o.push(b'\n'), b't' => o.push(b'\t'), b'r' => o.push(b'\r'), b'b' => o.push(8), b'f' => o.push(12), b'u' => { let h = std::str::from_utf8(b.get(*p..*p + 4).ok_or("eof")?).unwrap_or("0"); let mut x = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?; *p += 4; if (0xd800..0xdc00).contains(&x) && b.get(*p) == Some(&b'\\') { let h = std::str::from_utf8(b.get(*p + 2..*p + 6).ok_or("eof")?).unwrap_or("0"); let y = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?; *p += 6; x = 0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00); } let mut t = [0; 4]; o.extend_from_slice(char::from_u32(x).unwrap_or('?').encode_utf8(&mut t).as_bytes()); } c => o.push(c) } } c => o.push(c) } } }
        b't' => { *p += 4; Ok(J::Bool(true)) } b'f' => { *p += 5; Ok(J::Bool(false)) } b'n' => { *p += 4; Ok(J::Null) }
        _ => { let s = *p; while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { *p += 1; } let t = std::str::from_utf8(&b[s..*p]).unwrap_or(""); if let Ok(i) = t.parse::<i128>() { Ok(J::Int(i)) } else { t.parse::<f64>().map(J::Num).map_err(|_| format!("bad token at {}", s)) } }
    }
}
