//! Credentials as JSON, and the reference reading of constraints.
use pbt::{gen, Src};
use serde_json::{json, Map, Value};
use vercre_dif_exch::Claims;

use crate::{jpath, re};

pub struct Json(pub Value);
impl Claims for Json { fn to_json(&self) -> anyhow::Result<Value> { Ok(self.0.clone()) } }
/// Claims that cannot be serialized.
pub struct Broken;
impl Claims for Broken { fn to_json(&self) -> anyhow::Result<Value> { Err(anyhow::anyhow!("broken")) } }

pub const DATES: &[&str] = &["2023-11-20", "2024-02-29", "2023-02-29", "1900-02-29", "2000-02-29", "2023-13-01", "2023-00-10", "2023-04-31", "2023-04-30", "0000-01-01", "9999-12-31", "2023-1-1x", "20231120", "2023-11", "", "2023-11-20T", "Tuesday", " 2023-11-20", "2023-11-20 ", "+2023-11-20", "-2023-11-20", "2023-11-2", "2023-011-20", "12023-11-20", "2023/11/20", "20-11-2023", "2023-11-31", "2023-06-31", "2100-02-29", "2023-11-20Z", "2023-W47-1", "2023-324"];
pub const TIMES: &[&str] = &["2023-11-20T23:21:55Z", "2023-11-20T23:21:55.123Z", "2023-11-20T23:21:55+13:00", "2023-11-20T23:21:55-00:30", "2023-02-29T00:00:00Z", "2024-02-29T23:59:59Z", "2023-11-20T24:00:00Z", "2023-11-20T23:60:00Z", "2023-11-20T23:21:55", "2023-11-20T23:21Z", "2023-11-20", "2023-11-20T23:21:55+25:00", "T23:21:55Z", "", "now", "2023-11-20T23:21:55Z ", " 2023-11-20T23:21:55Z", "2023-11-20T23:21:55+1300", "2023-11-20T23:21:55+13", "2023-11-20T23:21:55.Z", "2023-11-20T23:21:55.123456789Z", "2023-11-20T23:21:55,5Z", "23:21:55Z", "2023-11-20T2:21:55Z", "1700522515", "Mon, 20 Nov 2023 23:21:55 +0000"];
pub const WORDS: &[&str] = &["EmployeeIDCredential", "VerifiableCredential", "DeveloperCredential", "Employee", "", "a", "1", "-7", "true", "false", "employee", "EMPLOYEEIDCREDENTIAL", " Employee", "a ", "A", "é", "say \"hi\"", "back\\slash", "a,b", "[x]", "{}", "two words", "first\nsecond", "Employee\n", "\nEmployee", "tab\there", "a#b", "日本", "A b c", "aaa", "2a", "12", "https://example.com/issuers/14", "did:example:ebfeb", "a\r\nb", "Employee\r", "café1", "id_٣", "Éa"];

fn leaf(s: &mut Src) -> Value {
    match s.weighted(&[8, 2, 1, 2, 2, 1]) {
        0 => if s.chance(1, 400) { let n = s.size(50, 3000); json!(format!("{}{}", s.one(&["x", " ", "é"]).repeat(n), s.one(WORDS))) } else { json!(s.one(WORDS)) },
        1 => Value::Number(gen::number(s)),
        2 => json!(s.bool()),
        3 => json!(date(s)),
        4 => json!(datetime(s)),
        _ => Value::Null,
    }
}
pub fn value(s: &mut Src, depth: usize) -> Value {
    match s.weighted(if depth == 0 { &[1] } else { &[5, 2, 2] }) {
        0 => leaf(s),
        1 => Value::Array(s.vec(0, 4, |s| value(s, depth - 1))),
        _ => Value::Object(obj(s, depth - 1)),
    }
}
fn obj(s: &mut Src, depth: usize) -> Map<String, Value> {
    const KEYS: &[&str] = &["id", "name", "a", "type", "address", "employeeId", "proficiency", "given_name", "x y", "é", "a.b", "it's", "q\"", "0", "@context"];
    s.vec(0, 4, |s| ((*s.pick(KEYS)).to_string(), value(s, depth))).into_iter().collect()
}
pub fn credential(s: &mut Src) -> Value {
    if s.chance(1, 20) { return value(s, 2); }
    let mut m = obj(s, 2);
    if s.chance(4, 5) { m.insert("type".into(), if s.chance(3, 4) { json!(if s.chance(1, 10) { s.vec(5, 16, |s| s.one(WORDS)) } else { s.vec(0, 4, |s| s.one(WORDS)) }) } else { json!(s.one(WORDS)) }); }
    if s.bool() { m.insert("issuer".into(), json!("https://example.com/issuers/14")); }
    if s.bool() { m.insert("validFrom".into(), json!(datetime(s))); }
    if s.bool() { m.insert("birthdate".into(), json!(date(s))); }
    if s.chance(3, 4) {
        let subj = if s.chance(3, 4) { Value::Object(obj(s, 1)) } else { json!(s.vec(0, 3, |s| Value::Object(obj(s, 1)))) };
        m.insert("credentialSubject".into(), subj);
    }
    Value::Object(m)
}
pub fn date(s: &mut Src) -> String {
    match s.weighted(&[8, 8, 1, 1]) {
        0 => (*s.pick(DATES)).into(),
        1 => format!("{:04}-{:02}-{:02}", s.upto(9999), s.upto(13), s.upto(32)),
        2 => format!("{}-{}-{}", s.upto(12000), s.upto(13), s.upto(32)),
        _ => { let mut t: Vec<char> = format!("{:04}-{:02}-{:02}", s.upto(9999), s.upto(12), s.upto(28)).chars().collect(); let i = s.size(0, t.len() - 1); let c = s.one(&[' ', '-', '+', '/', 'T', '0', '٣']); if s.bool() { t[i] = c; } else { t.insert(i, c); } t.into_iter().collect() }
    }
}
pub fn datetime(s: &mut Src) -> String {
    if s.bool() { return (*s.pick(TIMES)).into(); }
    let d = date(s);
    let frac = match s.weighted(&[10, 9, 1]) { 0 => String::new(), 1 => format!(".{}", s.upto(999)), _ => { let n = s.size(1, 30); format!(".{}", (0..n).map(|_| s.one(&['0', '1', '5', '9'])).collect::<String>()) } };
    let off = match s.upto(2) { 0 => "Z".to_string(), 1 => format!("+{:02}:{:02}", s.upto(23), s.upto(59)), _ => format!("-{:02}:{:02}", s.upto(23), s.upto(59)) };
    // leap seconds (60) are left out
    let (h, mi, mut sec) = (s.upto(24), s.upto(60), s.upto(61));
    if sec == 60 { sec = 0; }
    let t = format!("{d}T{h:02}:{mi:02}:{sec:02}{frac}{off}");
    if !s.chance(1, 12) { return t; }
    // one character off; leap seconds are left out here too
    let mut c: Vec<char> = t.chars().collect();
    let (i, x) = (s.size(0, c.len() - 1), s.one(&['-', '+', '/', '0', ':', '.', ',', '٣', 'Z', 'T', 'W']));
    match s.upto(2) { 0 => c[i] = x, 1 => c.insert(i, x), _ => { c.remove(i); } }
    let near: String = c.into_iter().collect();
    if near.contains(":60") || near.chars().nth(10) == Some(' ') { t } else { near }
}
/// Independent reading of a full-date; `None`: a shape the claim leaves open.
pub fn is_date(t: &str) -> bool {
    let b = t.as_bytes();
    if b.len() != 10 || b[4] != b'-' || b[7] != b'-' { return false; }
    let n = |r: std::ops::Range<usize>| -> Option<u32> { b[r.clone()].iter().all(u8::is_ascii_digit).then(|| t[r].parse().unwrap()) };
    let (Some(y), Some(m), Some(d)) = (n(0..4), n(5..7), n(8..10)) else { return false };
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap { 29 } else { 28 }, _ => return false };
    d >= 1 && d <= len
}
pub fn is_datetime(t: &str) -> bool {
    if !t.is_char_boundary(10.min(t.len())) || t.len() < 20 || !is_date(&t[..10]) { return false; }
    let b = t.as_bytes();
    if b[10] != b'T' || b[13] != b':' || b[16] != b':' { return false; }
    let n = |r: std::ops::Range<usize>| -> Option<u32> { b.get(r)?.iter().try_fold(0, |a, c| c.is_ascii_digit().then(|| a * 10 + u32::from(c - b'0'))) };
    let (Some(h), Some(m), Some(s)) = (n(11..13), n(14..16), n(17..19)) else { return false };
    if h > 23 || m > 59 || s > 59 { return false; }
    let mut i = 19;
    if b[i] == b'.' { let st = i + 1; i = st; while i < b.len() && b[i].is_ascii_digit() { i += 1; } if i == st { return false; } }
    match b.get(i) {
        Some(b'Z') => i + 1 == b.len(),
        Some(b'+' | b'-') => b.len() == i + 6 && b[i + 3] == b':' && n(i + 1..i + 3).is_some_and(|h| h < 24) && n(i + 4..i + 6).is_some_and(|m| m < 60),
        _ => false,
    }
}
/// The `type` of a filter, which decides nothing; some type by the filter's text.
fn kind(t: &str) -> &'static str { ["string", "string", "string", "string", "number", "integer", "boolean", "array"][t.bytes().fold(0, |a, b| a + usize::from(b)) % 8] }
/// Shapes on which the library may be more lenient than the standard are not generated; this says so.
#[derive(Clone, Debug)]
pub enum Filter { Const(String), Pattern(re::Re), Date, DateTime }
impl Filter {
    pub fn json(&self) -> Value {
        match self {
            Self::Const(c) => json!({"type": kind(c), "const": c}),
            Self::Pattern(r) => { let t = r.text(); json!({"type": kind(&t), "pattern": t}) }
            Self::Date => json!({"type": "string", "format": "date"}),
            Self::DateTime => json!({"type": "string", "format": "date-time"}),
        }
    }
    /// `None`: the statement leaves the outcome open.
    pub fn accepts(&self, v: &Value) -> Option<bool> {
        match (self, v) {
            (Self::Const(c), Value::Array(a)) => Some(a.iter().any(|x| x.as_str() == Some(c))),
            (Self::Const(c), Value::String(t)) => Some(t == c),
            (Self::Const(c), Value::Number(_) | Value::Bool(_)) => Some(*c == v.to_string()),
            (Self::Const(_), Value::Null | Value::Object(_)) => Some(false),
            (Self::Pattern(r), Value::String(t)) => Some(r.found_in(t)),
            (Self::Pattern(r), Value::Number(_) | Value::Bool(_)) => Some(r.found_in(&v.to_string())),
            (Self::Pattern(r), Value::Array(a)) => {
                let mut open = false;
                for x in a {
                    match x {
                        Value::String(t) if r.found_in(t) => return Some(true),
                        Value::String(_) => {}
                        _ => open = true,
                    }
                }
                if open { None } else { Some(false) }
            }
            (Self::Pattern(_), Value::Null | Value::Object(_)) => None,
            (Self::Date, Value::String(t)) => Some(is_date(t)),
            (Self::DateTime, Value::String(t)) => Some(is_datetime(t)),
            (Self::Date | Self::DateTime, _) => Some(false),
        }
    }
}
/// The text of some leaf inside a value.
pub fn deep_text(s: &mut Src, v: &Value) -> String {
    match v {
        Value::Array(a) if !a.is_empty() => { let i = s.size(0, a.len() - 1); deep_text(s, &a[i]) }
        Value::Object(o) if !o.is_empty() => { let i = s.size(0, o.len() - 1); if s.chance(1, 4) { o.keys().nth(i).unwrap().clone() } else { deep_text(s, o.values().nth(i).unwrap()) } }
        Value::String(t) => t.clone(),
        v => v.to_string(),
    }
}
fn near_text(v: Option<&Value>) -> String {
    match v {
        Some(Value::String(t)) => t.clone(),
        Some(Value::Array(a)) => a.iter().rev().find_map(|x| x.as_str()).unwrap_or("").into(),
        Some(v @ (Value::Number(_) | Value::Bool(_))) => v.to_string(),
        _ => String::new(),
    }
}
/// Text that differs from another in ways that are easily overlooked.
pub fn twist(s: &mut Src, t: &str) -> String {
    match s.upto(10) {
        7 => format!("{t}.0"), 8 => format!("0{t}"), 9 => format!("+{t}"), 10 => format!("{t}0"),
        0 => t.to_uppercase(), 1 => t.to_lowercase(), 2 => format!("{t} "), 3 => format!(" {t}"), 4 => t.trim().to_string(),
        5 => t.chars().take(t.chars().count() / 2).collect(), _ => format!("\"{t}\""),
    }
}
pub fn filter(s: &mut Src, near: Option<&Value>) -> Filter {
    match s.weighted(&[4, 4, 2, 2]) {
        0 => Filter::Const(match s.weighted(&[6, 1, 1, 2, 1]) {
            4 => twist(s, &near_text(near)),
            0 => near_text(near),
            1 => near.map(Value::to_string).unwrap_or_default(),
            2 => format!("{}x", near_text(near)),
            _ => (*s.pick(WORDS)).into(),
        }),
        1 => { let n = near_text(near); Filter::Pattern(re::regex(s, &n)) }
        2 => Filter::Date,
        _ => Filter::DateTime,
    }
}
#[derive(Clone, Debug)]
pub struct Field { pub paths: Vec<jpath::Path>, pub filter: Option<Filter>, pub optional: Option<bool> }
impl Field {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("path".into(), json!(self.paths.iter().map(jpath::Path::text).collect::<Vec<_>>()));
        if let Some(f) = &self.filter { m.insert("filter".into(), f.json()); }
        if let Some(o) = self.optional { m.insert("optional".into(), json!(o)); }
        Value::Object(m)
    }
    /// The Presentation Exchange reading: paths in order, the first node of each, the first that passes wins.
    pub fn matched(&self, v: &Value) -> Option<bool> {
        let mut found = false;
        for p in &self.paths {
            let nodes = p.eval(v);
            let Some(first) = nodes.first() else { continue };
            found = true;
            let Some(f) = &self.filter else { return Some(true) };
            if f.accepts(first)? { return Some(true); }
        }
        Some(!found && self.optional == Some(true))
    }
}
pub fn field(s: &mut Src, v: &Value) -> Field {
    let paths = if s.chance(1, 20) { s.vec(5, 9, |s| jpath::path(s, v)) } else { s.vec(1, 4, |s| jpath::path(s, v)) };
    let near = paths.iter().rev().find_map(|p| p.eval(v).first().copied());
    let filter = if s.chance(2, 3) { Some(filter(s, near)) } else { None };
    Field { paths, filter, optional: s.one(&[None, None, Some(false), Some(true)]) }
}
