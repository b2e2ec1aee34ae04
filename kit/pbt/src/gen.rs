//! Generators shared by the checks.
use serde_json::{json, Map, Number, Value};

use crate::Src;

/// Characters that matter to URL, JSON, template and regex code, next to plain and non-ASCII ones.
pub const NASTY: &[char] = &[
    'a', 'b', 'Z', '0', '9', '_', '-', '.', '~', ' ', '&', '=', '%', '+', '"', '\\', '{', '}', '[', ']', ':', ',', ';', '#', '?', '/',
    '\'', '<', '>', '|', '^', '`', '(', ')', '*', '$', '@', '!', '\n', '\t', '\r', '\u{0}', '\u{7f}', 'é', 'ß', '中', '\u{200b}', '😀', '\u{ffff}',
    '\u{feff}', '\u{a0}', '\u{85}', '\u{2028}', '\u{301}', '\u{fffd}', '\u{10ffff}', '\u{1b}', 'İ', 'ſ',
];

/// A plain word: letters, digits, `_`.
pub fn word(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.size(lo, hi);
    (0..n).map(|_| *s.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") as char).collect()
}
/// Text over [`NASTY`], now and then any scalar value.
pub fn text(s: &mut Src, hi: usize) -> String {
    s.vec(0, hi, |s| if s.chance(1, 12) { char::from_u32(s.upto(0x10FFFF) as u32).unwrap_or('\u{fffd}') } else { s.one(NASTY) }).into_iter().collect()
}
/// Printable text for identifiers and URLs as real callers use them.
pub fn ident(s: &mut Src) -> String {
    const IDS: &[&str] = &[
        "a", "client", "EmployeeID_JWT", "http://vercre.io", "https://example.com/cb?x=1&y=2", "did:key:z6Mk#z6Mk", "urn:uuid:1", "org.iso.18013.5.1",
        "a b", "a+b", "100%", "x=y", "p&q", "[1]x", "{x", "quote\"d", "back\\slash", "naïve", "日本", "", "null", "true", "0", "a,b:c",
    ];
    match s.weighted(&[200_000, 195_800, 4_000, 200, 1]) { 0 => s.pick(IDS).to_string(), 1 => text(s, 12), 2 => text(s, 400), 3 => text(s, 6000), _ => { let n = s.size(60_000, 140_000); format!("{}{}", s.one(&["x", "%", "é "]).repeat(n), text(s, 12)) } }
}
pub fn number(s: &mut Src) -> Number {
    match s.upto(4) {
        0 => Number::from(s.int(0, 10)),
        1 => Number::from(s.int(-1000, 1000)),
        2 => Number::from(s.upto(u64::MAX)),
        3 => Number::from(s.int(i64::MIN, i64::MAX)),
        // binary fractions: exact in text and back, and never whole
        // few enough digits for any JSON reader to be exact
        _ => Number::from_f64(if s.chance(1, 3) { (2 * s.int(-40, 40) + 1) as f64 / f64::from(1 << s.size(7, 20)) } else { (2 * s.int(-1 << 20, 1 << 20) + 1) as f64 / 64.0 }).unwrap(),
    }
}
/// Any JSON value.
pub fn json(s: &mut Src, depth: usize) -> Value {
    match s.weighted(if depth == 0 { &[1, 2, 2, 4] } else { &[1, 2, 2, 4, 2, 3] }) {
        0 => Value::Null,
        1 => Value::Bool(s.bool()),
        2 => Value::Number(number(s)),
        3 => Value::String(ident(s)),
        4 => Value::Array(s.vec(0, 4, |s| json(s, depth - 1))),
        _ => Value::Object(object(s, depth - 1)),
    }
}
pub fn object(s: &mut Src, depth: usize) -> Map<String, Value> {
    let mut m = Map::new();
    for (k, v) in s.vec(0, 4, |s| (if s.chance(3, 4) { word(s, 1, 6) } else { ident(s) }, json(s, depth))) { m.insert(k, v); }
    m
}
/// JSON whose values survive any encoder: no floats.
pub fn json_nofloat(s: &mut Src, depth: usize) -> Value {
    fn strip(v: Value) -> Value {
        match v {
            Value::Number(n) if n.is_f64() => json!(7),
            Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
            Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, strip(v))).collect()),
            v => v,
        }
    }
    strip(json(s, depth))
}
