//! Values that exercise every form of the serde data model, and independent URL decoding.
use pbt::{gen, Src};
use serde::ser::*;

/// The key of a map: text, or what JSON writes as text.
#[derive(Clone, Debug)]
pub enum Key { Str(String), I64(i64), U64(u64), U8(u8), Bool(bool), Char(char), Var(&'static str) }
impl Key {
    pub fn text(&self) -> String { match self { Self::Str(t) => t.clone(), Self::I64(n) => n.to_string(), Self::U64(n) => n.to_string(), Self::U8(n) => n.to_string(), Self::Bool(b) => b.to_string(), Self::Char(c) => c.to_string(), Self::Var(v) => (*v).to_string() } }
}
impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self { Self::Str(t) => s.serialize_str(t), Self::I64(n) => s.serialize_i64(*n), Self::U64(n) => s.serialize_u64(*n), Self::U8(n) => s.serialize_u8(*n), Self::Bool(b) => s.serialize_bool(*b), Self::Char(c) => s.serialize_char(*c), Self::Var(v) => s.serialize_unit_variant("E", 0, v) }
    }
}
#[derive(Clone, Debug)]
pub enum Dyn {
    /// Cannot be serialized.
    Broken,
    Unit, Bool(bool), I64(i64), U64(u64), F64(f64), I8(i8), U8(u8), I16(i16), U16(u16), I32(i32), U32(u32), F32(f32), Char(char), Str(String), Bytes(Vec<u8>),
    Some(Box<Dyn>), None, UnitStruct, UnitVar(&'static str), NewStruct(Box<Dyn>), NewVar(&'static str, Box<Dyn>),
    Seq(Vec<Dyn>), Tuple(Vec<Dyn>), TupleStruct(Vec<Dyn>), TupleVar(&'static str, Vec<Dyn>),
    /// Without a length in advance, keys and values written one by one.
    Stream(Vec<Dyn>), Table(Vec<(Key, Dyn)>),
    Map(Vec<(Key, Dyn)>), Struct(Vec<(&'static str, Dyn)>), StructVar(&'static str, Vec<(&'static str, Dyn)>),
}
pub const NAMES: &[&str] = &["a", "b", "client_id", "redirect_uri", "state", "nonce", "type", "credential_offer", "x_1", "grant-type", "urn:ietf:p", "c.d", "e~f", "@context", "sp ace", "é", "k&v", "k=v", "per%cent"];
pub const VARS: &[&str] = &["Unit", "One", "two_words", "urn:ietf:params:oauth:grant-type:pre-authorized_code", "v&w", "q\"t"];

impl Serialize for Dyn {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Self::Broken => Err(serde::ser::Error::custom("cannot be serialized")),
            Self::Unit => s.serialize_unit(),
            Self::Bool(b) => s.serialize_bool(*b),
            Self::I64(n) => s.serialize_i64(*n),
            Self::U64(n) => s.serialize_u64(*n),
            Self::I8(n) => s.serialize_i8(*n),
            Self::U64(n) => s.serialize_u64(*n), Self::U8(n) => s.serialize_u8(*n),
            Self::I16(n) => s.serialize_i16(*n),
            Self::U16(n) => s.serialize_u16(*n),
            Self::I32(n) => s.serialize_i32(*n),
            Self::U32(n) => s.serialize_u32(*n),
            Self::F32(n) => s.serialize_f32(*n),
            Self::F64(n) => s.serialize_f64(*n),
            Self::Char(c) => s.serialize_char(*c),
            Self::Str(t) => s.serialize_str(t),
            Self::Bytes(b) => s.serialize_bytes(b),
            Self::Some(v) => s.serialize_some(v),
            Self::None => s.serialize_none(),
            Self::UnitStruct => s.serialize_unit_struct("U"),
            Self::UnitVar(v) => s.serialize_unit_variant("E", 0, v),
            Self::NewStruct(v) => s.serialize_newtype_struct("N", v),
            Self::NewVar(n, v) => s.serialize_newtype_variant("E", 1, n, v),
            Self::Seq(v) => { let mut q = s.serialize_seq(Some(v.len()))?; for x in v { q.serialize_element(x)?; } q.end() }
            Self::Tuple(v) => { let mut q = s.serialize_tuple(v.len())?; for x in v { q.serialize_element(x)?; } q.end() }
            Self::TupleStruct(v) => { let mut q = s.serialize_tuple_struct("T", v.len())?; for x in v { q.serialize_field(x)?; } q.end() }
            Self::TupleVar(n, v) => { let mut q = s.serialize_tuple_variant("E", 2, n, v.len())?; for x in v { q.serialize_field(x)?; } q.end() }
            Self::Stream(v) => { let mut q = s.serialize_seq(None)?; for x in v { q.serialize_element(x)?; } q.end() }
            Self::Table(v) => { let mut q = s.serialize_map(None)?; for (k, x) in v { q.serialize_key(k)?; q.serialize_value(x)?; } q.end() }
            Self::Map(v) => { let mut q = s.serialize_map(Some(v.len()))?; for (k, x) in v { q.serialize_entry(k, x)?; } q.end() }
            Self::Struct(v) => { let mut q = s.serialize_struct("S", v.len())?; for (k, x) in v { q.serialize_field(k, x)?; } q.end() }
            Self::StructVar(n, v) => { let mut q = s.serialize_struct_variant("E", 3, n, v.len())?; for (k, x) in v { q.serialize_field(k, x)?; } q.end() }
        }
    }
}
fn fields(s: &mut Src, lo: usize, hi: usize, depth: usize) -> Vec<(&'static str, Dyn)> {
    let mut out: Vec<(&'static str, Dyn)> = vec![];
    for (k, v) in s.vec(lo, hi, |s| (*s.pick(NAMES), value(s, depth))) {
        if !out.iter().any(|(n, _)| *n == k) { out.push((k, v)); }
    }
    out
}
fn key(s: &mut Src) -> Key {
    match s.weighted(&[8, 8, 1, 1, 1, 1, 1]) {
        0 => Key::Str(gen::word(s, 1, 6)), 1 => Key::Str(gen::ident(s)), 2 => if s.bool() { Key::I64(s.int(i64::MIN, i64::MAX)) } else { Key::U64(s.upto(u64::MAX)) }, 3 => Key::U8(s.upto(255) as u8), 4 => Key::Bool(s.bool()),
        5 => Key::Char(s.one(gen::NASTY)), _ => Key::Var(s.one(VARS)),
    }
}
fn entries(s: &mut Src, lo: usize, hi: usize, depth: usize) -> Vec<(Key, Dyn)> {
    let mut out: Vec<(Key, Dyn)> = vec![];
    for (k, v) in s.vec(lo, hi, |s| (key(s), value(s, depth))) {
        if !out.iter().any(|(n, _)| n.text() == k.text()) { out.push((k, v)); }
    }
    out
}
pub fn value(s: &mut Src, depth: usize) -> Dyn {
    let leaf = depth == 0;
    match s.weighted(if leaf { &[8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1] } else { &[8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 3, 2, 1] }) {
        0 => Dyn::Str(gen::ident(s)),
        1 => Dyn::Unit,
        2 => Dyn::Bool(s.bool()),
        3 => Dyn::I64(if s.bool() { s.int(-3, 3) } else { s.int(i64::MIN, i64::MAX) }),
        4 => Dyn::U64(s.upto(u64::MAX)),
        5 => Dyn::F64(match s.upto(3) { 0 => s.int(-1 << 20, 1 << 20) as f64 + 0.25, 1 => s.int(-99_999, 99_999) as f64 / 1000.0, 2 => s.int(-99_999, 99_999) as f64, _ => { let f = f64::from_bits(s.upto(u64::MAX)); if f.is_finite() { f } else { 0.1 } } }),
        6 => Dyn::Char(s.one(gen::NASTY)),
        7 => Dyn::None,
        8 => Dyn::UnitVar(s.one(VARS)),
        9 => match s.upto(6) {
            0 => Dyn::I8(s.int(-128, 127) as i8), 1 => Dyn::U8(s.upto(255) as u8), 2 => Dyn::I16(s.int(i64::from(i16::MIN), i64::from(i16::MAX)) as i16), 3 => Dyn::U16(s.upto(65535) as u16),
            4 => Dyn::I32(s.int(i64::from(i32::MIN), i64::from(i32::MAX)) as i32), 5 => Dyn::U32(s.upto(u64::from(u32::MAX)) as u32), _ => Dyn::F32(match s.upto(2) { 0 => s.int(-1 << 12, 1 << 12) as f32 + 0.5, 1 => s.int(-9999, 9999) as f32 / 1000.0, _ => { let f = f32::from_bits(s.upto(u64::from(u32::MAX)) as u32); if f.is_finite() { f } else { 0.1 } } }),
        },
        10 => Dyn::UnitStruct,
        11 => Dyn::Bytes(s.vec(0, 5, |s| s.upto(255) as u8)),
        12 => Dyn::Some(Box::new(value(s, depth - 1))),
        13 => Dyn::NewStruct(Box::new(value(s, depth - 1))),
        14 => Dyn::NewVar(s.one(VARS), Box::new(value(s, depth - 1))),
        15 => { let v = s.vec(0, 4, |s| value(s, depth - 1)); if s.chance(1, 3) { Dyn::Stream(v) } else { Dyn::Seq(v) } }
        16 => Dyn::Tuple(s.vec(1, 4, |s| value(s, depth - 1))),
        17 => Dyn::TupleStruct(s.vec(1, 4, |s| value(s, depth - 1))),
        18 => Dyn::TupleVar(s.one(VARS), s.vec(1, 3, |s| value(s, depth - 1))),
        19 => Dyn::Struct(fields(s, 0, 4, depth - 1)),
        20 => { let v = entries(s, 0, 4, depth - 1); if s.chance(1, 3) { Dyn::Table(v) } else { Dyn::Map(v) } }
        _ => Dyn::StructVar(s.one(VARS), fields(s, 1, 4, depth - 1)),
    }
}
/// One value inside another, many times over.
fn chain(s: &mut Src, n: usize) -> Dyn {
    let mut v = value(s, 1);
    for _ in 0..n {
        v = match s.upto(8) {
            0 => Dyn::Seq(vec![v]), 1 => Dyn::Tuple(vec![v, Dyn::Str("é\"".into())]), 2 => Dyn::TupleStruct(vec![Dyn::U8(1), v]), 3 => Dyn::TupleVar(s.one(VARS), vec![v]),
            4 => Dyn::Map(vec![(Key::Str("m".into()), v), (Key::Bool(true), Dyn::Str("x".into()))]), 5 => Dyn::Struct(vec![("a", v), ("b", Dyn::Str("y".into()))]),
            6 => Dyn::StructVar(s.one(VARS), vec![("a", v)]), 7 => Dyn::NewVar(s.one(VARS), Box::new(v)), _ => Dyn::Some(Box::new(v)),
        };
    }
    v
}
/// A top-level value that no query string stands for: somewhere in it a member cannot be serialized.
pub fn broken(s: &mut Src) -> Dyn {
    let mut v = Dyn::Broken;
    for _ in 0..s.size(0, 4) {
        let side = value(s, 1);
        v = match s.upto(8) {
            0 => Dyn::Seq(vec![side, v]), 1 => Dyn::Tuple(vec![side, v]), 2 => Dyn::TupleStruct(vec![side, v]), 3 => Dyn::TupleVar(s.one(VARS), vec![side, v]),
            4 => Dyn::Map(vec![(Key::Str("m".into()), side), (Key::Str("n".into()), v)]), 5 => Dyn::Struct(vec![("a", side), ("b", v)]),
            6 => Dyn::StructVar(s.one(VARS), vec![("a", side), ("b", v)]), 7 => Dyn::NewVar(s.one(VARS), Box::new(v)), _ => Dyn::Some(Box::new(v)),
        };
    }
    let mut f = fields(s, 0, 4, 1);
    f.retain(|x| x.0 != "redirect_uri");
    let at = s.size(0, f.len());
    f.insert(at, ("redirect_uri", v));
    if s.bool() { Dyn::Struct(f) } else { Dyn::Map(f.into_iter().map(|(k, v)| (Key::Str(k.into()), v)).collect()) }
}
/// A top-level value: a struct or a map.
pub fn top(s: &mut Src) -> Dyn {
    match s.weighted(&[200, 100, 10, 10, 1, 1, 30, 6]) {
        0 => Dyn::Struct(fields(s, 0, 6, 3)),
        1 => Dyn::Map(entries(s, 0, 5, 3)),
        6 => Dyn::Table(entries(s, 1, 5, 3)),
        7 => Dyn::Struct(vec![("a", { let n = s.size(8, 80); chain(s, n) }), ("b", value(s, 2)), ("state", Dyn::Str(gen::ident(s)))]),
        // many members, or deep ones
        2 => Dyn::Map(entries(s, 8, 40, 1)),
        3 => Dyn::Struct(fields(s, 1, 3, 7)),
        4 => Dyn::Map(entries(s, 100, 300, 0)),
        // long lists
        _ => Dyn::Struct(vec![("a", Dyn::Seq(s.vec(50, 300, |s| value(s, 0)))), ("b", Dyn::Seq(s.vec(0, 40, |s| value(s, 2))))]),
    }
}

/// Independent percent-decoding; `None` when an escape is malformed or the bytes are not UTF-8.
pub fn unescape(t: &str) -> Option<String> {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: u8| (c as char).to_digit(16);
            out.push((h(*b.get(i + 1)?)? * 16 + h(*b.get(i + 2)?)?) as u8);
            i += 3;
        } else { out.push(b[i]); i += 1; }
    }
    String::from_utf8(out).ok()
}
/// Splits a query string into decoded pairs the way any standard parser does.
pub fn pairs(q: &str) -> Option<Vec<(String, String)>> {
    if q.is_empty() { return Some(vec![]); }
    q.split('&').map(|p| { let (k, v) = p.split_once('=')?; Some((unescape(k)?, unescape(v)?)) }).collect()
}
/// Percent-encodes text, escaping what must be and, by choice, what need not be.
pub fn escape(s: &mut Src, t: &str) -> String {
    let all = s.upto(3);
    let mut o = String::new();
    for b in t.bytes() {
        let safe = b.is_ascii_alphanumeric() || b"-._~".contains(&b);
        // what may stand in a query as it is (RFC 3986), apart from the separators
        let open = b"/?:@!$'()*+,;".contains(&b);
        let bare = match all { 0 => safe, 1 => safe && s.bool(), 2 => false, _ => safe || open };
        if bare { o.push(b as char); }
        else if s.bool() { o += &format!("%{b:02x}"); } else { o += &format!("%{b:02X}"); }
    }
    o
}
/// As [`escape`] for a value, which may hold the '=' as it is: the first one of a parameter separates.
pub fn escape_value(s: &mut Src, t: &str) -> String {
    let e = escape(s, t);
    if s.chance(1, 4) { e.replace("%3D", "=").replace("%3d", "=") } else { e }
}
/// Text that is not itself a JSON array or object (those are taken for nested values).
pub fn plain(t: String) -> String {
    match serde_json::from_str::<serde_json::Value>(&t) {
        Ok(v) if v.is_array() || v.is_object() => format!("x{t}"),
        _ => t,
    }
}
/// Equal JSON; fractions to the precision every JSON reader has.
pub fn alike(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::{Array, Number, Object};
    match (a, b) {
        (Array(a), Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| alike(a, b)),
        (Object(a), Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| alike(v, w))),
        (Number(x), Number(y)) if x.is_f64() || y.is_f64() => { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); x == y || (x - y).abs() <= 1e-14 * x.abs().max(y.abs()) || x.abs().max(y.abs()) < f64::MIN_POSITIVE }
        (a, b) => a == b,
    }
}
