use std::collections::BTreeMap;

use pbt::{ensure, ensure_eq, gen, Case, Fail, Src, Suite};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};
use vercre_core::{urlencode, Kind, Quota};

use crate::dynval::{self, Dyn};

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
enum Choice { #[default] #[serde(rename = "vp_token")] A, #[serde(rename = "urn:x:y z")] B, C }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
enum Ext { Unit, New(String), Num(u32), Tup(u32, String), Str { a: String, b: Option<i32> }, Deep(Box<Inner>) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "format")]
enum Tagged { #[serde(rename = "jwt")] Jwt { def: String, n: i64 }, #[serde(rename = "mdoc")] Mdoc { doctype: String, l: Vec<String> } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Inner {
    text: String,
    num: i64,
    big: u64,
    flag: bool,
    choice: Choice,
    list: Vec<String>,
    ext: Vec<Ext>,
    #[serde(skip_serializing_if = "Option::is_none")]
    tagged: Option<Tagged>,
    none: Option<String>,
    map: BTreeMap<String, Vec<u8>>,
    any: Value,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct New(String);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Request {
    client_id: String,
    choice: Choice,
    #[serde(skip_serializing_if = "Option::is_none")]
    state: Option<String>,
    new: New,
    #[serde(skip_serializing_if = "Option::is_none")]
    inner: Option<Inner>,
    #[serde(skip_serializing_if = "Option::is_none")]
    details: Option<Vec<Inner>>,
    pair: (u32, String),
    trio: [i32; 3],
    ext: Option<Ext2>,
    words: Vec<String>,
    kind: Kind<Inner>,
    quota: Quota<String>,
    codes: BTreeMap<u16, String>,
    flags: Vec<BTreeMap<i8, BTreeMap<bool, char>>>,
    #[serde(rename = "last~field")]
    last: String,
}
/// Externally tagged, always with content (a unit variant is text).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Ext2 { New(String), Tup(u32, String), Str { a: String } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Flat {
    id: String,
    #[serde(flatten)]
    inner: FlatInner,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct FlatInner { zz_name: String, zz_list: Vec<Inner> }
/// As `AuthorizationRequest`: one of two shapes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Either { Full { client_id: String, words: Vec<String> }, Uri { request_uri: String } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Offer { #[serde(rename = "credential_offer")] Obj(Box<Inner>), #[serde(rename = "credential_offer_uri")] Uri(String) }
/// Names with characters that separate, escape or quote.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum OddChoice { #[serde(rename = "a&b=c")] A, #[serde(rename = "100%25")] B, #[serde(rename = "say \"x\" \\ y")] C, #[serde(rename = "é+z")] D }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum OddExt { #[serde(rename = "n&\"=%")] New(String), #[serde(rename = "t\\%3D")] Tup(u64, char), #[serde(rename = "s & {")] Str { #[serde(rename = "a\"&=")] a: String, #[serde(rename = "é%26")] b: char } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct OddInner { #[serde(rename = "k\"1&")] one: OddChoice, #[serde(rename = "k\\2=")] two: Vec<OddExt>, #[serde(rename = "k%333")] three: char, #[serde(rename = "k{4}")] four: BTreeMap<u64, String>, #[serde(rename = "[5],")] five: BTreeMap<char, i64> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Odd {
    #[serde(rename = "a&x")] a: OddChoice, #[serde(rename = "b=y")] b: String, #[serde(rename = "c%26z")] c: char, #[serde(rename = "d e+f")] d: OddInner,
    #[serde(rename = "[]")] e: OddExt, #[serde(rename = "")] f: String, #[serde(rename = "ü\"")] g: BTreeMap<u64, OddChoice>, #[serde(rename = "h#?/")] h: Vec<OddInner>,
}
/// Forms a `Serialize` may take other than the derived ones: bytes, sequences and maps of no given length.
#[derive(Clone, Debug, PartialEq)]
struct Blob(Vec<u8>);
impl Serialize for Blob { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
impl<'de> Deserialize<'de> for Blob { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Vec::deserialize(d).map(Self) } }
#[derive(Clone, Debug, PartialEq)]
struct Lazy(Vec<String>);
impl Serialize for Lazy { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { use serde::ser::SerializeSeq; let mut q = s.serialize_seq(None)?; for t in &self.0 { q.serialize_element(t)?; } q.end() } }
impl<'de> Deserialize<'de> for Lazy { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Vec::deserialize(d).map(Self) } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Part { id: String, #[serde(flatten)] rest: BTreeMap<String, Value>, blob: Blob }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Forms { blob: Blob, lazy: Lazy, parts: Vec<Part>, part: Part, pairs: Vec<(f64, f32)>, unit: [(); 1], nest: Vec<Lazy>, some: Vec<Option<Option<Vec<New>>>>, last: String }
fn part(s: &mut Src) -> Part { Part { id: gen::ident(s), rest: s.vec(0, 2, |s| (format!("k{}", gen::ident(s)), gen::json(s, 1))).into_iter().collect(), blob: Blob(s.vec(0, 3, |s| s.upto(255) as u8)) } }
/// What cannot be encoded or decoded: it is refused and changes nothing later.
fn disturb(s: &mut Src) {
    if s.bool() { let b = dynval::broken(s); let _ = urlencode::to_string(&b); } else {
        let mut p = s.vec(1, 3, |s| format!("{}={}", s.one(&["client_id", "id", "last", "blob", "zz_name"]), s.one(&["x", "%5B", "%7B%7D", "1"])));
        let at = s.size(0, p.len());
        p.insert(at, s.one(&["novalue", "client_id=x&client_id=y", "words=%7B"]).to_string());
        let _ = urlencode::from_str::<Request>(&p.join("&"));
    }
}

fn odd_choice(s: &mut Src) -> OddChoice { s.one(&[OddChoice::A, OddChoice::B, OddChoice::C, OddChoice::D]) }
fn odd_ext(s: &mut Src) -> OddExt { match s.upto(2) { 0 => OddExt::New(gen::ident(s)), 1 => OddExt::Tup(s.upto(u64::MAX), s.one(gen::NASTY)), _ => OddExt::Str { a: gen::ident(s), b: s.one(gen::NASTY) } } }
fn odd_inner(s: &mut Src) -> OddInner {
    OddInner { one: odd_choice(s), two: s.vec(0, 2, odd_ext), three: s.one(gen::NASTY), four: s.vec(0, 2, |s| (s.upto(u64::MAX), gen::ident(s))).into_iter().collect(), five: s.vec(0, 2, |s| (s.one(gen::NASTY), s.int(i64::MIN, i64::MAX))).into_iter().collect() }
}
fn t(s: &mut Src) -> String { dynval::plain(gen::ident(s)) }
fn ext(s: &mut Src, depth: usize) -> Ext {
    match s.upto(if depth == 0 { 4 } else { 5 }) {
        0 => Ext::Unit,
        1 => Ext::New(gen::ident(s)),
        2 => Ext::Num(s.upto(u64::from(u32::MAX)) as u32),
        3 => Ext::Tup(s.upto(9) as u32, gen::ident(s)),
        4 => Ext::Str { a: gen::ident(s), b: s.opt(|s| s.int(-5, 5) as i32) },
        _ => Ext::Deep(Box::new(inner(s, 0))),
    }
}
fn inner(s: &mut Src, depth: usize) -> Inner {
    Inner {
        text: gen::ident(s), num: s.int(i64::MIN, i64::MAX), big: s.upto(u64::MAX), flag: s.bool(), choice: s.one(&[Choice::A, Choice::B, Choice::C]),
        list: s.vec(0, 3, gen::ident), ext: s.vec(0, 2, |s| ext(s, depth)),
        tagged: s.opt(|s| if s.bool() { Tagged::Jwt { def: gen::ident(s), n: s.int(-9, 9) } } else { Tagged::Mdoc { doctype: gen::ident(s), l: s.vec(0, 2, gen::ident) } }),
        none: s.opt(gen::ident), map: s.vec(0, 2, |s| (gen::ident(s), s.vec(0, 3, |s| s.upto(255) as u8))).into_iter().collect(),
        any: if s.chance(1, 60) { let n = s.size(5, 60); (0..n).fold(gen::json(s, 1), |v, _| if s.bool() { Value::Array(vec![v, Value::Bool(true)]) } else { Value::Object([("k".to_string(), v)].into_iter().collect()) }) } else { gen::json(s, depth) },
    }
}
fn request(s: &mut Src) -> Request {
    Request {
        client_id: t(s), choice: s.one(&[Choice::A, Choice::B, Choice::C]), state: s.opt(t), new: New(t(s)),
        inner: s.opt(|s| inner(s, 2)), details: s.opt(|s| s.vec(0, 2, |s| inner(s, 1))),
        pair: (s.upto(99) as u32, gen::ident(s)), trio: [s.int(-9, 9) as i32, 0, 5],
        ext: Some(match s.upto(2) { 0 => Ext2::New(gen::ident(s)), 1 => Ext2::Tup(1, gen::ident(s)), _ => Ext2::Str { a: gen::ident(s) } }),
        words: if s.chance(1, 200) { s.vec(20, 300, gen::ident) } else { s.vec(0, 3, gen::ident) },
        kind: if s.bool() { Kind::String(t(s)) } else { Kind::Object(inner(s, 1)) },
        quota: if s.bool() { Quota::One(t(s)) } else { Quota::Many(s.vec(0, 3, gen::ident)) },
        codes: s.vec(0, 2, |s| (s.upto(65535) as u16, gen::ident(s))).into_iter().collect(),
        flags: s.vec(0, 1, |s| s.vec(0, 2, |s| (s.int(-128, 127) as i8, s.vec(0, 2, |s| (s.bool(), s.one(&['a', '"', '\\', 'é']))).into_iter().collect())).into_iter().collect()),
        last: t(s),
    }
}
fn same<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T, what: &str) -> Result<String, Fail> {
    let q = urlencode::to_string(v).map_err(|e| Fail::new(&format!("encode-{what}"), format!("{v:?} does not encode: {e}")))?;
    let back: T = urlencode::from_str(&q).map_err(|e| Fail::new(&format!("decode-{what}"), format!("{v:?}\n encodes as {q}\n which does not decode: {e}")))?;
    ensure_eq!(back, *v, &format!("roundtrip-{what}"), "{q} decodes to another value");
    Ok(q)
}

pub fn roundtrip() -> ! {
    let mut su = Suite::new("C01", "typed request structures (text, enumerations, nested structures, lists, maps, tuples, tagged/untagged/flattened forms) over text with URL, JSON and Unicode special characters, encoded and decoded again; non-trivial: the text holds a character that must be escaped, or a nested structure is present");
    su.scale(180);
    su.assume("top-level text values are not themselves the text of a JSON array or object (the wire form cannot tell those from nested values); top-level numbers, booleans and nulls are outside the claim (they decode as text)");
    let esc = |q: &str| q.contains('%');
    su.check("request", 12_000, 300_000, |s| { if s.chance(1, 20) { disturb(s); } let v = request(s); same(&v, "struct").map(|q| Case::new(esc(&q), q).label(v.details.is_some(), "nested list").label(v.inner.is_some(), "nested struct")) });
    su.check("flat", 4_000, 80_000, |s| {
        let v = Flat { id: t(s), inner: FlatInner { zz_name: t(s), zz_list: s.vec(0, 2, |s| inner(s, 1)) },
            rest: s.vec(0, 3, |s| (format!("k{}", gen::ident(s)), t(s))).into_iter().collect() };
        same(&v, "flatten").map(|q| Case::new(esc(&q), q).label(!v.rest.is_empty(), "flattened map"))
    });
    su.check("map", 4_000, 80_000, |s| {
        let v: BTreeMap<String, String> = if s.chance(1, 150) { s.vec(30, 300, |s| (gen::word(s, 1, 8), t(s))) } else { s.vec(1, 6, |s| (gen::ident(s), t(s))) }.into_iter().collect();
        same(&v, "map").map(|q| Case::new(esc(&q) && v.len() > 1, q))
    });
    su.check("names", 3_000, 60_000, |s| {
        let v = Odd { a: odd_choice(s), b: t(s), c: s.one(gen::NASTY), d: odd_inner(s), e: odd_ext(s), f: t(s), g: s.vec(0, 2, |s| (s.upto(u64::MAX), odd_choice(s))).into_iter().collect(), h: s.vec(0, 2, odd_inner) };
        same(&v, "names").map(|q| Case::new(true, q))
    });
    su.check("forms", 3_000, 60_000, |s| {
        if s.chance(1, 8) { disturb(s); }
        let v = Forms { blob: Blob(s.vec(0, 4, |s| s.upto(255) as u8)), lazy: Lazy(s.vec(0, 3, gen::ident)), parts: s.vec(0, 2, part), part: part(s),
            pairs: s.vec(0, 3, |s| ((2 * s.int(-40, 40) + 1) as f64 / f64::from(1 << s.size(0, 20)), (2 * s.int(-40, 40) + 1) as f32 / (1 << s.size(0, 12)) as f32)), unit: [()], nest: s.vec(0, 2, |s| Lazy(s.vec(0, 2, gen::ident))),
            some: s.vec(0, 2, |s| s.opt(|s| Some(s.vec(0, 2, |s| New(gen::ident(s)))))), last: t(s) };
        same(&v, "forms").map(|q| Case::new(true, q))
    });
    su.check("enums", 4_000, 80_000, |s| {
        match s.upto(3) {
            0 => same(&Either::Full { client_id: t(s), words: s.vec(0, 3, gen::ident) }, "untagged"),
            1 => same(&Either::Uri { request_uri: t(s) }, "untagged"),
            2 => same(&Offer::Obj(Box::new(inner(s, 1))), "variant"),
            _ => same(&Offer::Uri(t(s)), "variant"),
        }.map(|q| Case::new(esc(&q), q))
    });
    su.finish()
}

pub fn wire() -> ! {
    let mut su = Suite::new("C02", "structures and maps built from every form of the serde data model, with special characters in names and text; the query string is parsed by an independent percent-decoder and JSON parser and compared with serde_json's view of the same value; non-trivial: at least two fields and one escape");
    su.scale(500);
    su.assume("numbers are finite (JSON has no others) and fractions nested in a member are compared to 14 digits; map keys are text, numbers, booleans or unit variants, as in JSON");
    su.check("pairs", 20_000, 500_000, |s| {
        if s.chance(1, 6) {
            // an encoding that fails says so, and leaves the next one as it is
            let b = dynval::broken(s);
            if let Ok(q) = urlencode::to_string(&b) { return Err(Fail::new("broken", format!("{b:?}\n cannot be serialized, yet encodes as {q}"))); }
        }
        let v = dynval::top(s);
        let q = urlencode::to_string(&v).map_err(|e| Fail::new("encode", format!("{v:?} does not encode: {e}")))?;
        ensure!(q.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~%&=".contains(&b)), "charset", "{v:?}\n encodes with characters that need escaping in a URL: {q}");
        let got = dynval::pairs(&q).ok_or_else(|| Fail::new("malformed", format!("{v:?}\n encodes as {q}, which is not a query string")))?;
        let want: Vec<(String, &Dyn)> = match &v {
            Dyn::Struct(f) => f.iter().map(|(k, v)| ((*k).to_string(), v)).collect(),
            Dyn::Map(f) | Dyn::Table(f) => f.iter().map(|(k, v)| (k.text(), v)).collect(),
            _ => unreachable!(),
        };
        ensure_eq!(got.iter().map(|p| p.0.clone()).collect::<Vec<_>>(), want.iter().map(|p| p.0.clone()).collect::<Vec<_>>(), "names", "parameter names of {q}");
        for ((k, text), (_, d)) in got.iter().zip(&want) {
            let j = serde_json::to_value(d).expect("json");
            match &j {
                Value::String(t) => ensure_eq!(text, t, "text", "parameter {k} of {q}"),
                Value::Array(_) | Value::Object(_) => {
                    let parsed: Value = serde_json::from_str(text).map_err(|e| Fail::new("nested-json", format!("parameter {k} of {v:?} is {text:?}, not JSON: {e}")))?;
                    ensure!(dynval::alike(&parsed, &j), "nested", "parameter {k} of {q}\n   got: {parsed}\n  want: {j}");
                }
                Value::Number(n) if n.is_f64() => ensure!(text.parse::<f64>().is_ok_and(|f| Some(f) == n.as_f64()), "fraction", "parameter {k} of {q} is {text}, not {n}"),
                j => ensure_eq!(*text, j.to_string(), "scalar", "parameter {k} of {q}"),
            }
        }
        Ok(Case::new(got.len() > 1 && q.contains('%'), q.clone()).label(q.contains("%5B") || q.contains("%7B"), "nested").label(q.contains("%26") || q.contains("%3D"), "separator in data"))
    });
    su.finish()
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
struct Form { client_id: String, state: String, #[serde(default)] scope: Option<String>, #[serde(default)] nested: Option<Map<String, Value>>, #[serde(default)] list: Option<Vec<Value>>, #[serde(default)] sub: Option<Sub> }
#[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]
struct Sub { a: String, n: i64 }

/// A parameter name, escaped where it must be and sometimes elsewhere.
fn name(s: &mut Src, k: &str) -> String {
    if s.chance(1, 4) || !k.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b)) { dynval::escape(s, k) } else { k.to_string() }
}
fn value_text(s: &mut Src) -> String { if s.chance(1, 4) { gen::json(s, 2).to_string() } else { gen::ident(s) } }
pub fn decode() -> ! {
    let mut su = Suite::new("C03", "query strings made by an independent encoder (fields in any order, each byte escaped or not by choice, either hex case) decoded into structures, and arbitrary or mutated strings decoded for totality; non-trivial: a nested value or an escaped separator is present, or (totality) the string holds an escape or separator");
    su.scale(320);
    su.assume("'+' stands for itself, as in RFC 3986 (form encoding, which writes spaces as '+', is another)");
    su.check("forms", 12_000, 300_000, |s| {
        let want = Form { client_id: t(s), state: t(s), scope: s.opt(t), nested: s.opt(|s| gen::object(s, 2)), list: s.opt(|s| s.vec(0, 3, |s| gen::json(s, 2))),
            sub: s.opt(|s| Sub { a: gen::ident(s), n: s.int(-99, 99) }) };
        let mut p = vec![("client_id", want.client_id.clone()), ("state", want.state.clone())];
        if let Some(v) = &want.scope { p.push(("scope", v.clone())); }
        if let Some(v) = &want.nested { p.push(("nested", serde_json::to_string(v).unwrap())); }
        if let Some(v) = &want.list { p.push(("list", serde_json::to_string(v).unwrap())); }
        if let Some(v) = &want.sub { p.push(("sub", if s.bool() { serde_json::to_string(v).unwrap() } else { serde_json::to_string_pretty(v).unwrap() })); }
        s.shuffle(&mut p);
        if s.chance(1, 6) {
            // a string that is refused leaves the next one as it is
            let mut bad: Vec<String> = s.vec(1, 3, |s| format!("{}={}", s.one(&["scope", "nested", "zip", "client_id"]), value_text(s)));
            let again = bad[0].clone();
            let (fault, at) = (s.one(&["novalue", "list=%5B", "sub=%7B%7D"]), s.size(0, bad.len()));
            bad.insert(at, if s.bool() { again } else { fault.to_string() });
            let _ = urlencode::from_str::<Form>(&bad.join("&"));
        }
        let q = p.iter().map(|(k, v)| format!("{}={}", name(s, k), dynval::escape_value(s, v))).collect::<Vec<_>>().join("&");
        let got: Form = urlencode::from_str(&q).map_err(|e| Fail::new("decode", format!("{q}\n ({p:?})\n does not decode: {e}")))?;
        ensure_eq!(got, want, "value", "{q} decodes to another value");
        Ok(Case::new(want.nested.is_some() || want.list.is_some() || q.contains("%26") || q.contains("%3D") || q.contains("%3d"), q))
    });
    su.check("missing", 4_000, 50_000, |s| {
        // a required parameter that is absent must not be made up from another parameter's data
        let other = gen::ident(s);
        let data = s.one(&["x&client_id=evil", "\",\"client_id\":\"evil", "x\"}&client_id=evil", "a=b&client_id=evil", "&client_id=evil", "{\"client_id\":\"evil\"}"]);
        let v = format!("{other}{data}");
        let q = format!("state={}&scope={}", dynval::escape(s, &v), dynval::escape(s, &other));
        let r = urlencode::from_str::<Form>(&q);
        ensure!(r.is_err(), "injection", "{q}\n has no client_id, yet decodes to {:?}", r.unwrap());
        Ok(Case::new(true, q))
    });
    su.check("duplicate", 2_000, 40_000, |s| {
        // two values for one parameter, of any kind, known or not: neither may be picked silently
        let mut p = vec![("client_id".to_string(), t(s)), ("state".to_string(), t(s))];
        let n = if s.chance(1, 40) { 120 } else { 3 };
        for (k, v) in s.vec(0, n, |s| (if s.bool() { gen::word(s, 1, 8) } else { gen::ident(s) }, value_text(s))) { if p.iter().all(|x| x.0 != k) { p.push((k, v)); } }
        let (k, v) = p[s.size(0, p.len() - 1)].clone();
        let again = if s.chance(1, 3) { v } else { value_text(s) };
        let at = s.size(0, p.len());
        p.insert(at, (k.clone(), again));
        s.shuffle(&mut p);
        let q = p.iter().map(|(k, v)| format!("{}={}", name(s, k), dynval::escape_value(s, v))).collect::<Vec<_>>().join("&");
        let r = urlencode::from_str::<Form>(&q);
        ensure!(r.is_err(), "duplicate", "{q}\n gives {k} twice, yet decodes to {:?}", r.unwrap());
        let r = urlencode::from_str::<BTreeMap<String, Value>>(&q);
        ensure!(r.is_err(), "duplicate", "{q}\n gives {k} twice, yet decodes to {:?}", r.unwrap());
        Ok(Case::new(true, q))
    });
    su.check("maps", 6_000, 80_000, |s| {
        // any parameter names: each has the value it was given, and there is no other
        let want: BTreeMap<String, String> = if s.chance(1, 150) { s.vec(30, 300, |s| (gen::word(s, 1, 8), t(s))) } else { s.vec(0, 8, |s| (if s.chance(1, 12) { s.one(&["amp;a", "amp", "amp;client", "lt;x", "#38;a", ";a", "x;y", "a[]", "a[b]", "a.b", "?a", "__proto__", "a:b", "/", "*"]).to_string() } else { gen::ident(s) }, t(s))) }.into_iter().collect();
        let mut p: Vec<_> = want.iter().collect();
        s.shuffle(&mut p);
        let q = p.iter().map(|(k, v)| format!("{}={}", name(s, k), dynval::escape_value(s, v))).collect::<Vec<_>>().join("&");
        let got: BTreeMap<String, String> = urlencode::from_str(&q).map_err(|e| Fail::new("decode-map", format!("{q}\n ({p:?})\n does not decode: {e}")))?;
        ensure_eq!(got, want, "map", "{q} decodes to other parameters");
        Ok(Case::new(want.len() > 1 && q.contains('%'), q))
    });
    su.check("total", 12_000, 300_000, |s| {
        let q = match s.upto(2) {
            0 => gen::text(s, 40),
            1 => s.vec(0, 12, |s| s.one(&["client_id", "=", "&", "state", "%7B", "%7D", "{", "}", "[", "]", "\"", "%", "%2", "%zz", "%ff", "%22", ":", ",", "null", "1", "\\", "a", "é"])).concat(),
            _ => { let v = dynval::top(s); let mut q = urlencode::to_string(&v).unwrap_or_default(); let cut = s.size(0, q.len()); if q.is_char_boundary(cut) { q.truncate(cut); } q }
        };
        let _ = urlencode::from_str::<Form>(&q);
        let _ = urlencode::from_str::<BTreeMap<String, String>>(&q);
        let _ = urlencode::from_str::<Value>(&q);
        Ok(Case::new(q.contains(['%', '&', '=']), q))
    });
    su.finish()
}
