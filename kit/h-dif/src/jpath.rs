//! JSONPath: a generator of queries and an independent evaluator for them.
use pbt::{gen, Src};
use serde_json::Value;

#[derive(Clone, Debug)]
pub enum Seg { Name(String), Index(i64), Wild, Deep(String), Slice(Option<i64>, Option<i64>), Names(Vec<String>), /// Children that have the member, and, if text is given, have it equal to that text.
    Having(String, Option<String>) }
#[derive(Clone, Debug)]
pub struct Path(pub Vec<Seg>, Vec<u8>);

impl Path {
    pub fn new(segs: Vec<Seg>, s: &mut Src) -> Self { let style = segs.iter().map(|_| s.upto(2) as u8).collect(); Self(segs, style) }
    pub fn text(&self) -> String {
        let mut o = String::from("$");
        for (seg, style) in self.0.iter().zip(&self.1) {
            match seg {
                Seg::Name(n) => {
                    let plain = n.chars().next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
                    if plain && *style == 0 { o += &format!(".{n}"); }
                    else if *style == 1 { o += &format!("['{}']", quote(n, '\'')); }
                    else { o += &format!("[\"{}\"]", quote(n, '"')); }
                }
                Seg::Index(i) => o += &format!("[{i}]"),
                Seg::Wild => o += if *style == 0 { ".*" } else { "[*]" },
                Seg::Slice(a, b) => o += &format!("[{}:{}]", a.map(|i| i.to_string()).unwrap_or_default(), b.map(|i| i.to_string()).unwrap_or_default()),
                Seg::Names(v) => o += &format!("[{}]", v.iter().map(|n| if *style == 1 { format!("'{}'", quote(n, '\'')) } else { format!("\"{}\"", quote(n, '"')) }).collect::<Vec<_>>().join(if *style == 2 { ", " } else { "," })),
                Seg::Having(n, None) => o += &format!("[?@['{}']]", quote(n, '\'')),
                Seg::Having(n, Some(t)) => o += &format!("[?@['{}'] == \"{}\"]", quote(n, '\''), quote(t, '"')),
                Seg::Deep(n) => o += &format!("..['{}']", quote(n, '\'')),
            }
        }
        o
    }
    pub fn eval<'a>(&self, root: &'a Value) -> Vec<&'a Value> {
        let mut cur = vec![root];
        for seg in &self.0 {
            cur = cur.into_iter().flat_map(|v| step(seg, v)).collect();
        }
        cur
    }
}
fn quote(n: &str, q: char) -> String {
    n.chars().map(|c| match c {
        '\\' => "\\\\".into(),
        c if c == q => format!("\\{c}"),
        c if (c as u32) < 0x20 => format!("\\u{:04x}", c as u32),
        c => c.to_string(),
    }).collect()
}
fn step<'a>(seg: &Seg, v: &'a Value) -> Vec<&'a Value> {
    match seg {
        Seg::Name(n) => v.as_object().and_then(|o| o.get(n)).into_iter().collect(),
        Seg::Index(i) => v.as_array().and_then(|a| {
            let i = if *i < 0 { a.len() as i64 + i } else { *i };
            if i < 0 { None } else { a.get(i as usize) }
        }).into_iter().collect(),
        Seg::Wild => children(v),
        Seg::Slice(a, b) => v.as_array().map(|l| {
            let n = l.len() as i64;
            let at = |i: Option<i64>, d: i64| i.map_or(d, |i| if i < 0 { n + i } else { i }).clamp(0, n) as usize;
            let (i, j) = (at(*a, 0), at(*b, n));
            l.get(i..j).unwrap_or_default().iter().collect()
        }).unwrap_or_default(),
        Seg::Names(v2) => v2.iter().filter_map(|n| v.as_object().and_then(|o| o.get(n))).collect(),
        Seg::Having(n, t) => children(v).into_iter().filter(|c| c.as_object().and_then(|o| o.get(n)).is_some_and(|x| t.as_ref().is_none_or(|t| x.as_str() == Some(t)))).collect(),
        Seg::Deep(n) => {
            let mut out: Vec<&Value> = v.as_object().and_then(|o| o.get(n)).into_iter().collect();
            for c in children(v) { out.extend(step(seg, c)); }
            out
        }
    }
}
fn children(v: &Value) -> Vec<&Value> {
    match v { Value::Array(a) => a.iter().collect(), Value::Object(o) => o.values().collect(), _ => vec![] }
}
/// A selection of the children by what they hold.
fn having(s: &mut Src, v: &Value) -> Seg {
    let members: Vec<(&String, &Value)> = children(v).into_iter().filter_map(Value::as_object).flatten().collect();
    if members.is_empty() || s.chance(1, 8) { return Seg::Having(gen::word(s, 1, 4), None); }
    let (k, x) = members[s.size(0, members.len() - 1)];
    Seg::Having(k.clone(), if s.bool() { x.as_str().map(ToString::to_string) } else { None })
}
/// A query that walks into `v` (or a little beside it).
pub fn path(s: &mut Src, v: &Value) -> Path {
    let mut segs = vec![];
    let mut cur = Some(v);
    let depth = s.weighted(&[1, 6, 5, 2, 1]);
    for _ in 0..depth {
        let seg = match cur {
            Some(Value::Object(o)) if !o.is_empty() && s.chance(5, 6) => {
                let keys: Vec<&String> = o.keys().collect();
                let k = (*s.pick(&keys)).clone();
                match s.weighted(&[16, 2, 2, 1, 1]) {
                    0 => Seg::Name(k), 1 => Seg::Wild, 2 => Seg::Deep(k),
                    3 => { let mut v = s.vec(1, 2, |s| if s.bool() { (*s.pick(&keys)).clone() } else { gen::word(s, 1, 4) }); let i = s.size(0, v.len()); v.insert(i, k); Seg::Names(v) }
                    _ => having(s, cur.unwrap()),
                }
            }
            Some(Value::Array(a)) if !a.is_empty() && s.chance(5, 6) => {
                match s.weighted(&[10, 4, 6, 3, 2]) { 3 => { let n = a.len() as i64; Seg::Slice(s.opt(|s| s.int(-n - 1, n)), s.opt(|s| s.int(-n, n + 2))) } 4 => having(s, cur.unwrap()), 0 => Seg::Index(s.upto(a.len() as u64 - 1) as i64), 1 => Seg::Index(-1 - s.upto(a.len() as u64 - 1) as i64), _ => Seg::Wild }
            }
            _ => match s.upto(3) { 0 => Seg::Name(gen::word(s, 1, 4)), 1 => Seg::Index(s.int(-3, 3)), 2 => Seg::Wild, _ => Seg::Deep(gen::word(s, 1, 4)) },
        };
        cur = cur.and_then(|c| step(&seg, c).first().copied());
        segs.push(seg);
    }
    Path::new(segs, s)
}
