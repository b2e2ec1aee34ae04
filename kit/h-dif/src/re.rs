//! Regular expressions: a generator, and an independent matcher that works on the expression tree.
use pbt::Src;

#[derive(Clone, Debug)]
pub enum Re { Lit(char), Class(Vec<char>, bool), Any, Cat(Vec<Re>), Alt(Vec<Re>), Star(Box<Re>), Plus(Box<Re>), Opt(Box<Re>), Count(Box<Re>, usize, usize), Digit(bool), Word(bool), Space(bool), Range(char, char, bool), Boundary, Start, End, /// A literal in either case.
    NoCase(Vec<char>), /// `\d`, `\w` and their complements.
    Named(char) }
const CH: &[char] = &['a', 'b', 'E', '1', '2', '-', ' ', '.', '"', '\\', '[', '{', ',', 'é', ':', '+', '\n', '#', 'A', 'e', '\t', '$', '(', '日', '\r', '٣'];

impl Re {
    pub fn text(&self) -> String {
        fn esc(c: char) -> String { match c { '\n' => "\\n".into(), '\t' => "\\t".into(), '\r' => "\\r".into(), c if "\\.+*?()|[]{}^$-&~".contains(c) => format!("\\{c}"), c => c.to_string() } }
        match self {
            Self::Lit(c) => esc(*c),
            Self::Class(v, neg) => format!("[{}{}]", if *neg { "^" } else { "" }, v.iter().map(|c| esc(*c)).collect::<String>()),
            Self::Any => ".".into(),
            Self::Cat(v) => v.iter().map(Self::text).collect(),
            Self::Alt(v) => format!("(?:{})", v.iter().map(Self::text).collect::<Vec<_>>().join("|")),
            Self::Star(r) => format!("(?:{})*", r.text()),
            Self::Plus(r) => format!("(?:{})+", r.text()),
            Self::Opt(r) => format!("(?:{})?", r.text()),
            Self::Count(r, lo, hi) => if lo == hi { format!("(?:{}){{{lo}}}", r.text()) } else { format!("(?:{}){{{lo},{hi}}}", r.text()) },
            Self::Digit(y) => if *y { "[0-9]" } else { "[^0-9]" }.into(),
            Self::Word(y) => if *y { "[A-Za-z0-9_]" } else { "[^A-Za-z0-9_]" }.into(),
            Self::Space(y) => if *y { "\\s" } else { "\\S" }.into(),
            Self::Range(a, b, y) => format!("[{}{a}-{b}]", if *y { "" } else { "^" }),
            Self::Boundary => "\\b".into(),
            Self::NoCase(v) => format!("(?i:{})", v.iter().map(|c| esc(*c)).collect::<String>()),
            Self::Named(c) => format!("\\{c}"),
            Self::Start => "^".into(),
            Self::End => "$".into(),
        }
    }
    /// Every position a match starting at one of `from` can end at.
    fn ends(&self, t: &[char], from: &[usize]) -> Vec<usize> {
        let mut out: Vec<usize> = match self {
            Self::Lit(c) => from.iter().filter(|i| t.get(**i) == Some(c)).map(|i| i + 1).collect(),
            Self::Class(v, neg) => from.iter().filter(|i| t.get(**i).is_some_and(|c| v.contains(c) != *neg)).map(|i| i + 1).collect(),
            Self::Any => from.iter().filter(|i| t.get(**i).is_some_and(|c| *c != '\n')).map(|i| i + 1).collect(),
            Self::Cat(v) => v.iter().fold(from.to_vec(), |f, r| r.ends(t, &f)),
            Self::Alt(v) => v.iter().flat_map(|r| r.ends(t, from)).collect(),
            Self::Opt(r) => { let mut o = r.ends(t, from); o.extend(from); o }
            Self::Star(r) => {
                let (mut all, mut fresh) = (from.to_vec(), from.to_vec());
                let mut seen = vec![false; t.len() + 1];
                for i in from { seen[*i] = true; }
                while !fresh.is_empty() {
                    fresh = r.ends(t, &fresh);
                    fresh.retain(|i| !std::mem::replace(&mut seen[*i], true));
                    all.extend(&fresh);
                }
                all
            }
            Self::Plus(r) => { let f = r.ends(t, from); Self::Star(r.clone()).ends(t, &f) }
            Self::Count(r, lo, hi) => {
                let mut f = from.to_vec();
                for _ in 0..*lo { f = r.ends(t, &f); }
                let mut all = f.clone();
                for _ in *lo..*hi { f = r.ends(t, &f); all.extend(&f); }
                all
            }
            Self::Digit(y) => Self::one(t, from, |c| c.is_ascii_digit() == *y),
            Self::Word(y) => Self::one(t, from, |c| (c.is_ascii_alphanumeric() || c == '_') == *y),
            Self::Space(y) => Self::one(t, from, |c| c.is_whitespace() == *y),
            Self::Range(a, b, y) => Self::one(t, from, |c| (*a <= c && c <= *b) == *y),
            Self::Boundary => {
                let w = |i: usize| t.get(i).is_some_and(|c| c.is_alphanumeric() || *c == '_');
                from.iter().filter(|i| (**i > 0 && w(**i - 1)) != w(**i)).copied().collect()
            }
            Self::NoCase(v) => v.iter().fold(from.to_vec(), |f, x| Self::one(t, &f, |c| c == *x || c.to_lowercase().eq(x.to_lowercase()))),
            // the digits and letters that occur in the texts generated here
            Self::Named('d') => Self::one(t, from, |c| c.is_ascii_digit() || c == '٣'),
            Self::Named('D') => Self::one(t, from, |c| !c.is_ascii_digit() && c != '٣'),
            Self::Named('w') => Self::one(t, from, |c| c.is_alphanumeric() || c == '_'),
            Self::Named(_) => Self::one(t, from, |c| !c.is_alphanumeric() && c != '_'),
            Self::Start => from.iter().filter(|i| **i == 0).copied().collect(),
            Self::End => from.iter().filter(|i| **i == t.len()).copied().collect(),
        };
        out.sort_unstable();
        out.dedup();
        out
    }
    fn one(t: &[char], from: &[usize], ok: impl Fn(char) -> bool) -> Vec<usize> { from.iter().filter(|i| t.get(**i).is_some_and(|c| ok(*c))).map(|i| i + 1).collect() }
    pub fn found_in(&self, t: &str) -> bool {
        let t: Vec<char> = t.chars().collect();
        !self.ends(&t, &(0..=t.len()).collect::<Vec<_>>()).is_empty()
    }
}
fn atom(s: &mut Src, depth: usize) -> Re {
    match s.weighted(if depth == 0 { &[5, 2, 1, 1] } else { &[5, 2, 1, 1, 1, 1, 1, 1, 1] }) {
        0 => Re::Lit(s.one(CH)),
        1 => Re::Class(s.vec(1, 4, |s| s.one(CH)), s.chance(1, 4)),
        2 => Re::Any,
        3 => match s.upto(6) { 5 => Re::Named(s.one(&['d', 'D', 'w', 'W'])), 6 => Re::NoCase(s.vec(1, 3, |s| s.one(&['a', 'B', 'E', 'm', 'é', '1', '-', '日']))), 0 => Re::Digit(s.chance(3, 4)), 1 => Re::Word(s.chance(3, 4)), 2 => Re::Space(s.bool()), 3 => s.one(&[Re::Range('a', 'z', true), Re::Range('A', 'Z', true), Re::Range('0', '5', true), Re::Range('a', 'm', false)]), _ => Re::Boundary },
        8 => { let lo = s.size(0, 3); let hi = lo + s.size(0, 2); Re::Count(Box::new(atom(s, depth - 1)), lo, hi) }
        4 => Re::Alt(s.vec(2, 3, |s| Re::Cat(s.vec(0, 3, |s| atom(s, depth - 1))))),
        5 => Re::Star(Box::new(atom(s, depth - 1))),
        6 => Re::Plus(Box::new(atom(s, depth - 1))),
        _ => Re::Opt(Box::new(atom(s, depth - 1))),
    }
}
/// An expression; often made from `near` so that it matches.
pub fn regex(s: &mut Src, near: &str) -> Re {
    let mut v = vec![];
    if s.chance(1, 3) { v.push(Re::Start); }
    if s.chance(2, 3) && !near.is_empty() {
        let mut c: Vec<char> = near.chars().collect();
        if c.len() > 60 { c.drain(..c.len() - 30); }
        let (i, j) = if s.bool() { (0, c.len()) } else { let i = s.size(0, c.len()); (i, i + s.size(0, c.len() - i)) };
        for c in &c[i..j] {
            v.push(match s.weighted(&[20, 2, 2, 2, 1]) { 0 => Re::Lit(*c), 1 => Re::Any, 4 if c.is_ascii_digit() => Re::Digit(true), 4 if c.is_ascii_alphanumeric() => Re::Word(true), 2 => Re::Plus(Box::new(Re::Lit(*c))), _ => Re::Class(vec![*c, 'q'], false) });
        }
        if s.chance(1, 8) { v.truncate(v.len() - (j - i)); v.push(Re::NoCase(c[i..j].iter().map(|c| if s.bool() && c.is_ascii() { c.to_ascii_uppercase() } else { *c }).collect())); }
        // a near miss now and then
        if s.chance(1, 4) { let i = s.size(0, v.len()); v.insert(i, atom(s, 1)); }
    } else { v.extend(s.vec(0, 5, |s| atom(s, 2))); }
    if s.chance(1, 3) { v.push(Re::End); }
    Re::Cat(v)
}
