use pbt::{ensure_eq, Case, Fail, Suite};
use serde_json::{json, Value};
use vercre_dif_exch::Constraints;

use crate::cred::{self, Filter, Json};
use crate::re;

pub fn run() -> ! {
    let mut su = Suite::new("C08", "one claim value (text, number, boolean, null, list, object, date and time shapes on and off the calendar) against one filter generated near it; verdict against independent readings of const, pattern (own expression matcher) and format (own calendar); non-trivial: the verdict is specified and the value is not an object");
    su.scale(240);
    su.assume("null and object values under a pattern filter, and array elements other than text under a pattern filter, are left open; leap seconds are not generated");
    fn verdict(v: &Value, f: &Filter) -> Result<(Option<bool>, bool), Fail> {
        let c: Constraints = serde_json::from_value(json!({"fields": [{"path": ["$.claim"], "filter": f.json()}]})).map_err(|e| Fail::new("model", format!("{f:?}: {e}")))?;
        let want = f.accepts(v);
        let got = c.satisfied(&Json(json!({"claim": v}))).map_err(|e| Fail::new("error", format!("{v} under {}: {e}", f.json())))?;
        Ok((want, got))
    }
    let one = |v: Value, f: Filter, kind: &str| -> Result<Case, Fail> {
        let (want, got) = verdict(&v, &f)?;
        if let Some(want) = want { ensure_eq!(got, want, &format!("{kind}-{}", if want { "refused" } else { "accepted" }), "claim {v} under {}", f.json()); }
        Ok(Case::new(want.is_some() && !v.is_object(), format!("{v} under {} -> {got}", f.json())).label(want == Some(true), "accepted").label(want == Some(false), "refused").label(v.is_array(), "list"))
    };
    su.check("const", 8_000, 200_000, |s| {
        let v = if s.chance(1, 40) { json!(s.vec(5, 40, |s| cred::value(s, 0))) } else { cred::value(s, 2) };
        let c = match s.weighted(&[8, 2, 2, 2, 2, 3]) {
            5 => cred::deep_text(s, &v),
            4 => { let t = match &v { Value::String(t) => t.clone(), Value::Array(a) => a.first().and_then(|x| x.as_str()).unwrap_or("x").into(), v => v.to_string() }; cred::twist(s, &t) }
            0 => match &v { Value::String(t) => t.clone(), Value::Array(a) => a.last().and_then(|x| x.as_str()).unwrap_or("x").into(), v => v.to_string() },
            1 => v.to_string(),
            2 => s.one(cred::WORDS).to_string(),
            _ => match &v { Value::String(t) => { let mut t: Vec<char> = t.chars().collect(); let i = s.size(0, t.len()); if s.bool() || t.is_empty() { t.insert(i, 'x'); } else { t.remove(i.min(t.len() - 1)); } t.into_iter().collect() } v => format!("{v} ") },
        };
        one(v, Filter::Const(c), "const")
    });
    su.check("pattern", 10_000, 300_000, |s| {
        let v = if s.chance(1, 40) { json!(s.vec(5, 40, |s| cred::value(s, 0))) } else { cred::value(s, 1) };
        let near = match &v { Value::String(t) => t.clone(), Value::Array(a) if !a.is_empty() => { let i = s.size(0, a.len() - 1); a[i].as_str().unwrap_or("").into() } Value::Number(_) | Value::Bool(_) => v.to_string(), _ => String::new() };
        let near = if s.chance(1, 8) { cred::twist(s, &near) } else { near };
        let r = re::regex(s, &near);
        one(v, Filter::Pattern(r), "pattern")
    });
    su.check("format", 10_000, 300_000, |s| {
        let v = match s.upto(4) { 0 => cred::value(s, 1), 1 | 2 => json!(cred::date(s)), _ => json!(cred::datetime(s)) };
        one(v, if s.bool() { Filter::Date } else { Filter::DateTime }, "format")
    });
    su.finish()
}
