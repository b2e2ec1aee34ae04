use pbt::{ensure, ensure_eq, gen, Case, Fail, Suite};
use serde_json::{json, Value};
use vercre_dif_exch::Constraints;

use crate::cred::{self, Broken, Json};

pub fn run() -> ! {
    let mut su = Suite::new("C07", "credentials and constraints generated together: fields with several JSONPath queries (names, indexes, wildcards, descendants) that hit or miss, filters near the value found, optional and required; verdict against a reference evaluator; non-trivial: a field has two paths or a filter");
    su.scale(140);
    su.assume("null and object values under a pattern filter, and array elements other than text under a pattern filter, are left open");
    su.check("verdict", 12_000, 400_000, |s| {
        let v = cred::credential(s);
        let mut fields = if s.chance(1, 20) { s.vec(4, 12, |s| cred::field(s, &v)) } else { s.vec(0, 4, |s| cred::field(s, &v)) };
        if s.chance(1, 30) {
            // many fields that match, and some that need not, anywhere among them
            let more = s.vec(8, 48, |s| cred::field(s, &v)).into_iter().filter(|f| f.matched(&v) == Some(true)).collect::<Vec<_>>();
            fields.truncate(1);
            let at = s.size(0, more.len());
            fields.splice(0..0, more[..at].iter().cloned());
            fields.extend(more[at..].iter().cloned());
        }
        let c: Constraints = serde_json::from_value(json!({"fields": fields.iter().map(cred::Field::json).collect::<Vec<_>>()})).map_err(|e| Fail::new("model", format!("{fields:?}: {e}")))?;
        let want: Option<bool> = fields.iter().try_fold(true, |a, f| if a { f.matched(&v) } else { Some(false) });
        let got = c.satisfied(&Json(v.clone())).map_err(|e| Fail::new("error", format!("{v}\n {}\n error: {e}", json!(c))))?;
        if let Some(want) = want {
            ensure_eq!(got, want, if want { "unsatisfied" } else { "satisfied" }, "credential {v}\n constraints {}", json!(c));
        }
        let multi = fields.iter().any(|f| f.paths.len() > 1);
        Ok(Case::new(want.is_some() && fields.iter().any(|f| f.paths.len() > 1 || f.filter.is_some()), format!("{v} | {} -> {got}", json!(c))).label(multi, "several paths").label(want == Some(true), "satisfied").label(want == Some(false), "not satisfied").label(want.is_none(), "open"))
    });
    su.check("laws", 6_000, 150_000, |s| {
        // order of fields is irrelevant; adding a field never turns a refusal into acceptance; no constraint accepts all
        let v = cred::credential(s);
        let mut fields = s.vec(1, 4, |s| cred::field(s, &v).json());
        let sat = |f: &[Value]| -> bool { let c: Constraints = serde_json::from_value(json!({"fields": f})).unwrap(); c.satisfied(&Json(v.clone())).unwrap_or(false) };
        let all = sat(&fields);
        let each = fields.iter().all(|f| sat(std::slice::from_ref(f)));
        ensure_eq!(all, each, "conjunction", "credential {v}\n fields {}", json!(fields));
        s.shuffle(&mut fields);
        ensure_eq!(sat(&fields), all, "order", "credential {v}\n fields {}", json!(fields));
        let none: Constraints = serde_json::from_value(json!({})).unwrap();
        ensure!(none.satisfied(&Json(v.clone())).unwrap_or(false) && sat(&[]), "empty", "no fields, yet {v} is refused");
        // naming, purpose, retention and predicate change nothing
        let deco: Vec<Value> = fields.iter().map(|f| { let mut f = f.clone(); f["id"] = json!(gen::word(s, 1, 5)); f["name"] = json!("n"); f["purpose"] = json!("p"); f["intent_to_retain"] = json!(s.bool()); if s.bool() { f["predicate"] = json!(s.one(&["required", "preferred"])); } f }).collect();
        ensure_eq!(sat(&deco), all, "decoration", "credential {v}\n fields {}", json!(deco));
        let limited: Constraints = serde_json::from_value(json!({"fields": fields, "limit_disclosure": s.one(&["required", "preferred"])})).unwrap();
        ensure_eq!(limited.satisfied(&Json(v.clone())).unwrap_or(false), all, "limited", "credential {v}\n constraints {}", json!(limited));
        Ok(Case::new(fields.len() > 1, format!("{v} | {}", json!(fields))))
    });
    su.check("broken", 400, 4_000, |s| {
        let v = cred::credential(s);
        let fields = s.vec(1, 3, |s| cred::field(s, &v).json());
        let c: Constraints = serde_json::from_value(json!({"fields": fields})).unwrap();
        ensure!(!c.satisfied(&Broken).unwrap_or(false), "broken", "claims that do not serialize satisfy {}", json!(c));
        Ok(Case::new(true, json!(c).to_string()))
    });
    su.finish()
}
