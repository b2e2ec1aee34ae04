use std::collections::HashMap;
use std::str::FromStr;

use pbt::{ensure, ensure_eq, gen, Case, Fail, Src, Suite};
use serde_json::{json, Map, Value};
use vercre_dif_exch::{ClaimFormat, FilterValue, PresentationDefinition, PresentationSubmission};

fn opt(m: &mut Map<String, Value>, s: &mut Src, k: &str, f: impl Fn(&mut Src) -> Value) { if s.bool() { let v = f(s); m.insert(k.into(), v); } }
fn id(s: &mut Src) -> Value { json!(gen::ident(s)) }
fn names(s: &mut Src) -> Value { json!(s.vec(0, 3, gen::ident)) }
fn formats(s: &mut Src) -> Value {
    let mut m = Map::new();
    for _ in 0..s.size(0, 3) {
        let mut f = Map::new();
        opt(&mut f, s, "alg", names);
        opt(&mut f, s, "proof_type", names);
        m.insert(s.one(&["jwt", "jwt_vc", "jwt_vp", "ldp_vc", "mso_mdoc", "x y"]).into(), Value::Object(f));
    }
    Value::Object(m)
}
fn field(s: &mut Src) -> Value {
    let mut m = Map::new();
    opt(&mut m, s, "id", id);
    m.insert("path".into(), names(s));
    opt(&mut m, s, "filter", |s| { let k = s.one(&["const", "pattern", "format"]); json!({"type": gen::ident(s), k: gen::ident(s)}) });
    opt(&mut m, s, "predicate", |s| json!(s.one(&["required", "preferred"])));
    opt(&mut m, s, "purpose", id);
    opt(&mut m, s, "name", id);
    opt(&mut m, s, "optional", |s| json!(s.bool()));
    opt(&mut m, s, "intent_to_retain", |s| json!(s.bool()));
    Value::Object(m)
}
fn descriptor(s: &mut Src) -> Value {
    let mut m = Map::new();
    m.insert("id".into(), id(s));
    opt(&mut m, s, "name", id);
    opt(&mut m, s, "purpose", id);
    opt(&mut m, s, "format", formats);
    let mut c = Map::new();
    opt(&mut c, s, "fields", |s| json!(s.vec(0, 4, field)));
    opt(&mut c, s, "limit_disclosure", |s| json!(s.one(&["required", "preferred"])));
    m.insert("constraints".into(), Value::Object(c));
    Value::Object(m)
}
pub fn definition(s: &mut Src) -> Value {
    let mut m = Map::new();
    m.insert("id".into(), id(s));
    m.insert("input_descriptors".into(), json!(s.vec(0, 3, descriptor)));
    opt(&mut m, s, "name", id);
    opt(&mut m, s, "purpose", id);
    opt(&mut m, s, "format", formats);
    Value::Object(m)
}
fn submission(s: &mut Src) -> Value {
    json!({"id": id(s), "definition_id": id(s), "descriptor_map": s.vec(0, 3, |s| json!({"id": id(s), "format": id(s), "path": id(s), "path_nested": {"format": id(s), "path": id(s)}}))})
}

/// JSON text with the members of every object in any order.
fn text(s: &mut Src, v: &Value) -> String {
    match v {
        Value::Object(o) => { let mut m: Vec<(&String, &Value)> = o.iter().collect(); s.shuffle(&mut m); format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", json!(k), text(s, v))).collect::<Vec<_>>().join(",")) }
        Value::Array(a) => format!("[{}]", a.iter().map(|v| text(s, v)).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}
fn claim_formats(f: &Option<HashMap<String, ClaimFormat>>) -> Value {
    let Some(f) = f else { return Value::Null };
    Value::Object(f.iter().map(|(k, f)| {
        let mut m = Map::new();
        if let Some(a) = &f.alg { m.insert("alg".into(), json!(a)); }
        if let Some(a) = &f.proof_type { m.insert("proof_type".into(), json!(a)); }
        (k.clone(), Value::Object(m))
    }).collect())
}
pub fn run() -> ! {
    let mut su = Suite::new("C10", "presentation definitions and submissions written as JSON from the specification's member names, read by the crate, inspected member by member and written again; non-trivial: a field or a mapping is present");
    su.scale(240);
    su.check("definition", 8_000, 150_000, |s| {
        let j = definition(s);
        let d: PresentationDefinition = serde_json::from_str(&text(s, &j)).map_err(|e| Fail::new("read", format!("{j}: {e}")))?;
        ensure_eq!(serde_json::to_value(&d).unwrap(), j, "write", "definition written again");
        let back: PresentationDefinition = serde_json::from_str(&serde_json::to_string(&d).unwrap()).map_err(|e| Fail::new("reread", format!("{j}: {e}")))?;
        ensure!(back == d, "roundtrip", "{j}");
        ensure_eq!(json!(d.id), j["id"], "id", "{j}");
        let o = |v: &Option<String>| v.as_ref().map_or(Value::Null, |t| json!(t));
        let mut n = 0;
        ensure_eq!((o(&d.name), o(&d.purpose), claim_formats(&d.format)), (j["name"].clone(), j["purpose"].clone(), j["format"].clone()), "definition", "{j}");
        for (d, j) in d.input_descriptors.iter().zip(j["input_descriptors"].as_array().unwrap()) {
            ensure_eq!((json!(d.id), o(&d.name), o(&d.purpose), o(&d.constraints.limit_disclosure)), (j["id"].clone(), j["name"].clone(), j["purpose"].clone(), j["constraints"]["limit_disclosure"].clone()), "descriptor", "{j}");
            ensure_eq!(claim_formats(&d.format), j["format"], "format", "{j}");
            ensure_eq!(d.constraints.fields.is_some(), j["constraints"].get("fields").is_some(), "fields", "{j}");
            for (f, j) in d.constraints.fields.iter().flatten().zip(j["constraints"]["fields"].as_array().into_iter().flatten()) {
                n += 1;
                ensure_eq!(json!(f.path), j["path"], "path", "{j}");
                ensure_eq!((json!(f.optional), json!(f.intent_to_retain), o(&f.id), o(&f.predicate)), (j["optional"].clone(), j["intent_to_retain"].clone(), j["id"].clone(), j["predicate"].clone()), "field", "{j}");
                ensure_eq!((o(&f.name), o(&f.purpose)), (j["name"].clone(), j["purpose"].clone()), "field-texts", "{j}");
                match (&f.filter, j.get("filter")) {
                    (None, None) => {}
                    (Some(f), Some(j)) => {
                        ensure_eq!(json!(f.type_), j["type"], "filter-type", "{j}");
                        let (k, v) = match &f.value { FilterValue::Const(v) => ("const", v), FilterValue::Pattern(v) => ("pattern", v), FilterValue::Format(v) => ("format", v) };
                        ensure_eq!(json!(v), j[k], "filter", "{j} read as {f:?}");
                    }
                    (a, b) => return Err(Fail::new("filter", format!("{b:?} read as {a:?}"))),
                }
            }
        }
        Ok(Case::new(n > 0, j.to_string()))
    });
    su.check("submission", 6_000, 100_000, |s| {
        let j = submission(s);
        let d = PresentationSubmission::from_str(&text(s, &j)).map_err(|e| Fail::new("read-submission", format!("{j}: {e}")))?;
        ensure_eq!(serde_json::to_value(&d).unwrap(), j, "write-submission", "submission written again");
        ensure_eq!((json!(d.id), json!(d.definition_id)), (j["id"].clone(), j["definition_id"].clone()), "submission-ids", "{j}");
        for (m, j) in d.descriptor_map.iter().zip(j["descriptor_map"].as_array().unwrap()) {
            ensure_eq!((json!(m.id), json!(m.format), json!(m.path), json!(m.path_nested.format), json!(m.path_nested.path)),
                (j["id"].clone(), j["format"].clone(), j["path"].clone(), j["path_nested"]["format"].clone(), j["path_nested"]["path"].clone()), "mapping", "{j}");
        }
        Ok(Case::new(!d.descriptor_map.is_empty(), j.to_string()))
    });
    su.check("required", 3_000, 50_000, |s| {
        // what the specification requires must be there
        let n = s.size(0, 2);
        let d = json!({"id": id(s), "input_descriptors": (0..=n).map(|_| descriptor(s)).collect::<Vec<_>>()});
        let at = s.size(0, n);
        let mut bad = d.clone();
        let fat = s.size(0, 2);
        match s.upto(4) {
            4 => {
                // a field without its queries
                let mut fs: Vec<Value> = (0..=fat).map(|_| field(s)).collect();
                fs[fat / 2].as_object_mut().unwrap().remove("path");
                bad["input_descriptors"][at]["constraints"]["fields"] = json!(fs);
            }
            0 => { bad.as_object_mut().unwrap().remove("id"); }
            1 => { bad.as_object_mut().unwrap().remove("input_descriptors"); }
            2 => { bad["input_descriptors"][at].as_object_mut().unwrap().remove("id"); }
            _ => { bad["input_descriptors"][at].as_object_mut().unwrap().remove("constraints"); }
        }
        ensure!(serde_json::from_value::<PresentationDefinition>(d.clone()).is_ok(), "read", "{d}");
        ensure!(serde_json::from_value::<PresentationDefinition>(bad.clone()).is_err(), "missing-member", "read although a required member is missing: {bad}");
        let mut sub = submission(s);
        let k = s.one(&["id", "definition_id", "descriptor_map", "mapping id", "mapping format", "mapping path", "nested format", "nested path"]);
        if let Some((part, k)) = k.split_once(' ') {
            let mut m: Vec<Value> = s.vec(1, 3, |s| json!({"id": id(s), "format": id(s), "path": id(s), "path_nested": {"format": id(s), "path": id(s)}}));
            let at = s.size(0, m.len() - 1);
            (if part == "nested" { &mut m[at]["path_nested"] } else { &mut m[at] }).as_object_mut().unwrap().remove(k);
            sub["descriptor_map"] = json!(m);
        } else { sub.as_object_mut().unwrap().remove(k); }
        ensure!(serde_json::from_value::<PresentationSubmission>(sub.clone()).is_err(), "missing-member", "read although {k} is missing: {sub}");
        ensure!(PresentationSubmission::from_str(&sub.to_string()).is_err(), "missing-member", "read although {k} is missing: {sub}");
        Ok(Case::new(true, bad.to_string()))
    });
    su.finish()
}
