use pbt::{ensure, gen, Case, Suite};
use serde_json::{json, Value};
use vercre_dif_exch::Constraints;

use crate::cred::{self, Json};
use crate::{jpath, re};

pub fn run() -> ! {
    let mut su = Suite::new("C09", "any JSON as the credential, any text as query, pattern and format (mutations of valid ones included); the evaluation must return, and a required field whose queries or filter are malformed or unsupported must not be satisfied; non-trivial: a filter is present");
    su.scale(8);
    su.check("returns", 15_000, 400_000, |s| {
        let v = if s.bool() { cred::credential(s) } else { gen::json(s, 3) };
        let any_text = |s: &mut pbt::Src| match s.upto(3) {
            0 => gen::text(s, 12),
            1 => { let mut t = jpath::path(s, &v).text(); mutate(s, &mut t); t }
            2 => { let mut t = re::regex(s, "EmployeeID").text(); mutate(s, &mut t); t }
            _ => (*s.pick(&["date", "date-time", "time", "email", "uri", "uuid", "", "$", "$.", "$[", "$..", "$[?@.a==1]", "$[?(@.a)]", "$[1:2:0]", "(", "[", "a{99999}", "\\", "(?P<n>", "$.a[99999999999999999999]"])).to_string(),
        };
        let fields: Vec<Value> = s.vec(1, 3, |s| {
            let mut paths = s.vec(0, 3, any_text);
            if s.chance(2, 3) { paths.push(jpath::path(s, &v).text()); }
            let mut f = json!({"path": paths});
            if s.chance(3, 4) { let k = s.one(&["const", "pattern", "format"]); f["filter"] = json!({"type": s.one(&["string", "number", "x"]), k: any_text(s)}); }
            if s.bool() { f["optional"] = json!(s.bool()); }
            f
        });
        let c: Constraints = serde_json::from_value(json!({"fields": fields})).unwrap();
        let r = c.satisfied(&Json(v.clone()));
        Ok(Case::new(fields.iter().any(|f| f.get("filter").is_some()), format!("{v} | {} -> {r:?}", json!(c))))
    });
    // supported filters over claims of any text, dates with foreign characters in them included
    su.check("texts", 20_000, 400_000, |s| {
        let t = match s.upto(2) {
            0 => gen::text(s, 40),
            1 => { let mut t = if s.bool() { cred::date(s) } else { cred::datetime(s) }; for _ in 0..s.size(0, 2) { mutate(s, &mut t); } t }
            _ => s.vec(0, 40, |s| s.one(&["0", "2", "-", ":", "T", "Z", ".", "é", "日", "😀", "\u{0}", " "])).concat(),
        };
        let v = if s.chance(1, 6) { json!([t]) } else { json!(t) };
        let filter = match s.upto(3) { 0 => json!({"type": "string", "format": "date"}), 1 => json!({"type": "string", "format": "date-time"}), 2 => json!({"type": "string", "const": gen::text(s, 12)}), _ => json!({"type": "string", "pattern": re::regex(s, &t).text()}) };
        let c: Constraints = serde_json::from_value(json!({"fields": [{"path": ["$.claim"], "filter": filter}]})).unwrap();
        let r = c.satisfied(&Json(json!({"claim": v})));
        Ok(Case::new(true, format!("{t:?} under {filter} -> {r:?}")))
    });
    su.check("refused", 6_000, 100_000, |s| {
        let v = cred::credential(s);
        // text that is not a regular expression and text that is not a query, with claims holding that very text
        let mut bad_re = re::regex(s, "Employee").text();
        for _ in 0..6 { mutate(s, &mut bad_re); if regex::Regex::new(&bad_re).is_err() { break; } }
        if regex::Regex::new(&bad_re).is_ok() { bad_re = s.one(&["(", "a[b", "*x", "x{3,1}"]).into(); }
        let mut bad_path = jpath::path(s, &v).text();
        for _ in 0..6 { mutate(s, &mut bad_path); if serde_json_path::JsonPath::parse(&bad_path).is_err() { break; } }
        if serde_json_path::JsonPath::parse(&bad_path).is_ok() { bad_path = "claim".into(); }
        let lit = if s.bool() { bad_re.clone() } else { format!("x{bad_re}y") };
        let stripped = bad_path.trim_start_matches(['$', '.']).to_string();
        let hit = json!({"claim": v, "type": ["VerifiableCredential"], "lit": lit.clone(), "lits": [lit], bad_path.clone(): 1, stripped: 1,
            "time": "12:00:00Z", "email": "a@b.io", "uuid": "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "date": "2024-02-29", "full": "2024-02-29T12:00:00Z", "uri": "https://a.io/x", "ip": "10.0.0.1", "num": 7, "flag": true});
        let (pick_near, odd, one_path) = (s.size(0, 18), gen::ident(s), s.one(&["$.date", "$.full", "$.type", "$.claim", "$.time", "$.email", "$.uuid", "$.uri", "$.ip", "$.num", "$.flag", "$.lits[0]"]));
        let huge = s.chance(1, 200);
        let mut expect_refused = |f: Value, sig: &str| -> Result<(), pbt::Fail> {
            // malformed input is refused whether or not the field is optional
            let mut f = f;
            if !["no-path", "missing"].contains(&sig) { if let Some(o) = s.one(&[None, Some(false), Some(true)]) { f["optional"] = json!(o); } }
            let mut fields = s.vec(0, 2, |s| json!({"path": [jpath::path(s, &hit).text()], "optional": true}));
            let i = s.size(0, fields.len());
            fields.insert(i, f);
            let c: Constraints = serde_json::from_value(json!({"fields": fields})).unwrap();
            ensure!(!c.satisfied(&Json(hit.clone())).unwrap_or(false), sig, "satisfied by {hit}: {}", json!(c));
            Ok(())
        };
        // queries that are not JSONPath
        for bad in ["", "type", "$.", "$[", "$['type", "..type", "$.claim[", "$[?", "@.type", " $.type x"] {
            expect_refused(json!({"path": [bad]}), "bad-path")?;
        }
        expect_refused(json!({"path": [bad_path.clone()]}), "bad-path")?;
        // nor does a query that comes after, or a value that would pass, make up for it
        expect_refused(json!({"path": [bad_path.clone(), "$.type"]}), "bad-path")?;
        expect_refused(json!({"path": ["$.missing", bad_path.clone(), "$.type", "$.claim"]}), "bad-path")?;
        expect_refused(json!({"path": ["$.email", bad_path.clone(), "$.date"], "filter": {"type": "string", "const": "2024-02-29"}}), "bad-path")?;
        expect_refused(json!({"path": [bad_path], "filter": {"type": "number", "const": "1"}}), "bad-path")?;
        expect_refused(json!({"path": ["$.lit", "$.type", "$.missing"], "filter": {"type": "string", "pattern": bad_re.clone()}}), "bad-pattern")?;
        for p in ["$.lit", "$.lits", "$.lits[0]"] { expect_refused(json!({"path": [p], "filter": {"type": "string", "pattern": bad_re.clone()}}), "bad-pattern")?; }
        // expressions that are not regular expressions
        for bad in ["(", "[a", "a{2", "*", "(?P<", "\\", "a{3,1}", "+", "\\101", "\\1", "(?=x)", "(?<!y)", "(?z)", "\\p{Nope}"] {
            if bad == "a{2" { continue; }
            expect_refused(json!({"path": ["$.type"], "filter": {"type": "string", "pattern": bad}}), "bad-pattern")?;
        }
        // nor those too large to compile
        if huge { expect_refused(json!({"path": ["$.email"], "filter": {"type": "string", "pattern": "(?:a{1000}){1000}|@"}}), "bad-pattern")?; }
        // formats that are not supported cannot be found to hold
        let near = ["datetime", "date_time", "Date-Time", "date-times", "dates", "full-date", "dat", "date-", "\"date\"", "date,date-time", "uri", "url", "hostname", "regex", "ipv6", "duration", "iso8601", "string", "*"];
        let (n, t) = (near[pick_near], odd);
        for bad in ["time", "email", "uuid", "ipv4", "", "Date", "DATE-TIME", "date ", n, if t == "date" || t == "date-time" { "odd" } else { t.as_str() }] {
            for p in [json!(["$.type", "$.claim", "$.time", "$.email", "$.uuid", "$.date", "$.full", "$.lits", "$.uri", "$.ip", "$.num", "$.flag"]), json!([one_path])] {
                expect_refused(json!({"path": p, "filter": {"type": "string", "format": bad}}), "bad-format")?;
            }
        }
        // nothing there
        expect_refused(json!({"path": []}), "no-path")?;
        expect_refused(json!({"path": ["$.missing", "$.claim.missing.deeper", "$.type[7]"]}), "missing")?;
        expect_refused(json!({"path": ["$.missing"], "optional": false}), "missing")?;
        Ok(Case::new(true, hit.to_string()))
    });
    su.finish()
}
fn mutate(s: &mut pbt::Src, t: &mut String) {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..s.size(1, 2) {
        let i = s.size(0, c.len());
        match s.upto(2) { 0 if i < c.len() => { c.remove(i); } 1 if i < c.len() => c[i] = s.one(gen::NASTY), _ => c.insert(i, s.one(gen::NASTY)) }
    }
    *t = c.into_iter().collect();
}
