//! Macro invocations together with the JSON they stand for.
use pbt::{gen, Src};
use serde_json::{json, Map, Value};

const NAMES: &[&str] = &["credential_issuer", "client_id", "state", "subject_id", "code", "credential", "request", "access_token", "details", "value", "proof", "claims", "redirect_uri", "scope", "format", "locations", "type_", "grant_type", "jwt", "map", "subject", "authorization_details", "credential_definition", "context", "tx_code", "path", "input", "r", "v", "x"];
/// A value as it is written in the invocation.
#[derive(Clone, Debug)]
pub enum V { Str(String, u8), Bool(bool), Int(i64), Arr(Vec<V>), Obj(Vec<(String, V)>), Raw(String), Expr(&'static str, &'static str, Value), Strs(Vec<String>, u8) }
impl V {
    pub fn json(&self) -> Value {
        match self {
            Self::Str(t, _) => json!(t), Self::Bool(b) => json!(b), Self::Int(i) => json!(i),
            Self::Arr(a) => a.iter().map(Self::json).collect(),
            Self::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), v.json())).collect()),
            Self::Raw(_) => Value::Null,
            Self::Expr(_, _, j) => j.clone(), Self::Strs(v, _) => json!(v),
        }
    }
    fn code(&self, vars: &mut Vec<String>, tr: bool) -> String {
        match self {
            Self::Str(t, style) => {
                let n = vars.len();
                match style {
                    0 => format!("{t:?}"),
                    1 => { vars.push(format!("let v{n} = {t:?};")); format!("v{n}") }
                    2 => { vars.push(format!("let v{n} = String::from({t:?});")); format!("v{n}") }
                    3 => { vars.push(format!("const K{n}: &str = {t:?};")); format!("K{n}") }
                    4 => { vars.push(format!("let v{n} = {t:?};")); format!("v{n}.to_string()") }
                    5 => { vars.push(format!("let v{n} = {t:?};")); format!("&v{n}") }
                    6 => format!("String::from({t:?})"),
                    // a raw string
                    8 if !t.contains(['#', '\r']) => format!("r##\"{t}\"##"),
                    8 => format!("{t:?}"),
                    9 => { vars.push(format!("fn f{n}(x: &str) -> String {{ x.to_string() }}")); format!("f{n}({t:?})") }
                    10 => { vars.push(format!("mod m{n} {{ pub const K: &str = {t:?}; }}")); format!("m{n}::K") }
                    11 => { vars.push(format!("let v{n} = String::from({t:?});")); format!("&v{n}") }
                    12 => { vars.push(format!("let v{n} = Some({t:?});")); format!("v{n}.map(|x| x.to_string()).unwrap()") }
                    // variables named as members are, and as an expansion might name its own
                    15 => { let k = NAMES.get(n).map_or_else(|| format!("v{n}"), |k| (*k).to_string()); vars.push(format!("let {k} = {t:?};")); k }
                    16 => { let k = NAMES.get(n).map_or_else(|| format!("v{n}"), |k| (*k).to_string()); vars.push(format!("let {k} = String::from({t:?});")); k }
                    // evaluated exactly once
                    13 => { vars.push(format!("let n{n} = std::cell::Cell::new(0); let v{n} = || {{ n{n}.set(n{n}.get() + 1); String::from({t:?}) }};")); format!("v{n}()") }
                    14 => { vars.push(format!("struct S{n} {{ f: String }} let v{n} = S{n} {{ f: String::from({t:?}) }};")); format!("&v{n}.f") }
                    _ => { vars.push(format!("struct S{n} {{ f: &'static str }} let v{n} = S{n} {{ f: {t:?} }};")); format!("v{n}.f") }
                }
            }
            Self::Bool(b) => b.to_string(),
            Self::Int(i) => i.to_string(),
            Self::Arr(a) => format!("[{}{}]", a.iter().map(|v| v.code(vars, tr)).collect::<Vec<_>>().join(", "), if tr && !a.is_empty() { "," } else { "" }),
            Self::Obj(o) => obj_code(o, vars, tr, tr),
            Self::Raw(r) => r.clone(),
            Self::Expr(decl, code, _) => { let n = vars.len(); vars.push(decl.replace('#', &n.to_string())); code.replace('#', &n.to_string()) }
            Self::Strs(v, style) => {
                let n = vars.len();
                let list = v.iter().map(|t| format!("String::from({t:?})")).collect::<Vec<_>>().join(", ");
                match style {
                    0 => { vars.push(format!("let v{n}: Vec<String> = vec![{list}];")); format!("v{n}") }
                    1 => { vars.push(format!("let v{n}: Vec<String> = vec![{list}];")); format!("v{n}.clone()") }
                    _ => { vars.push(format!("fn f{n}() -> Vec<String> {{ vec![{list}] }}")); format!("f{n}()") }
                }
            }
        }
    }
}
fn obj_code(o: &[(String, V)], vars: &mut Vec<String>, trailing: bool, nested: bool) -> String {
    let mut body = o.iter().map(|(k, v)| format!("{k:?}: {}", v.code(vars, nested))).collect::<Vec<_>>().join(", ");
    if trailing && !o.is_empty() { body.push(','); }
    format!("{{{body}}}")
}
#[derive(Clone, Debug)]
pub struct Call { pub mac: &'static str, pub fields: Vec<(String, V)>, pub trailing: u8, pub want: Value }
impl Call {
    pub fn code(&self) -> String {
        let mut vars = vec![];
        let o = obj_code(&self.fields, &mut vars, self.trailing > 0, self.trailing > 1);
        let once: String = vars.iter().enumerate().filter(|v| v.1.starts_with(&format!("let n{} =", v.0))).map(|v| format!("assert_eq!(n{}.get(), 1); ", v.0)).collect();
        format!("{{ {} let r = {}!({o}); {once}serde_json::to_value(&r).unwrap() }}", vars.join(" "), self.mac)
    }
    pub fn get(&self, k: &str) -> Option<&V> { self.fields.iter().find(|f| f.0 == k).map(|f| &f.1) }
}
/// Text in a position that takes anything convertible into text.
fn t(s: &mut Src) -> V { let v = gen::ident(s); V::Str(v, s.upto(16) as u8) }
/// Text in a position that takes a literal or a `String`.
fn lit(s: &mut Src) -> V { let v = gen::ident(s); V::Str(v, s.one(&[0, 0, 0, 2, 4, 6, 8, 9, 11, 12, 13, 14, 16])) }
/// A fixed text, mostly as a literal.
fn fixed(s: &mut Src, t: &str) -> V { V::Str(t.into(), if s.chance(2, 3) { 0 } else { s.upto(14) as u8 }) }
pub fn l(t: &str) -> V { V::Str(t.into(), 0) }
fn subject(s: &mut Src, depth: usize) -> V {
    let mut o: Vec<(String, V)> = vec![];
    const CLAIMS: &[&str] = &["id", "type", "name", "given_name", "email", "address", "mandatory", "value_type", "display", "order", "credentialSubject", "@context", "format", "claims", "_sd", "org.iso.18013.5.1.aamva"];
    let most = if s.chance(1, 30) { 24 } else { 4 };
    for (k, v) in s.vec(0, most, |s| (match s.upto(2) { 0 => gen::word(s, 1, 6), 1 => gen::ident(s), _ => s.one(CLAIMS).to_string() }, if depth > 0 && s.chance(1, if depth > 2 { 2 } else { 3 }) { subject(s, depth - 1) } else { V::Obj(vec![]) })) {
        if !o.iter().any(|e| e.0 == k) { o.push((k, v)); }
    }
    V::Obj(o)
}
fn types(s: &mut Src) -> V { if s.chance(1, 4) { V::Strs(s.vec(0, 4, gen::ident), s.upto(2) as u8) } else { V::Arr(s.vec(0, 4, lit)) } }
fn opt(o: &mut Vec<(String, V)>, s: &mut Src, k: &str, f: impl Fn(&mut Src) -> V) { if s.bool() { let v = f(s); o.push((k.into(), v)); } }
fn detail(s: &mut Src) -> V {
    let mut o = vec![("type".to_string(), l("openid_credential"))];
    if s.bool() {
        o.push(("credential_configuration_id".into(), lit(s)));
        if s.bool() {
            let mut d = vec![];
            opt(&mut d, s, "type", types);
            opt(&mut d, s, "credentialSubject", |s| { let n = s.one(&[2, 2, 2, 6]); subject(s, n) });
            if s.chance(1, 3) { d.push(("@context".into(), types(s))); }
            s.shuffle(&mut d);
            o.push(("credential_definition".into(), V::Obj(d)));
        }
    } else {
        o.push(("format".into(), l("jwt_vc_json")));
        let mut d = vec![("type".to_string(), types(s))];
        opt(&mut d, s, "credentialSubject", |s| { let n = s.one(&[2, 2, 2, 6]); subject(s, n) });
        o.push(("credential_definition".into(), V::Obj(d)));
    }
    if s.chance(1, 3) { o.push(("locations".into(), types(s))); }
    s.shuffle(&mut o);
    V::Obj(o)
}
pub const ENC: &str = r#"{"jwk": {"kty": "OKP", "crv": "X25519", "x": "abc"}, "alg": "ECDH-ES", "enc": "A256GCM"}"#;
pub const ENC_DECL: &str = r##"let q# = serde_json::from_str::<vercre_issuer::CredentialRequest>("{\"credential_identifier\": \"x\", \"credential_response_encryption\": {\"jwk\": {\"kty\": \"OKP\", \"crv\": \"X25519\", \"x\": \"abc\"}, \"alg\": \"ECDH-ES\", \"enc\": \"A256GCM\"}}").unwrap(); let v# = q#.credential_response_encryption.unwrap();"##;
pub const MACROS: &[&str] = &["create_offer_request", "authorization_request", "token_request", "credential_request"];
pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

pub fn call(s: &mut Src, which: usize) -> Call {
    let mac = MACROS[which];
    let mut o: Vec<(String, V)> = vec![("credential_issuer".into(), t(s))];
    match which {
        0 => {
            opt(&mut o, s, "subject_id", t);
            o.push(("credential_configuration_ids".into(), V::Arr(if s.chance(1, 10) { s.vec(5, 20, lit) } else { s.vec(1, 4, lit) })));
            opt(&mut o, s, "grant_types", |s| { let n = s.one(&[3, 3, 3, 3, 7]); V::Arr(s.vec(0, n, |s| l(s.one(&[PRE, "authorization_code"])))) });
            opt(&mut o, s, "tx_code_required", |s| { let b = s.bool(); match s.upto(3) { 0 | 1 => V::Bool(b), 2 => V::Expr(if b { "let v# = true;" } else { "let v# = false;" }, "v#", json!(b)), _ => V::Expr(if b { "let v# = Some(1);" } else { "let v# = None::<u8>;" }, "v#.is_some()", json!(b)) } });
            if s.bool() {
                let r = s.bool();
                let by = json!(if r { "ByRef" } else { "ByVal" });
                o.push(("send_type".into(), if s.bool() { V::Expr("", if r { "vercre_issuer::SendType::ByRef" } else { "vercre_issuer::SendType::ByVal" }, by) } else { V::Expr(if r { "let v# = vercre_issuer::SendType::ByRef;" } else { "let v# = vercre_issuer::SendType::ByVal;" }, "v#", by) }));
            }
        }
        1 => {
            o.push(("response_type".into(), fixed(s, "code")));
            o.push(("client_id".into(), t(s)));
            o.push(("code_challenge".into(), t(s)));
            o.push(("code_challenge_method".into(), fixed(s, "S256")));
            o.push(("subject_id".into(), t(s)));
            for k in ["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"] { opt(&mut o, s, k, t); }
            opt(&mut o, s, "authorization_details", |s| V::Arr(if s.chance(1, 12) { s.vec(4, 9, detail) } else { s.vec(0, 3, detail) }));
        }
        2 => {
            opt(&mut o, s, "client_id", t);
            if s.bool() {
                o.push(("grant_type".into(), l(PRE)));
                o.push(("pre-authorized_code".into(), t(s)));
                opt(&mut o, s, "tx_code", t);
            } else {
                o.push(("grant_type".into(), l("authorization_code")));
                o.push(("code".into(), t(s)));
                o.push(("code_verifier".into(), t(s)));
                opt(&mut o, s, "redirect_uri", t);
            }
            opt(&mut o, s, "authorization_details", |s| V::Arr(if s.chance(1, 12) { s.vec(4, 9, detail) } else { s.vec(0, 3, detail) }));
        }
        _ => {
            o.push(("access_token".into(), t(s)));
            if s.bool() { o.push(("credential_identifier".into(), t(s))); } else {
                o.push(("format".into(), l("jwt_vc_json")));
                let mut d = vec![("type".to_string(), types(s))];
                opt(&mut d, s, "credentialSubject", |s| { let n = s.one(&[2, 2, 2, 6]); subject(s, n) });
                o.push(("credential_definition".into(), V::Obj(d)));
            }
            opt(&mut o, s, "proof", |s| { let mut p = vec![("proof_type".into(), l("jwt")), ("jwt".into(), t(s))]; s.shuffle(&mut p); V::Obj(p) });
            if s.chance(1, 6) {
                o.push(("credential_response_encryption".into(), V::Expr(ENC_DECL, "v#", serde_json::from_str(ENC).unwrap())));
            }
        }
    }
    s.shuffle(&mut o);
    let mut want: Map<String, Value> = o.iter().map(|(k, v)| (k.clone(), v.json())).collect();
    if which == 0 {
        want.entry("tx_code_required").or_insert(json!(false));
        want.entry("send_type").or_insert(json!("ByVal"));
    }
    if which == 2 { want.entry("client_id").or_insert(Value::Null); }
    for k in ["credential_issuer", "access_token"] { if want.get(k) == Some(&json!("")) { want.remove(k); } }
    Call { mac, fields: o, trailing: s.one(&[0, 0, 1, 1, 2]), want: Value::Object(want) }
}
/// Every member some request has.
pub const ALL: &[&str] = &["credential_issuer", "subject_id", "credential_configuration_ids", "grant_types", "tx_code_required", "send_type", "response_type", "client_id", "redirect_uri", "state", "code_challenge", "code_challenge_method", "authorization_details", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state",
    "grant_type", "pre-authorized_code", "tx_code", "code", "code_verifier", "access_token", "credential_identifier", "format", "credential_definition", "proof", "credential_response_encryption"];
/// A name that is not `k`: any other, or one much like it.
fn odd_key(s: &mut Src, k: &str) -> String {
    match s.upto(11) {
        0 => gen::word(s, 1, 8),
        1 => gen::ident(s),
        2 => format!("{k}x"),
        3 => k.to_uppercase(),
        4 => format!("{}{}", s.one(&["_", "x-", "x_", "$", "@", "#", ".", "-", "//", "r#"]), if s.bool() { k.to_string() } else { gen::word(s, 0, 6) }),
        5 => format!("{k}{}", s.one(&[" ", "_", "s", "?", "[]", ":", "\0", "\n", "*"])),
        6 => format!(" {k}"),
        7 => { let mut up = false; k.chars().filter_map(|c| if c == '_' { up = true; None } else if up { up = false; Some(c.to_ascii_uppercase()) } else { Some(c) }).collect() }
        8 => if k.contains('-') { k.replace('-', "_") } else { k.replace('_', "-") },
        9 => k.replace('_', s.one(&["", " ", "."])),
        10 => { let mut c: Vec<char> = k.chars().collect(); if !c.is_empty() { c[0] = c[0].to_ascii_uppercase(); } c.into_iter().collect() }
        _ => { let mut c: Vec<char> = k.chars().collect(); let i = s.size(0, c.len().max(1) - 1); if i < c.len() { c.remove(i); } c.into_iter().collect() }
    }
}
/// A text that is none of those supported: much like one of them, or one that other specifications have.
fn near(s: &mut Src, good: &[&'static str], others: &[&str]) -> String {
    let g = s.one(good);
    let t = match s.upto(3) { 0 | 1 => s.one(others).to_string(), 2 => odd_key(s, g), _ => format!("{}{g}{}", s.one(&["", "x", "urn:", " "]), s.one(&["", "-ld", "s", "_2", " "])) };
    if good.contains(&t.as_str()) { format!("{t}_") } else { t }
}
const GRANTS: &[&str] = &["implicit", "password", "", "pre-authorized_code", "Authorization_code", "client_credentials", "refresh_token", "urn:ietf:params:oauth:grant-type:jwt-bearer", "urn:ietf:params:oauth:grant-type:", "code"];
const FORMATS: &[&str] = &["mdoc", "", "jwt_vc", "JWT_VC_JSON", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc", "vc+sd-jwt", "jwt_vp_json", "jwt"];
const PROOFS: &[&str] = &["cwt", "ldp_vp", "", "JWT", "jwt_vp", "jwt_vc", "attestation"];
/// Any value.
fn any(s: &mut Src) -> V { match s.weighted(&[6, 1, 1, 1, 1]) { 0 => lit(s), 1 => V::Bool(s.bool()), 2 => V::Int(s.int(0, 9)), 3 => V::Arr(s.vec(0, 2, lit)), _ => subject(s, 1) } }
/// A detail as generated, without one of the members it must have.
fn spoilt_detail(s: &mut Src) -> (V, &'static str) {
    let V::Obj(mut o) = detail(s) else { unreachable!() };
    let by_format = o.iter().any(|f| f.0 == "format");
    let k = if by_format { s.one(&["type", "format", "credential_definition", "definition type"]) } else { s.one(&["type", "credential_configuration_id"]) };
    if k == "definition type" {
        for f in &mut o { if let ("credential_definition", V::Obj(d)) = (f.0.as_str(), &mut f.1) { d.retain(|g| g.0 != "type"); } }
    } else { o.retain(|f| f.0 != k); }
    (V::Obj(o), match k { "type" => "a detail without type", "format" => "a detail without format", "credential_definition" => "a detail without definition", "credential_configuration_id" => "a detail without configuration id", _ => "a definition without type" })
}
/// An invocation that must be refused, and why.
pub fn bad_call(s: &mut Src, which: usize) -> (Call, String) {
    let mut c = call(s, which);
    let drop = |c: &mut Call, k: &str| c.fields.retain(|f| f.0 != k);
    let set = |c: &mut Call, k: &str, v: V| { if let Some(f) = c.fields.iter_mut().find(|f| f.0 == k) { f.1 = v; } else { c.fields.push((k.into(), v)); } };
    let required: Vec<&str> = match which {
        0 => vec!["credential_issuer", "credential_configuration_ids"],
        1 => vec!["credential_issuer", "response_type", "client_id", "code_challenge", "code_challenge_method", "subject_id"],
        2 => { let mut r = vec!["credential_issuer", "grant_type"]; if c.get("code").is_some() { r.extend(["code", "code_verifier"]); } else { r.push("pre-authorized_code"); } r }
        _ => { let mut r = vec!["credential_issuer", "access_token"]; if c.get("format").is_some() { r.extend(["format", "credential_definition"]); } else { r.push("credential_identifier"); } r }
    };
    let has_details = which == 1 || which == 2;
    let why = match s.weighted(&[3, 3, 4]) {
        0 => { let k = s.one(&required); drop(&mut c, k); format!("missing {k}") }
        1 => {
            let known: Vec<String> = c.fields.iter().map(|f| f.0.clone()).collect();
            let own: &[&str] = [&["credential_issuer", "subject_id", "credential_configuration_ids", "grant_types", "tx_code_required", "send_type"][..],
                &["credential_issuer", "response_type", "client_id", "redirect_uri", "state", "code_challenge", "code_challenge_method", "authorization_details", "scope", "resource", "subject_id", "wallet_issuer", "user_hint", "issuer_state"],
                &["credential_issuer", "client_id", "grant_type", "pre-authorized_code", "tx_code", "code", "code_verifier", "redirect_uri", "authorization_details"],
                &["credential_issuer", "access_token", "credential_identifier", "format", "credential_definition", "proof", "credential_response_encryption"]][which];
            let others: Vec<&str> = ALL.iter().copied().filter(|k| !own.contains(k)).collect();
            // a member of another request, one that no request has, or one much like its own
            let k = if s.chance(1, 3) { s.one(&others).to_string() } else if s.chance(1, 4) { s.one(&["code_x", "presentation_definition", "client_assertion", "locations", "nonce", "credentials", "pre_authorized_code", "proofs"]).to_string() } else { let k = s.one(&known); odd_key(s, &k) };
            let k = if own.contains(&k.as_str()) { format!("{k}_") } else { k };
            let at = s.size(0, c.fields.len());
            let v = any(s);
            c.fields.insert(at, (k.clone(), v));
            format!("unexpected {k}")
        }
        _ if which == 0 => match s.upto(4) {
            0 => { set(&mut c, "credential_configuration_ids", V::Arr(vec![])); "no configuration ids".into() }
            1 => { set(&mut c, "credential_configuration_ids", lit(s)); "configuration ids not a list".into() }
            2 => { let mut v = vec![l(PRE), l("authorization_code")]; let at = s.size(0, 2); v.insert(at, l(&near(s, &[PRE, "authorization_code"], GRANTS))); set(&mut c, "grant_types", V::Arr(v)); "unsupported grant type".into() }
            3 => { set(&mut c, "grant_types", lit(s)); "grant types not a list".into() }
            _ => { set(&mut c, "grant_types", V::Arr(vec![V::Int(3)])); "grant type not text".into() }
        },
        _ if has_details && s.chance(3, 4) => {
            let mut d = if s.chance(1, 10) { s.vec(3, 6, detail) } else { s.vec(0, 2, detail) };
            let (v, why) = match s.upto(17) {
                13.. => spoilt_detail(s),
                9 | 10 => {
                    // a member a detail does not have, or one of the other kind of detail
                    let V::Obj(mut o) = detail(s) else { unreachable!() };
                    let by_format = o.iter().any(|f| f.0 == "format");
                    let other = if by_format { "doctype" } else { "format" };
                    let k = if s.bool() { s.one(&["credential_identifiers", "claims", "scope", "Type", "location", "credentialSubject", other]).to_string() } else { let k = o[s.size(0, o.len() - 1)].0.clone(); odd_key(s, &k) };
                    let k = if ["type", "format", "credential_configuration_id", "credential_definition", "locations"].contains(&k.as_str()) && k != other { format!("{k}_") } else { k };
                    let at = s.size(0, o.len());
                    let v = if k == "format" { l("jwt_vc_json") } else { any(s) };
                    o.insert(at, (k, v));
                    (V::Obj(o), "unexpected member of a detail")
                }
                11 | 12 => {
                    let by_format = s.bool();
                    let mut d = vec![("type".to_string(), types(s))];
                    opt(&mut d, s, "credentialSubject", |s| subject(s, 1));
                    let at = s.size(0, d.len());
                    let k = if s.bool() { s.one(&["types", "credential_subject", "CredentialSubject", "id", if by_format { "@context" } else { "context" }]).to_string() } else { let k = s.one(&["type", "credentialSubject"]); odd_key(s, k) };
                    let k = if ["type", "credentialSubject"].contains(&k.as_str()) || (!by_format && k == "@context") { format!("{k}_") } else { k };
                    d.insert(at, (k, V::Arr(s.vec(0, 2, lit))));
                    let mut o = vec![("type".to_string(), l("openid_credential"))];
                    if by_format { o.push(("format".into(), l("jwt_vc_json"))); } else { o.push(("credential_configuration_id".into(), lit(s))); }
                    o.push(("credential_definition".into(), V::Obj(d)));
                    s.shuffle(&mut o);
                    (V::Obj(o), "unexpected member of a definition")
                }
                0 => (lit(s), "detail not an object"),
                1 => (V::Obj(vec![("type".into(), l(&near(s, &["openid_credential"], &["other", "", "openid_credential ", "OpenID_Credential", "openid"]))), ("credential_configuration_id".into(), lit(s))]), "detail type"),
                2 => (V::Obj(vec![("credential_configuration_id".into(), lit(s))]), "detail type missing"),
                3 => (V::Obj(vec![("type".into(), l("openid_credential"))]), "neither configuration id nor format"),
                4 => (V::Obj(vec![("type".into(), l("openid_credential")), ("format".into(), l("jwt_vc_json"))]), "format without definition"),
                5 => (V::Obj(vec![("type".into(), l("openid_credential")), ("format".into(), l(&near(s, &["jwt_vc_json"], FORMATS))), ("credential_definition".into(), V::Obj(vec![("type".into(), types(s))]))]), "unknown format"),
                6 => (V::Obj(vec![("type".into(), l("openid_credential")), ("format".into(), l("jwt_vc_json")), ("credential_definition".into(), V::Obj(vec![]))]), "definition without type"),
                7 => (V::Obj(vec![("type".into(), l("openid_credential")), ("credential_configuration_id".into(), lit(s)), ("credential_definition".into(), lit(s))]), "definition not an object"),
                _ => (V::Obj(vec![("type".into(), l("openid_credential")), ("credential_configuration_id".into(), lit(s)), ("credential_definition".into(), V::Obj(vec![("credentialSubject".into(), lit(s))]))]), "subject not an object"),
            };
            let at = s.size(0, d.len());
            d.insert(at, v);
            set(&mut c, "authorization_details", V::Arr(d));
            why.into()
        }
        _ if has_details => match (which, s.bool()) {
            (2, true) => { let st = s.one(&[0, 0, 1, 2, 3, 6]); set(&mut c, "grant_type", V::Str(near(s, &[PRE, "authorization_code"], GRANTS), st)); "unknown grant type".into() }
            (2, false) => {
                let k = if c.get("code").is_some() { s.one(&["tx_code", "pre-authorized_code"]) } else { s.one(&["code_verifier", "code", "redirect_uri"]) };
                let v = t(s);
                let at = s.size(0, c.fields.len());
                c.fields.insert(at, (k.into(), v));
                format!("member of the other grant: {k}")
            }
            _ => { set(&mut c, "authorization_details", lit(s)); "details not a list".into() }
        },
        _ => match s.upto(12) {
            9 => {
                // a request by format, as generated, without one of its parts
                drop(&mut c, "credential_identifier");
                let mut d = vec![("type".to_string(), types(s))];
                opt(&mut d, s, "credentialSubject", |s| { let n = s.one(&[2, 2, 2, 6]); subject(s, n) });
                s.shuffle(&mut d);
                let k = s.one(&["format", "credential_definition", "type"]);
                if k == "type" { d.retain(|f| f.0 != "type"); }
                set(&mut c, "format", l("jwt_vc_json"));
                set(&mut c, "credential_definition", V::Obj(d));
                if k != "type" { drop(&mut c, k); }
                format!("by format without {k}")
            }
            6 => { let mut p = vec![("proof_type".to_string(), l("jwt")), ("jwt".into(), lit(s))]; let at = s.size(0, 2); let k = if s.bool() { s.one(&["cwt", "nonce", "proof", "JWT", "type"]).to_string() } else { let k = s.one(&["proof_type", "jwt"]); odd_key(s, k) }; let k = if k == "proof_type" || k == "jwt" { format!("{k}_") } else { k }; p.insert(at, (k, lit(s))); set(&mut c, "proof", V::Obj(p)); "unexpected member of a proof".into() }
            7 => { set(&mut c, "credential_identifier", lit(s)); set(&mut c, "format", l("jwt_vc_json")); if s.bool() { set(&mut c, "credential_definition", V::Obj(vec![("type".into(), types(s))])); } "identifier and format".into() }
            10 => { drop(&mut c, "format"); set(&mut c, "credential_identifier", lit(s)); set(&mut c, "credential_definition", V::Obj(vec![("type".into(), types(s))])); "identifier and definition".into() }
            11 => { let v = near(s, &["jwt"], PROOFS); let st = s.one(&[1, 2, 3, 6]); set(&mut c, "proof", V::Obj(vec![("proof_type".into(), V::Str(v, st)), ("jwt".into(), lit(s))])); "proof type by expression".into() }
            12 => { drop(&mut c, "credential_identifier"); let st = s.one(&[1, 2, 3, 6]); set(&mut c, "format", V::Str(near(s, &["jwt_vc_json"], FORMATS), st)); set(&mut c, "credential_definition", V::Obj(vec![("type".into(), types(s))])); "unsupported format by expression".into() }
            8 => {
                drop(&mut c, "credential_identifier");
                set(&mut c, "format", l("jwt_vc_json"));
                let mut d = vec![("type".to_string(), types(s))];
                let at = s.size(0, 1);
                let k = if s.bool() { s.one(&["@context", "types", "credential_subject", "CredentialSubject", "id"]).to_string() } else { let k = s.one(&["type", "credentialSubject"]); odd_key(s, k) };
                let k = if k == "type" || k == "credentialSubject" { format!("{k}_") } else { k };
                d.insert(at, (k, V::Arr(s.vec(0, 2, lit))));
                set(&mut c, "credential_definition", V::Obj(d));
                "unexpected member of a definition".into()
            }
            0 => { set(&mut c, "proof", lit(s)); "proof not an object".into() }
            1 => { set(&mut c, "proof", V::Obj(vec![("jwt".into(), lit(s))])); "proof type missing".into() }
            2 => { set(&mut c, "proof", V::Obj(vec![("proof_type".into(), l(&near(s, &["jwt"], PROOFS))), ("jwt".into(), lit(s))])); "proof type".into() }
            3 => { set(&mut c, "proof", V::Obj(vec![("proof_type".into(), l("jwt"))])); "proof without jwt".into() }
            4 => { drop(&mut c, "credential_identifier"); set(&mut c, "format", l("jwt_vc_json")); set(&mut c, "credential_definition", V::Obj(vec![])); "definition without type".into() }
            _ => { drop(&mut c, "credential_identifier"); set(&mut c, "format", l(&near(s, &["jwt_vc_json"], FORMATS))); set(&mut c, "credential_definition", V::Obj(vec![("type".into(), types(s))])); "unsupported format".into() }
        },
    };
    (c, why)
}
