//! JSON of credentials and presentations, written with the member names of the specification.
use pbt::{gen, Src};
use serde_json::{json, Map, Value};

pub fn uri(s: &mut Src) -> String {
    match s.upto(3) {
        0 => format!("https://{}.example/{}", gen::word(s, 1, 6), gen::word(s, 0, 6)),
        1 => format!("did:web:{}.example", gen::word(s, 1, 6)),
        2 => format!("urn:uuid:{}", gen::word(s, 8, 8)),
        _ => gen::ident(s),
    }
}
pub fn nonempty(s: &mut Src) -> String { let t = gen::ident(s); if t.is_empty() { "x".into() } else { t } }
pub fn date(s: &mut Src) -> String {
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", s.int(1971, 2200), s.int(1, 12), s.int(1, 28), s.int(0, 23), s.int(0, 59), s.int(0, 59))
}
fn put(m: &mut Map<String, Value>, k: &str, v: Option<Value>) { if let Some(v) = v { m.insert(k.into(), v); } }
/// One item as itself or several as a list.
pub fn quota(s: &mut Src, lo: usize, mut f: impl FnMut(&mut Src) -> Value) -> Value {
    if s.chance(1, 3) { Value::Array(s.vec(lo, 3, |s| f(s))) } else { f(s) }
}
/// Extra members next to `taken` names.
pub fn extra(s: &mut Src, m: &mut Map<String, Value>, text_only: bool) {
    for _ in 0..s.size(0, 3) {
        let k = format!("x_{}", gen::word(s, 1, 5));
        let v = if text_only { json!(gen::ident(s)) } else { crate::keys::strip_null(gen::json(s, 2)) };
        if !v.is_null() { m.insert(k, v); }
    }
}
pub fn context(s: &mut Src) -> Value {
    let mut v = vec![json!("https://www.w3.org/2018/credentials/v1")];
    v.extend(s.vec(0, 2, |s| if s.chance(1, 4) { crate::keys::strip_null(Value::Object(gen::object(s, 1))) } else { json!(uri(s)) }));
    Value::Array(v)
}
pub fn lang(s: &mut Src) -> Value {
    if s.bool() { return json!(gen::ident(s)); }
    quota(s, 1, |s| {
        let mut m = Map::new();
        m.insert("@value".into(), json!(gen::ident(s)));
        put(&mut m, "@language", s.opt(|s| json!(s.one(&["en", "ar", "mi", "en-NZ"]))));
        put(&mut m, "@direction", s.opt(|s| json!(s.one(&["ltr", "rtl"]))));
        Value::Object(m)
    })
}
pub fn subject(s: &mut Src) -> Value {
    let mut m = Map::new();
    put(&mut m, "id", s.opt(|s| json!(uri(s))));
    m.insert("name".into(), json!(gen::ident(s)));
    extra(s, &mut m, false);
    Value::Object(m)
}
pub fn status(s: &mut Src) -> Value {
    let mut m = Map::new();
    put(&mut m, "id", s.opt(|s| json!(uri(s))));
    m.insert("type".into(), json!("BitstringStatusListEntry"));
    m.insert("statusPurpose".into(), json!(s.one(&["revocation", "suspension", "message"])));
    m.insert("statusListIndex".into(), json!(s.upto(131_071)));
    m.insert("statusListCredential".into(), json!(uri(s)));
    put(&mut m, "statusSize", s.opt(|s| json!(s.upto(8))));
    put(&mut m, "statusMessage", s.opt(|s| Value::Array(s.vec(0, 3, |s| json!({"status": format!("0x{}", s.upto(9)), "message": gen::ident(s)})))));
    put(&mut m, "statusReference", s.opt(|s| json!(uri(s))));
    Value::Object(m)
}
pub fn proof(s: &mut Src) -> Value {
    let mut m = Map::new();
    put(&mut m, "id", s.opt(|s| json!(uri(s))));
    m.insert("type".into(), json!("DataIntegrityProof"));
    put(&mut m, "cryptosuite", s.opt(|s| json!(gen::word(s, 1, 8))));
    m.insert("proofPurpose".into(), json!(s.one(&["assertionMethod", "authentication"])));
    m.insert("verificationMethod".into(), json!(uri(s)));
    put(&mut m, "created", s.opt(|s| json!(date(s))));
    put(&mut m, "expires", s.opt(|s| json!(date(s))));
    put(&mut m, "domain", s.opt(|s| quota(s, 1, |s| json!(uri(s)))));
    put(&mut m, "challenge", s.opt(|s| json!(gen::ident(s))));
    m.insert("proofValue".into(), json!(gen::word(s, 0, 20)));
    put(&mut m, "previousProof", s.opt(|s| quota(s, 1, |s| json!(uri(s)))));
    put(&mut m, "nonce", s.opt(|s| json!(gen::ident(s))));
    Value::Object(m)
}
fn digests(s: &mut Src, m: &mut Map<String, Value>) {
    put(m, "digestSRI", s.opt(|s| quota(s, 1, |s| json!(format!("sha384-{}", gen::word(s, 1, 8))))));
    put(m, "digestMultibase", s.opt(|s| quota(s, 1, |s| json!(format!("u{}", gen::word(s, 1, 8))))));
}
pub fn vc(s: &mut Src) -> Value {
    let mut m = Map::new();
    m.insert("@context".into(), context(s));
    put(&mut m, "id", s.opt(|s| json!(uri(s))));
    m.insert("type".into(), quota(s, 1, |s| json!(s.one(&["VerifiableCredential", "EmployeeIDCredential", "x y"]))));
    put(&mut m, "name", s.opt(lang));
    put(&mut m, "description", s.opt(lang));
    m.insert("issuer".into(), if s.bool() { json!(uri(s)) } else { let mut i = Map::new(); i.insert("id".into(), json!(uri(s))); extra(s, &mut i, false); Value::Object(i) });
    m.insert("credentialSubject".into(), quota(s, 0, subject));
    put(&mut m, "validFrom", s.opt(|s| json!(date(s))));
    put(&mut m, "validUntil", s.opt(|s| json!(date(s))));
    if s.chance(1, 3) { put(&mut m, "credentialStatus", Some(quota(s, 1, status))); }
    if s.chance(1, 3) { put(&mut m, "credentialSchema", Some(quota(s, 1, |s| json!({"id": uri(s), "type": gen::word(s, 1, 8)})))); }
    if s.chance(1, 4) { put(&mut m, "proof", Some(quota(s, 1, proof))); }
    if s.chance(1, 4) { put(&mut m, "relatedResource", Some(quota(s, 1, |s| { let mut r = Map::new(); r.insert("id".into(), json!(uri(s))); put(&mut r, "mediaType", s.opt(|s| json!(gen::word(s, 1, 6)))); digests(s, &mut r); Value::Object(r) }))); }
    if s.chance(1, 5) { m.insert("refreshService".into(), json!({"url": uri(s), "type": gen::word(s, 1, 6), "refreshToken": gen::ident(s)})); }
    if s.chance(1, 4) { put(&mut m, "termsOfUse", Some(quota(s, 1, |s| { let mut r = Map::new(); r.insert("type".into(), json!(gen::word(s, 1, 6))); put(&mut r, "id", s.opt(|s| json!(uri(s)))); extra(s, &mut r, false); Value::Object(r) }))); }
    if s.chance(1, 4) {
        put(&mut m, "evidence", Some(quota(s, 1, |s| {
            let mut r = Map::new();
            put(&mut r, "id", s.opt(|s| json!(uri(s))));
            r.insert("type".into(), Value::Array(s.vec(0, 2, |s| json!(gen::word(s, 1, 6)))));
            put(&mut r, "name", s.opt(|s| json!(gen::ident(s))));
            put(&mut r, "description", s.opt(|s| json!(gen::ident(s))));
            digests(s, &mut r);
            extra(s, &mut r, true);
            Value::Object(r)
        })));
    }
    Value::Object(m)
}
pub fn vp(s: &mut Src) -> Value {
    let mut m = Map::new();
    m.insert("@context".into(), context(s));
    put(&mut m, "id", s.opt(|s| json!(uri(s))));
    m.insert("type".into(), quota(s, 1, |s| json!(s.one(&["VerifiablePresentation", "EmployeePresentation"]))));
    put(&mut m, "verifiableCredential", s.opt(|s| Value::Array(s.vec(0, 3, |s| if s.bool() { json!(format!("{}.{}.{}", gen::word(s, 1, 5), gen::word(s, 1, 5), gen::word(s, 1, 5))) } else { vc(s) }))));
    put(&mut m, "holder", s.opt(|s| json!(uri(s))));
    if s.chance(1, 3) { put(&mut m, "proof", Some(quota(s, 1, proof))); }
    Value::Object(m)
}
