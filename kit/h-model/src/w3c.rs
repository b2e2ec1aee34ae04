//! C15 JOSE proofs and C16 the credential and presentation model.
use std::str::FromStr;

use pbt::{block_on, ensure, ensure_eq, gen, Case, Fail, Src, Suite};
use serde_json::{json, Value};
use vercre_core::{Kind, Quota};
use vercre_w3c_vc::model::{CredentialSubject, types::{LangString, LangValue}, VcBuilder, VerifiableCredential, VerifiablePresentation, VpBuilder};
use vercre_w3c_vc::proof::{self, Payload, Verify, W3cFormat};

use crate::keys::{read_jws, strip_null, Docs, Key};
use crate::{sha, vcgen};

fn err(sig: &'static str, show: &str) -> impl Fn(anyhow::Error) -> Fail { let show = show.to_string(); move |e| Fail::new(sig, format!("{e}: {show}")) }
fn read_vc(j: &Value) -> Result<VerifiableCredential, Fail> { serde_json::from_value(j.clone()).map_err(|e| Fail::new("vc-not-read", format!("{e}: {j}"))) }
fn read_vp(j: &Value) -> Result<VerifiablePresentation, Fail> { serde_json::from_value(j.clone()).map_err(|e| Fail::new("vp-not-read", format!("{e}: {j}"))) }

enum Made { Vc(Value, i64), Vp(Value, String, String) }
struct Token { jwt: String, made: Made, key: Key, docs: Docs }
fn token(s: &mut Src) -> Result<Token, Fail> {
    let key = if s.bool() { Key::new(s.upto(30)) } else { Key::web(s.upto(30), s.one(&["did:web:a.example", "did:web:b.example"]), s.one(&["key-0", "key-1"])) };
    let mut docs = Docs::default();
    if !key.did.starts_with("did:key") {
        // the document has other keys too, before and after
        let others = [Key::web(1000, &key.did, "other-1"), Key::web(1001, &key.did, "other-2")];
        let mut all: Vec<&Key> = vec![&others[0], &key, &others[1]];
        s.shuffle(&mut all);
        docs.publish(&all);
    }
    let f = if s.bool() { W3cFormat::JwtVcJson } else { W3cFormat::JwtVcJsonLd };
    if s.bool() {
        let j = vcgen::vc(s);
        let at = s.one(&[0, 1, 1_700_000_000, -5, 4_102_444_800]);
        let jwt = block_on(proof::create(f, Payload::Vc { vc: read_vc(&j)?, issued_at: at }, key.clone())).map_err(err("not-created", &j.to_string()))?;
        Ok(Token { jwt, made: Made::Vc(j, at), key, docs })
    } else {
        let j = vcgen::vp(s);
        let (client_id, nonce) = (gen::ident(s), gen::ident(s));
        let jwt = block_on(proof::create(f, Payload::Vp { vp: read_vp(&j)?, client_id: client_id.clone(), nonce: nonce.clone() }, key.clone())).map_err(err("not-created", &j.to_string()))?;
        Ok(Token { jwt, made: Made::Vp(j, client_id, nonce), key, docs })
    }
}
fn first<'a>(v: &'a Value) -> &'a Value { v.get(0).unwrap_or(v) }
fn verify(made: &Made, jwt: &str, docs: &Docs) -> anyhow::Result<Payload> {
    match made {
        Made::Vc(..) => block_on(proof::verify(Verify::Vc(&Kind::String(jwt.into())), docs)),
        Made::Vp(..) => block_on(proof::verify(Verify::Vp(&Kind::String(jwt.into())), docs)),
    }
}
fn ts(d: &Value) -> Value { d.as_str().map_or(Value::Null, |d| json!(chrono::DateTime::parse_from_rfc3339(d).unwrap().timestamp())) }
fn or_empty(v: &Value) -> Value { if v.is_null() { json!("") } else { v.clone() } }

pub fn proofs() -> ! {
    let mut su = Suite::new("C15", "a credential or presentation with members beyond the required ones; for tampering, a change of the token's header, claims or signature");
    su.scale(12);
    su.assume("JWS encoding and decoding is the kit's stand-in for vercre-infosec; tokens are also read and verified with code of the kit and ed25519-dalek");
    su.check("roundtrip", 12_000, 200_000, |s| {
        let now0 = chrono::Utc::now().timestamp();
        let t = token(s)?;
        let now1 = chrono::Utc::now().timestamp();
        let (h, c, ok) = read_jws(&t.jwt, &t.key).ok_or_else(|| Fail::new("not-a-jws", t.jwt.clone()))?;
        ensure!(ok, "signature", "the signer's key does not verify {}", t.jwt);
        ensure_eq!(h["kid"], json!(t.key.kid), "kid", "{h}");
        let got = verify(&t.made, &t.jwt, &t.docs).map_err(err("not-verified", &t.jwt))?;
        match (&t.made, got) {
            (Made::Vc(j, at), Payload::Vc { vc, issued_at }) => {
                ensure_eq!(strip_null(json!(vc)), *j, "vc", "credential read from its proof");
                ensure_eq!(issued_at, *at, "issued_at", "{j}");
                ensure_eq!(strip_null(c["vc"].clone()), *j, "vc-claim", "vc claim");
                ensure_eq!(c["iat"], json!(at), "iat", "{j}");
                ensure_eq!(c["jti"], or_empty(&j["id"]), "jti", "{j}");
                ensure_eq!(c["iss"], if j["issuer"].is_string() { j["issuer"].clone() } else { j["issuer"]["id"].clone() }, "iss", "{j}");
                ensure_eq!(c["sub"], or_empty(&first(&j["credentialSubject"])["id"]), "sub", "{j}");
                ensure_eq!(c["exp"], ts(&j["validUntil"]), "exp", "{j}");
                Ok(Case::new(j.as_object().unwrap().len() > 5, j.to_string()).label(true, "vc"))
            }
            (Made::Vp(j, cid, n), Payload::Vp { vp, client_id, nonce }) => {
                ensure_eq!(strip_null(json!(vp)), *j, "vp", "presentation read from its proof");
                ensure_eq!((&client_id, &nonce), (cid, n), "client-nonce", "{j}");
                ensure_eq!((&c["aud"], &c["nonce"]), (&json!(cid), &json!(n)), "aud-nonce", "{j}");
                ensure_eq!(strip_null(c["vp"].clone()), *j, "vp-claim", "vp claim");
                ensure_eq!(c["jti"], or_empty(&j["id"]), "jti", "{j}");
                ensure_eq!(c["iss"], or_empty(&j["holder"]), "iss", "{j}");
                let (iat, nbf, exp) = (c["iat"].as_i64().unwrap_or(-1), c["nbf"].as_i64().unwrap_or(-1), c["exp"].as_i64().unwrap_or(-1));
                ensure!((now0..=now1).contains(&iat) && (now0..=now1).contains(&nbf) && exp > iat, "vp-times", "iat {iat} nbf {nbf} exp {exp}, made {now0}..={now1}");
                Ok(Case::new(j.as_object().unwrap().len() > 3, j.to_string()).label(true, "vp"))
            }
            _ => Err(Fail::new("kind", t.jwt)),
        }
    });
    su.check("tampered", 12_000, 200_000, |s| {
        let t = token(s)?;
        let p: Vec<String> = t.jwt.split('.').map(Into::into).collect();
        let (h, c, _) = read_jws(&t.jwt, &t.key).ok_or_else(|| Fail::new("not-a-jws", t.jwt.clone()))?;
        let other = Key::new(5000 + s.upto(20));
        let kind = s.upto(8);
        let (bad, how) = match kind {
            0 => { // any claim changed, signature kept
                let mut c2 = c.clone();
                let (k, v) = match &t.made {
                    Made::Vc(..) => match s.upto(3) { 0 => ("sub", json!("did:example:other")), 1 => ("iat", json!(7)), 2 => ("extra", json!(1)), _ => ("iss", json!("did:example:other")) },
                    Made::Vp(..) => match s.upto(2) { 0 => ("nonce", json!("another nonce")), 1 => ("aud", json!("another client")), _ => ("exp", json!(i64::MAX)) },
                };
                c2[k] = v;
                (format!("{}.{}.{}", p[0], sha::b64(c2.to_string().as_bytes()), p[2]), "claim changed")
            }
            1 => { // a byte of the claims changed
                let mut b = sha::unb64(&p[1]).unwrap();
                let i = s.size(0, b.len() - 1);
                b[i] ^= 1 << s.upto(6);
                (format!("{}.{}.{}", p[0], sha::b64(&b), p[2]), "byte of the claims changed")
            }
            2 => { // a bit of the signature changed
                let mut b = sha::unb64(&p[2]).unwrap();
                let i = s.size(0, b.len() - 1);
                b[i] ^= 1 << s.upto(7);
                (format!("{}.{}.{}", p[0], p[1], sha::b64(&b)), "signature changed")
            }
            3 => { // signed by another key, naming the right one
                let q = format!("{}.{}", p[0], p[1]);
                (format!("{q}.{}", sha::b64(&other.raw(q.as_bytes()))), "signed by another key")
            }
            4 => { // no signature
                let mut h2 = h.clone();
                let none = s.bool();
                if none { h2["alg"] = json!("none"); }
                (format!("{}.{}.", sha::b64(h2.to_string().as_bytes()), p[1]), "no signature")
            }
            5 => { // naming another key
                let mut h2 = h.clone();
                h2["kid"] = json!(match s.upto(2) { 0 => other.kid.clone(), 1 => format!("{}#missing", t.key.did), _ => t.key.did.clone() });
                (format!("{}.{}.{}", sha::b64(h2.to_string().as_bytes()), p[1], p[2]), "another key named")
            }
            6 => { // two parts swapped or dropped
                (match s.upto(2) { 0 => format!("{}.{}", p[0], p[1]), 1 => format!("{}.{}.{}", p[1], p[0], p[2]), _ => format!("{}.{}", t.jwt, p[2]) }, "parts")
            }
            7 => { // the key is not published (any more)
                if t.key.did.starts_with("did:key") { (String::new(), "empty") } else {
                    ensure!(verify(&t.made, &t.jwt, &Docs::default()).is_err(), "unpublished", "accepted though the key cannot be resolved: {}", t.jwt);
                    (gen::text(s, 30), "text")
                }
            }
            _ => (gen::text(s, 40), "text"),
        };
        if bad == t.jwt { return Ok(Case::new(false, "same")); }
        ensure!(verify(&t.made, &bad, &t.docs).is_err(), "accepted", "{how}: {bad} (from {})", t.jwt);
        Ok(Case::new(kind < 6, format!("{how}: {}", if matches!(t.made, Made::Vc(..)) { "vc" } else { "vp" })).label(true, how))
    });
    su.check("refused", 3_000, 40_000, |s| {
        let key = Key::new(1);
        // formats that cannot be made are refused
        let (v, p) = (vcgen::vc(s), vcgen::vp(s));
        let pl = if s.bool() { Payload::Vc { vc: read_vc(&v)?, issued_at: 1 } } else { Payload::Vp { vp: read_vp(&p)?, client_id: "c".into(), nonce: "n".into() } };
        ensure!(block_on(proof::create(W3cFormat::DataIntegrityJsonLd, pl, key)).is_err(), "ldp", "a data integrity proof was made");
        // a credential that is not a signed token is no proof
        ensure!(block_on(proof::verify(Verify::Vc(&Kind::Object(read_vc(&v)?)), &Docs::default())).is_err(), "unsigned-vc", "accepted without a proof: {v}");
        // nor is a presentation without any
        let mut q = p.clone();
        q.as_object_mut().unwrap().remove("proof");
        ensure!(block_on(proof::verify(Verify::Vp(&Kind::Object(read_vp(&q)?)), &Docs::default())).is_err(), "unsigned-vp", "accepted without a proof: {q}");
        Ok(Case::new(true, v.to_string()))
    });
    su.check("cross", 4_000, 40_000, |s| {
        // a presentation is not a credential, nor a credential a presentation
        let t = token(s)?;
        let other = match t.made { Made::Vc(..) => Made::Vp(Value::Null, String::new(), String::new()), Made::Vp(..) => Made::Vc(Value::Null, 0) };
        ensure!(verify(&other, &t.jwt, &t.docs).is_err(), "cross", "{}", t.jwt);
        Ok(Case::new(true, t.jwt))
    });
    su.finish()
}

fn parse(d: &Value) -> Option<i64> { d.as_str().map(|d| chrono::DateTime::parse_from_rfc3339(d).unwrap().timestamp()) }
fn items<T: Clone>(q: &Quota<T>) -> Vec<T> { match q { Quota::One(x) => vec![x.clone()], Quota::Many(x) => x.clone() } }
fn list(v: &Value) -> Vec<Value> { match v { Value::Array(a) => a.clone(), Value::Null => vec![], v => vec![v.clone()] } }

pub fn model() -> ! {
    let mut su = Suite::new("C16", "a document with members beyond the required ones; for builders, a history of at least four calls");
    su.scale(20);
    su.assume("an optional member written as null counts as absent; evidence has text members only, as its type says");
    su.check("vc", 12_000, 200_000, |s| {
        let j = vcgen::vc(s);
        let vc = read_vc(&j)?;
        ensure_eq!(strip_null(json!(vc)), j, "vc-rewritten", "credential written again");
        ensure_eq!(json!(vc.id), j["id"], "id", "{j}");
        ensure_eq!(json!(items(&vc.type_)), json!(list(&j["type"])), "type", "{j}");
        ensure_eq!(vc.valid_from.map(|d| d.timestamp()), parse(&j["validFrom"]), "validFrom", "{j}");
        ensure_eq!(vc.valid_until.map(|d| d.timestamp()), parse(&j["validUntil"]), "validUntil", "{j}");
        ensure_eq!(strip_null(json!(items(&vc.credential_subject))), json!(list(&j["credentialSubject"])), "subjects", "{j}");
        for (sub, w) in items(&vc.credential_subject).iter().zip(list(&j["credentialSubject"])) {
            ensure_eq!(json!(sub.id), w["id"], "subject-id", "{j}");
            ensure!(sub.claims.get("id").is_none() && sub.claims.get("name") == w.get("name"), "subject-claims", "{:?} for {w}", sub.claims);
        }
        ensure_eq!(json!(vc.name), j.get("name").cloned().unwrap_or_default(), "name", "{j}");
        ensure_eq!(json!(vc.description), j.get("description").cloned().unwrap_or_default(), "description", "{j}");
        let iss = match &vc.issuer { Kind::String(i) => i.clone(), Kind::Object(o) => o.id.clone() };
        ensure_eq!(json!(iss), if j["issuer"].is_string() { j["issuer"].clone() } else { j["issuer"]["id"].clone() }, "issuer", "{j}");
        if let Some(r) = &vc.refresh_service { ensure_eq!((json!(r.url), json!(r.refresh_token), json!(r.type_)), (j["refreshService"]["url"].clone(), j["refreshService"]["refreshToken"].clone(), j["refreshService"]["type"].clone()), "refresh", "{j}"); }
        for (st, w) in vc.credential_status.as_ref().map(items).unwrap_or_default().iter().zip(list(&j["credentialStatus"])) {
            let vercre_w3c_vc::model::CredentialStatusType::Bitstring(b) = &st.credential_status_type;
            ensure_eq!((json!(b.status_list_index), json!(b.status_list_credential), json!(b.status_purpose.to_string())), (w["statusListIndex"].clone(), w["statusListCredential"].clone(), w["statusPurpose"].clone()), "status", "{w}");
        }
        for (pr, w) in vc.proof.as_ref().map(items).unwrap_or_default().iter().zip(list(&j["proof"])) {
            ensure_eq!((json!(pr.proof_purpose), json!(pr.challenge), json!(pr.nonce), pr.created.map(|d| d.timestamp()), pr.expires.map(|d| d.timestamp())),
                (w["proofPurpose"].clone(), w["challenge"].clone(), w["nonce"].clone(), parse(&w["created"]), parse(&w["expires"])), "proof", "{w}");
        }
        let again: VerifiableCredential = serde_json::from_value(json!(vc)).map_err(|e| Fail::new("vc-not-reread", format!("{e}: {j}")))?;
        ensure_eq!(again, vc, "vc-reread", "{j}");
        Ok(Case::new(j.as_object().unwrap().len() > 5, j.to_string()))
    });
    su.check("vp", 12_000, 200_000, |s| {
        let j = vcgen::vp(s);
        let vp = read_vp(&j)?;
        ensure_eq!(strip_null(json!(vp)), j, "vp-rewritten", "presentation written again");
        ensure_eq!((json!(vp.id), json!(vp.holder), json!(items(&vp.type_))), (j["id"].clone(), j["holder"].clone(), json!(list(&j["type"]))), "vp-members", "{j}");
        // as text, and as base64url of the text
        let text = j.to_string();
        for (t, how) in [(text.clone(), "json"), (sha::b64(text.as_bytes()), "base64url")] {
            let r = VerifiablePresentation::from_str(&t).map_err(err("vp-text", how))?;
            ensure_eq!(r, vp, "vp-text", "{how}");
        }
        let junk = gen::text(s, 20);
        let _ = VerifiablePresentation::from_str(&junk);
        Ok(Case::new(j.as_object().unwrap().len() > 3, text))
    });
    su.check("vc-builder", 8_000, 100_000, |s| {
        let mut b: VcBuilder = VerifiableCredential::builder();
        let (mut ctx, mut types, mut subs) = (vec![json!("https://www.w3.org/2018/credentials/v1")], vec![json!("VerifiableCredential")], vec![]);
        let (mut id, mut issuer, mut name, mut text, mut status, mut proofs) = (None, String::new(), None, None, None, vec![]);
        let n = s.size(0, 12);
        let mut ops = vec![];
        for _ in 0..n {
            match s.upto(8) {
                6 => { let l = vcgen::lang(s); ops.push("description"); b = b.add_description(Some(serde_json::from_value(l.clone()).unwrap())); text = Some(l); }
                7 => { let j = vcgen::proof(s); ops.push("proof"); b = b.add_proof(serde_json::from_value(j.clone()).unwrap()); proofs.push(j); }
                8 => { let j = s.opt(|s| vcgen::quota(s, 1, vcgen::status)); ops.push("status"); b = b.status(j.clone().map(|j| serde_json::from_value(j).unwrap())); status = j; }
                0 => { let c = vcgen::uri(s); ctx.push(json!(c)); ops.push("context"); b = b.add_context(Kind::String(c)); }
                1 => { let t = vcgen::nonempty(s); types.push(json!(t)); ops.push("type"); b = b.add_type(t); }
                2 => { let i = vcgen::uri(s); id = Some(i.clone()); ops.push("id"); b = b.id(i); }
                3 => { issuer = vcgen::uri(s); ops.push("issuer"); b = b.issuer(issuer.clone()); }
                4 => { let j = vcgen::subject(s); ops.push("subject"); b = b.add_subject(serde_json::from_value::<CredentialSubject>(j.clone()).unwrap()); subs.push(j); }
                _ => { let l = vcgen::lang(s); ops.push("name"); b = b.add_name(Some(serde_json::from_value(l.clone()).unwrap())); name = Some(l); }
            }
        }
        let ok = ctx.len() > 1 && types.len() > 1 && !issuer.is_empty() && !subs.is_empty();
        let show = format!("{ops:?}");
        match if s.bool() { b.build() } else { VerifiableCredential::try_from(b) } {
            Err(e) => { ensure!(!ok, "vc-refused", "{e}: {show}"); Ok(Case::new(n > 3, show).label(true, "refused")) }
            Ok(vc) => {
                ensure!(ok, "vc-incomplete", "built without a required member: {show} {}", json!(vc));
                let j = strip_null(json!(vc));
                ensure_eq!((&j["@context"], &j["issuer"], list(&j["type"]), list(&j["credentialSubject"])), (&json!(ctx), &json!(issuer), types, subs), "vc-built", "{show}");
                ensure_eq!((j["id"].as_str().map(String::from), j.get("name").cloned()), (id, name), "vc-built-id", "{show}");
                let proof = match proofs.len() { 0 => None, 1 => Some(proofs[0].clone()), _ => Some(json!(proofs)) };
                ensure_eq!((j.get("description").cloned(), j.get("credentialStatus").cloned(), j.get("proof").cloned()), (text, status, proof), "vc-built-members", "{show}");
                ensure!(j.get("validUntil").is_none(), "vc-built-extra", "{j}");
                Ok(Case::new(n > 3, show))
            }
        }
    });
    su.check("vp-builder", 8_000, 100_000, |s| {
        let mut b: VpBuilder = VerifiablePresentation::builder();
        let (mut ctx, mut types, mut creds) = (vec![json!("https://www.w3.org/2018/credentials/v1")], vec![json!("VerifiablePresentation")], vec![]);
        let mut holder = None;
        let n = s.size(0, 8);
        let mut ops = vec![];
        for _ in 0..n {
            match s.upto(3) {
                0 => { let c = vcgen::uri(s); ctx.push(json!(c)); ops.push("context"); b = b.add_context(Kind::String(c)); }
                1 => { let t = vcgen::nonempty(s); types.push(json!(t)); ops.push("type"); b = b.add_type(t); }
                2 => { let h = vcgen::uri(s); holder = Some(h.clone()); ops.push("holder"); b = b.holder(h); }
                _ => { let j = if s.bool() { json!(gen::word(s, 3, 9)) } else { vcgen::vc(s) }; ops.push("credential"); b = b.add_credential(serde_json::from_value(j.clone()).unwrap()); creds.push(j); }
            }
        }
        let ok = ctx.len() > 1;
        let show = format!("{ops:?}");
        match if s.bool() { b.build() } else { VerifiablePresentation::try_from(b) } {
            Err(e) => { ensure!(!ok, "vp-refused", "{e}: {show}"); Ok(Case::new(n > 3, show).label(true, "refused")) }
            Ok(vp) => {
                ensure!(ok, "vp-incomplete", "built without a required member: {show}");
                let j = strip_null(json!(vp));
                ensure_eq!((&j["@context"], list(&j["type"]), list(&j["verifiableCredential"])), (&json!(ctx), types, creds), "vp-built", "{show}");
                ensure_eq!(j["holder"].as_str().map(String::from), holder, "vp-holder", "{show}");
                let id = j["id"].as_str().unwrap_or("");
                ensure!(id.starts_with("urn:uuid:") && id.len() == 45, "vp-id", "{id}");
                Ok(Case::new(n > 3, show))
            }
        }
    });
    su.check("language", 12_000, 100_000, |s| {
        // a history of additions against a list of (language, text)
        let langs = ["en", "ar", "mi", "en-NZ", "EN"];
        let val = |s: &mut Src| LangValue { value: gen::ident(s), language: s.opt(|s| s.one(&langs).to_string()), direction: None };
        let plain = s.bool();
        let (mut l, mut model) = if plain { let t = gen::ident(s); (LangString::new_string(&t), vec![(None, t)]) } else { let v = val(s); (LangString::new_object(v.clone()), vec![(v.language, v.value)]) };
        let n = s.size(0, 4);
        for _ in 0..n { let v = val(s); model.push((v.language.clone(), v.value.clone())); l.add(v); }
        let show = format!("plain {plain}: {model:?}");
        ensure_eq!(l.len(), model.len(), "lang-len", "{show}");
        ensure!(!l.is_empty(), "lang-empty", "{show}");
        for q in langs {
            let want = if plain && n == 0 { Some(model[0].1.clone()) } else { model.iter().find(|(k, _)| k.as_deref() == Some(q)).map(|(_, v)| v.clone()) };
            ensure_eq!(l.value(q).ok(), want, "lang-value", "value({q}) of {show}");
        }
        let j = json!(l);
        let want = if plain && n == 0 { json!(model[0].1) } else {
            let v: Vec<Value> = model.iter().map(|(k, v)| { let mut o = json!({"@value": v}); if let Some(k) = k { o["@language"] = json!(k); } o }).collect();
            if v.len() == 1 { v[0].clone() } else { json!(v) }
        };
        ensure_eq!(j, want, "lang-json", "{show}");
        let back: LangString = serde_json::from_value(j).map_err(|e| Fail::new("lang-not-read", format!("{e}: {show}")))?;
        ensure_eq!(back, l, "lang-roundtrip", "{show}");
        Ok(Case::new(n > 0, show))
    });
    su.finish()
}
