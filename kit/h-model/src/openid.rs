//! C17 OpenID errors, C18 message JSON and query strings, C19 claim verification.
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

use pbt::{ensure, ensure_eq, gen, Case, Fail, Src, Suite};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use vercre_openid::issuer as iss;
use vercre_openid::issuer::{AuthorizationRequest, Claim, CredentialConfiguration};
use vercre_openid::verifier as ver;
use vercre_openid::Error;

use crate::keys::strip_null;
use crate::oidgen as g;

/// An independent query-string reader: name, text pairs.
fn query(q: &str) -> Option<Vec<(String, String)>> {
    fn pct(t: &str) -> Option<String> {
        let (b, mut o, mut i) = (t.as_bytes(), vec![], 0);
        while i < b.len() {
            if b[i] == b'%' { o.push(u8::from_str_radix(t.get(i + 1..i + 3)?, 16).ok()?); i += 3; } else { o.push(b[i]); i += 1; }
        }
        String::from_utf8(o).ok()
    }
    q.split('&').filter(|p| !p.is_empty()).map(|p| { let (n, v) = p.split_once('=')?; Some((pct(n)?, pct(v)?)) }).collect()
}
/// The parameters a JSON object has in a query string.
fn params(j: &Value) -> BTreeMap<String, Value> { j.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn check_query(q: &str, j: &Value) -> Result<(), Fail> {
    let got = query(q).ok_or_else(|| Fail::new("query", format!("not a query string: {q}")))?;
    let n = got.len();
    let mut m = BTreeMap::new();
    for (k, v) in got {
        let want = &j[&k];
        let v = if want.is_string() || want.is_null() { json!(v) } else { serde_json::from_str(&v).map(strip_null).map_err(|e| Fail::new("query-value", format!("{e}: {k}={v}")))? };
        m.insert(k, v);
    }
    ensure!(n == m.len(), "query-duplicate", "{q}");
    ensure_eq!(m, params(j), "query-params", "{q}");
    Ok(())
}
/// What a scanner reads from a QR code is the endpoint followed by the query string. (The kit's `qrcode` and `image`
/// draw a picture that holds the text as it is; a text too long for a QR code is refused.)
fn check_qr(s: &mut Src, what: &str, j: &Value, qr: impl Fn(&str) -> anyhow::Result<String>) -> Result<(), Fail> {
    let endpoint = s.one(&["openid-credential-offer://?", "openid-vc://?", "https://holder.wallet.io/credential_offer?", "https://wallet.example/é?a=b&", ""]);
    let Ok(uri) = qr(endpoint) else { ensure!(j.to_string().len() > 500, what, "no QR code for {j}"); return Ok(()) };
    let read = || -> Option<String> {
        let b = uri.strip_prefix("data:image/png;base64,")?;
        let b = crate::sha::unb64(&b.trim_end_matches('=').replace('+', "-").replace('/', "_"))?;
        String::from_utf8(b.strip_prefix(b"\x89PNG\r\n\x1a\n")?.to_vec()).ok()
    };
    let text = read().ok_or_else(|| Fail::new(what, format!("not the picture of a QR code: {uri}")))?;
    let q = text.strip_prefix(endpoint).ok_or_else(|| Fail::new(what, format!("the code for {endpoint} reads {text}")))?;
    check_query(q, j)
}
/// An independent query-string writer.
fn to_query(s: &mut Src, j: &Value) -> String {
    let mut v: Vec<String> = j.as_object().unwrap().iter().map(|(k, v)| {
        let t = if let Value::String(t) = v { t.clone() } else { v.to_string() };
        let enc = |t: &str| t.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect::<String>();
        format!("{}={}", enc(k), enc(&t))
    }).collect();
    s.shuffle(&mut v);
    v.join("&")
}

macro_rules! errors { ($t:expr, $i:expr, $($n:literal $v:ident),+) => { match $i { $($n => (Error::$v($t.clone()), stringify!($v)),)+ _ => unreachable!() } } }
pub fn errors() -> ! {
    let mut su = Suite::new("C17", "a description with characters JSON or URLs escape");
    su.scale(120);
    const CODES: &[&str] = &["invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope", "invalid_authorization_details", "access_denied",
        "unsupported_response_type", "server_error", "temporarily_unavailable", "invalid_credential_request", "unsupported_credential_type", "unsupported_credential_format", "invalid_encryption_parameters",
        "invalid_transaction_id", "vp_formats_not_supported", "invalid_presentation_definition_uri", "invalid_presentation_definition_reference", "wallet_unavailable"];
    su.check("errors", 40_000, 400_000, |s| {
        let t = if s.chance(1, 8) { gen::ident(s) } else { gen::text(s, 24) };
        let i = s.size(0, CODES.len() + 1);
        let mk = |cn: &str, exp: i64| -> (Error, Value) {
            if i < CODES.len() {
                let (e, _) = errors!(t, i, 0 InvalidRequest, 1 InvalidClient, 2 InvalidGrant, 3 UnauthorizedClient, 4 UnsupportedGrantType, 5 InvalidScope, 6 InvalidAuthorizationDetails, 7 AccessDenied,
                    8 UnsupportedResponseType, 9 ServerError, 10 TemporarilyUnavailable, 11 InvalidCredentialRequest, 12 UnsupportedCredentialType, 13 UnsupportedFormat, 14 InvalidEncryptionParameters,
                    15 InvalidTransactionId, 16 VpFormatsNotSupported, 17 InvalidPresentationDefinitionUri, 18 InvalidPresentationDefinitionReference, 19 WalletUnavailable);
                (e, json!({"error": CODES[i], "error_description": t}))
            } else if i == CODES.len() {
                (Error::InvalidProof { hint: t.clone(), c_nonce: cn.into(), c_nonce_expires_in: exp }, json!({"error": "invalid_proof", "error_description": t, "c_nonce": cn, "c_nonce_expires_in": exp}))
            } else { (Error::IssuancePending(exp), json!({"error": "issuance_pending", "interval": exp})) }
        };
        let (cn, exp) = (gen::ident(s), s.one(&[0, 1, 300, -1, i64::MAX, i64::MIN]));
        let norm = |mut v: Value| { if v["error"] == "issuance_pending" { if let Some(o) = v.as_object_mut() { o.remove("error_description"); } } v };
        let (e, want) = mk(&cn, exp);
        let text: Value = serde_json::from_str(&e.to_string()).map_err(|x| Fail::new("display", format!("{x}: {e}")))?;
        ensure_eq!(norm(text), want, "display", "text of the error");
        let ser = serde_json::to_value(&e).map_err(|x| Fail::new("not-serialized", format!("{x}: {e:?}")))?;
        ensure_eq!(norm(ser), want, "serialized", "serialized error");
        ensure_eq!(norm(mk(&cn, exp).0.to_json()), want, "to_json", "to_json");
        let q = mk(&cn, exp).0.to_querystring();
        let got: BTreeMap<String, String> = query(&q).ok_or_else(|| Fail::new("querystring", q.clone()))?.into_iter().filter(|(k, v)| want.get(k).is_some() || !v.is_empty()).collect();
        let exp_q: BTreeMap<String, String> = want.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().map_or_else(|| v.to_string(), String::from))).collect();
        ensure_eq!(got, exp_q, "querystring", "{q}");
        Ok(Case::new(t.contains(['"', '\\', '\n', '{', '&', '=', '%']), want.to_string()))
    });
    su.finish()
}

fn echo<T: DeserializeOwned + Serialize>(what: &'static str, j: &Value) -> Result<T, Fail> {
    let v: T = serde_json::from_value(j.clone()).map_err(|e| Fail::new(&format!("{what}-not-read"), format!("{e}: {j}")))?;
    let back = serde_json::to_value(&v).map_err(|e| Fail::new(&format!("{what}-not-written"), format!("{e}: {j}")))?;
    ensure_eq!(strip_null(back), *j, &format!("{what}-rewritten"), "{what} written again");
    Ok(v)
}
fn from_text<T: DeserializeOwned + Serialize>(what: &'static str, j: &Value) -> Result<(), Fail> {
    let text = j.to_string();
    let v: T = serde_json::from_str(&text).map_err(|e| Fail::new(&format!("{what}-text"), format!("{e}: {j}")))?;
    ensure_eq!(strip_null(json!(v)), *j, &format!("{what}-text"), "{what} through text");
    Ok(())
}
fn s_of(v: &Option<String>) -> Value { json!(v) }
pub fn messages() -> ! {
    let mut su = Suite::new("C18", "a message with at least three members, one of them nested or optional");
    su.scale(36);
    su.assume("an optional member written as null counts as absent; members left out when empty are given non-empty text");
    macro_rules! simple { ($($name:literal $gen:ident $t:ty),+ $(,)?) => { $(
        su.check($name, 2_500, 40_000, |s| {
            let j = g::$gen(s);
            echo::<$t>($name, &j)?;
            from_text::<$t>($name, &j)?;
            Ok(Case::new(j.as_object().is_some_and(|o| o.len() > 2), j.to_string()))
        });
    )+ } }
    simple! {
        "create-offer" create_offer iss::CreateOfferRequest, "create-offer-response" offer_response iss::CreateOfferResponse, "pushed" pushed iss::PushedAuthorizationRequest,
        "pushed-response" pushed_response iss::PushedAuthorizationResponse, "authorization-response" auth_response iss::AuthorizationResponse,
        "deferred" deferred iss::DeferredCredentialRequest, "notification" notification iss::NotificationRequest, "issuer" issuer iss::Issuer, "issuer-metadata" issuer iss::MetadataResponse, "client" client iss::Client,
        "registration" registration iss::RegistrationRequest, "server" server iss::Server, "configuration" configuration iss::CredentialConfiguration, "detail" detail iss::AuthorizationDetail,
        "proof-claims" proof_claims iss::ProofClaims, "dataset" dataset iss::Dataset, "deferred-response" credential_response iss::DeferredCredentialResponse,
        "create-request" create_request ver::CreateRequestRequest, "create-request-response" create_request_response ver::CreateRequestResponse, "verifier" verifier ver::Verifier, "verifier-metadata" verifier ver::MetadataResponse,
        "wallet" wallet ver::Wallet, "vp-response" vp_response ver::ResponseRequest, "vp-request-response" vp_request_response ver::RequestObjectResponse,
    }
    su.check("offer", 4_000, 60_000, |s| {
        let j = g::offer(s);
        let o: iss::CredentialOffer = echo("offer", &j)?;
        let g = &j["grants"];
        if let Some(a) = o.grants.as_ref().and_then(|g| g.authorization_code.as_ref()) { ensure_eq!((s_of(&a.issuer_state), s_of(&a.authorization_server)), (g["authorization_code"]["issuer_state"].clone(), g["authorization_code"]["authorization_server"].clone()), "offer-members", "{j}"); }
        if let Some(p) = o.grants.as_ref().and_then(|g| g.pre_authorized_code.as_ref()) { ensure_eq!(json!(p.pre_authorized_code), g[g::PRE]["pre-authorized_code"], "offer-members", "{j}"); }
        check_query(&o.to_querystring().map_err(|e| Fail::new("offer-query", e.to_string()))?, &j)?;
        check_qr(s, "offer-qr", &j, |e| o.to_qrcode(e))?;
        Ok(Case::new(j["grants"].is_object(), j.to_string()))
    });
    su.check("authorization", 10_000, 150_000, |s| {
        let j = g::authorization(s);
        let r: AuthorizationRequest = echo("authorization", &j)?;
        let AuthorizationRequest::Object(o) = &r else { return Err(Fail::new("authorization-kind", j.to_string())) };
        ensure_eq!(json!([o.client_id, o.redirect_uri, o.state, o.code_challenge, o.scope, o.resource, o.subject_id, o.wallet_issuer, o.user_hint, o.issuer_state]),
            json!([j["client_id"], j["redirect_uri"], j["state"], j["code_challenge"], j["scope"], j["resource"], j["subject_id"], j["wallet_issuer"], j["user_hint"], j["issuer_state"]]), "authorization-members", "{j}");
        // as text: JSON, its own query string, and a query string of another encoder
        let readable = |v: &Value| v.as_str().map_or(true, |t| !matches!(serde_json::from_str(t), Ok(Value::Object(_) | Value::Array(_))));
        let plain = j.as_object().unwrap().values().all(readable);
        let back = AuthorizationRequest::from_str(&j.to_string()).map_err(|e| Fail::new("authorization-json-text", format!("{e}: {j}")))?;
        ensure_eq!(strip_null(json!(back)), j, "authorization-json-text", "read from JSON text");
        let q = r.to_string();
        check_query(&q, &j)?;
        if plain {
            for q in [q, to_query(s, &j)] {
                let back = AuthorizationRequest::from_str(&q).map_err(|e| Fail::new("authorization-query", format!("{e}: {q}")))?;
                ensure_eq!(strip_null(json!(back)), j, "authorization-query", "read from {q}");
            }
        }
        Ok(Case::new(j.get("authorization_details").is_some(), j.to_string()).label(plain, "query"))
    });
    su.check("authorization-uri", 3_000, 30_000, |s| {
        // (a text that reads as a JSON object or list is ambiguous in a query string: left open, as in C01)
        let u = format!("urn:{}", crate::vcgen::nonempty(s));
        let j = json!({"request_uri": u});
        let r: AuthorizationRequest = echo("authorization-uri", &j)?;
        ensure!(matches!(&r, AuthorizationRequest::Uri(x) if x.request_uri == u), "authorization-uri-kind", "{j}");
        for t in [j.to_string(), r.to_string(), to_query(s, &j)] {
            let b = AuthorizationRequest::from_str(&t).map_err(|e| Fail::new("authorization-uri-text", format!("{e}: {t}")))?;
            ensure_eq!(b, r, "authorization-uri-text", "{t}");
        }
        let _ = AuthorizationRequest::from_str(&gen::text(s, 30));
        Ok(Case::new(true, j.to_string()))
    });
    su.check("token", 4_000, 60_000, |s| {
        let j = g::token(s);
        let r: iss::TokenRequest = echo("token", &j)?;
        match &r.grant_type {
            iss::TokenGrantType::AuthorizationCode { code, redirect_uri, code_verifier } => ensure_eq!((json!(code), s_of(redirect_uri), s_of(code_verifier)), (j["code"].clone(), j["redirect_uri"].clone(), j["code_verifier"].clone()), "token-members", "{j}"),
            iss::TokenGrantType::PreAuthorizedCode { pre_authorized_code, tx_code } => ensure_eq!((json!(pre_authorized_code), s_of(tx_code)), (j["pre-authorized_code"].clone(), j["tx_code"].clone()), "token-members", "{j}"),
        }
        // an unknown or missing grant type, or one without its code, is no token request
        let mut bad = j.clone();
        match s.upto(2) { 0 => bad["grant_type"] = json!("password"), 1 => { bad.as_object_mut().unwrap().remove("grant_type"); } _ => { for k in ["code", "pre-authorized_code"] { bad.as_object_mut().unwrap().remove(k); } } }
        ensure!(serde_json::from_value::<iss::TokenRequest>(bad.clone()).is_err(), "token-accepted", "{bad}");
        Ok(Case::new(j.as_object().unwrap().len() > 3, j.to_string()))
    });
    su.check("token-response", 3_000, 40_000, |s| {
        let j = g::token_response(s);
        let r: iss::TokenResponse = echo("token-response", &j)?;
        ensure_eq!((json!(r.access_token), json!(r.expires_in), s_of(&r.c_nonce), json!(r.c_nonce_expires_in)), (j["access_token"].clone(), j["expires_in"].clone(), j["c_nonce"].clone(), j["c_nonce_expires_in"].clone()), "token-response-members", "{j}");
        Ok(Case::new(j["authorization_details"].is_array(), j.to_string()))
    });
    su.check("credential", 4_000, 60_000, |s| {
        let j = g::credential(s);
        let r: iss::CredentialRequest = echo("credential", &j)?;
        if let iss::CredentialIssuance::Identifier { credential_identifier } = &r.credential { ensure_eq!(json!(credential_identifier), j["credential_identifier"], "credential-members", "{j}"); }
        match &r.proof {
            None => ensure!(j.get("proof").is_none() && j.get("proofs").is_none(), "credential-proof-lost", "{j}"),
            Some(iss::Proof::Single { proof_type: iss::SingleProof::Jwt { jwt } }) => ensure_eq!(json!(jwt), j["proof"]["jwt"], "credential-members", "{j}"),
            Some(iss::Proof::Multiple(iss::MultipleProofs::Jwt(v))) => ensure_eq!(json!(v), j["proofs"]["jwt"], "credential-members", "{j}"),
        }
        let mut bad = j.clone();
        let o = bad.as_object_mut().unwrap();
        if s.bool() { for k in ["credential_identifier", "format"] { o.remove(k); } } else { o.remove("credential_identifier"); o.insert("format".into(), json!("jpeg")); }
        ensure!(serde_json::from_value::<iss::CredentialRequest>(bad.clone()).is_err(), "credential-accepted", "{bad}");
        Ok(Case::new(j.as_object().unwrap().len() > 2, j.to_string()))
    });
    su.check("credential-response", 3_000, 40_000, |s| {
        let j = g::credential_response(s);
        let r: iss::CredentialResponse = echo("credential-response", &j)?;
        ensure_eq!((s_of(&r.c_nonce), s_of(&r.notification_id)), (j["c_nonce"].clone(), j["notification_id"].clone()), "credential-response-members", "{j}");
        Ok(Case::new(true, j.to_string()))
    });
    su.check("vp-request", 5_000, 60_000, |s| {
        let j = g::vp_request(s);
        let r: ver::RequestObject = echo("vp-request", &j)?;
        ensure_eq!(json!([r.client_id, r.nonce, r.state, r.redirect_uri, r.response_uri, r.response_mode, r.scope]), json!([j["client_id"], j["nonce"], j["state"], j["redirect_uri"], j["response_uri"], j["response_mode"], j["scope"]]), "vp-request-members", "{j}");
        check_query(&r.to_querystring().map_err(|e| Fail::new("vp-request-query", e.to_string()))?, &j)?;
        check_qr(s, "vp-request-qr", &j, |e| r.to_qrcode(e))?;
        Ok(Case::new(true, j.to_string()))
    });
    su.check("texts", 6_000, 60_000, |s| {
        // what a type says of itself in words is what it says in JSON, and what it reads back
        let mut m = g::Obj::new();
        g::format(s, &mut m);
        let j = Value::Object(m);
        let f: iss::Format = echo("format", &j)?;
        ensure_eq!(json!(f.to_string()), j["format"], "format-name", "{j}");
        let send = if s.bool() { iss::SendType::ByVal } else { iss::SendType::ByRef };
        ensure_eq!((send.to_string(), iss::SendType::from(send.to_string())), (match send { iss::SendType::ByVal => "by_val", iss::SendType::ByRef => "by_ref" }.to_string(), send), "send-type", "send type in words");
        let c: iss::Client = echo("client", &g::client(s))?;
        let text = c.oauth.to_string();
        let back = iss::OAuthClient::from_str(&text).map_err(|e| Fail::new("client-words", format!("{e}: {text}")))?;
        ensure_eq!((json!(back), serde_json::from_str::<Value>(&text).ok()), (json!(c.oauth), Some(json!(c.oauth))), "client-words", "{text}");
        let junk = gen::text(s, 12);
        if serde_json::from_str::<Value>(&junk).is_err() { ensure!(iss::OAuthClient::from_str(&junk).is_err(), "client-accepted", "{junk}"); }
        // a request object is an object, a bare JWT or a named one, and nothing else
        let jwt = gen::ident(s);
        let want = ver::RequestObjectResponse { request_object: ver::RequestObjectType::Jwt(jwt.clone()) };
        for j in [json!(jwt), json!({"jwt": jwt})] {
            let r: ver::RequestObjectResponse = serde_json::from_value(j.clone()).map_err(|e| Fail::new("request-jwt", format!("{e}: {j}")))?;
            ensure_eq!(r, want, "request-jwt", "{j}");
        }
        let other = loop { let k = gen::ident(s); if k != "jwt" && k != "request_object" { break k; } };
        ensure!(serde_json::from_value::<ver::RequestObjectResponse>(json!({other.as_str(): jwt})).is_err(), "request-object-accepted", "{other}");
        Ok(Case::new(true, j.to_string()))
    });
    su.finish()
}

// ---- claims -------------------------------------------------------------------------------
/// A claimset as a tree: None is an entry, Some a set.
#[derive(Clone, Debug, PartialEq)]
enum Tree { Entry(Option<bool>), Set(BTreeMap<String, Tree>) }
fn tree(s: &mut Src, depth: usize, mandatory: bool) -> BTreeMap<String, Tree> {
    s.vec(0, 4, |s| {
        let k = s.one(&["a", "b", "c", "d"]).to_string();
        let t = if depth > 0 && s.chance(1, 3) { Tree::Set(tree(s, depth - 1, mandatory)) } else { Tree::Entry(if mandatory { s.one(&[None, Some(false), Some(true)]) } else { None }) };
        (k, t)
    }).into_iter().collect()
}
fn typed(m: &BTreeMap<String, Tree>) -> HashMap<String, Claim> {
    m.iter().map(|(k, t)| (k.clone(), match t {
        Tree::Entry(mandatory) => Claim::Entry(iss::ClaimDefinition { mandatory: *mandatory, ..Default::default() }),
        Tree::Set(m) => Claim::Set(typed(m)),
    })).collect()
}
/// Every requested claim is offered, a requested set only where a set is offered.
fn supported(req: &BTreeMap<String, Tree>, sup: &BTreeMap<String, Tree>) -> bool {
    req.iter().all(|(k, r)| match (r, sup.get(k)) { (_, None) => false, (Tree::Set(r), Some(Tree::Set(p))) => supported(r, p), (Tree::Set(_), Some(Tree::Entry(_))) => false, (Tree::Entry(_), _) => true })
}
/// Every mandatory claim is requested.
fn complete(req: &BTreeMap<String, Tree>, sup: &BTreeMap<String, Tree>) -> bool {
    sup.iter().all(|(k, p)| match (p, req.get(k)) {
        (Tree::Entry(m), r) => !m.unwrap_or(false) || r.is_some(),
        (Tree::Set(p), Some(Tree::Set(r))) => complete(r, p),
        (Tree::Set(p), None) => complete(&BTreeMap::new(), p),
        (Tree::Set(_), Some(Tree::Entry(_))) => false,
    })
}
fn formats(claims: Option<HashMap<String, Claim>>, i: u64) -> iss::Format {
    let def = iss::CredentialDefinition { credential_subject: claims.clone(), ..Default::default() };
    match i {
        0 => iss::Format::JwtVcJson(iss::ProfileW3c { credential_definition: def }),
        1 => iss::Format::LdpVc(iss::ProfileW3c { credential_definition: def }),
        2 => iss::Format::JwtVcJsonLd(iss::ProfileW3c { credential_definition: def }),
        3 => iss::Format::IsoMdl(iss::ProfileIsoMdl { doctype: "d".into(), claims }),
        _ => iss::Format::VcSdJwt(iss::ProfileSdJwt { vct: "v".into(), claims }),
    }
}
pub fn claims() -> ! {
    let mut su = Suite::new("C19", "a configuration and a request with at least two claims each, or one of them nested");
    su.scale(60);
    su.assume("a set requested as a single claim is left open when the configuration has a set of that name");
    su.check("verify", 60_000, 600_000, |s| {
        let sup = tree(s, 2, true);
        // the request is derived from what is offered, then disturbed
        fn derive(s: &mut Src, m: &BTreeMap<String, Tree>, keep: u64) -> BTreeMap<String, Tree> {
            m.iter().filter_map(|(k, t)| { if !s.chance(keep, 8) { return None; } Some((k.clone(), match t { Tree::Entry(_) => Tree::Entry(None), Tree::Set(m) => Tree::Set(derive(s, m, keep)) })) }).collect()
        }
        let keep = s.one(&[8, 8, 7, 4]);
        let mut req = if s.chance(1, 8) { tree(s, 2, false) } else { derive(s, &sup, keep) };
        if s.chance(1, 4) { for (k, t) in tree(s, 1, false) { req.insert(k, t); } }
        let none = s.chance(1, 12);
        let fmt = s.upto(4);
        let cfg = CredentialConfiguration { format: formats(if none { None } else { Some(typed(&sup)) }, fmt), ..Default::default() };
        let show = format!("format {fmt} requested {req:?} of {}", if none { "no claims".into() } else { format!("{sup:?}") });
        let got = cfg.verify_claims(&typed(&req)).is_ok();
        fn open(req: &BTreeMap<String, Tree>, sup: &BTreeMap<String, Tree>) -> bool {
            req.iter().any(|(k, r)| match (r, sup.get(k)) { (Tree::Entry(_), Some(Tree::Set(_))) => true, (Tree::Set(r), Some(Tree::Set(p))) => open(r, p), _ => false })
        }
        if !none && open(&req, &sup) { return Ok(Case::new(false, show)); }
        let want = none || (supported(&req, &sup) && complete(&req, &sup));
        ensure_eq!(got, want, if want { "claims-refused" } else { "claims-accepted" }, "{show}");
        Ok(Case::new(req.len() > 1 && sup.len() > 1, show).label(want, "accepted").label(!want, "refused"))
    });
    su.check("configuration-id", 15_000, 150_000, |s| {
        // a format is looked up among the supported configurations by what identifies it
        let kinds: Vec<(u64, String)> = { let mut v = s.vec(1, 5, |s| (s.upto(4), s.one(&["p", "q", "r"]).to_string())); v.sort(); v.dedup(); v };
        let mk = |(k, n): &(u64, String), c: Option<HashMap<String, Claim>>| match formats(c, *k) {
            iss::Format::JwtVcJson(mut p) => { p.credential_definition.type_ = Some(vec![n.clone()]); iss::Format::JwtVcJson(p) }
            iss::Format::LdpVc(mut p) => { p.credential_definition.type_ = Some(vec![n.clone()]); iss::Format::LdpVc(p) }
            iss::Format::JwtVcJsonLd(mut p) => { p.credential_definition.type_ = Some(vec![n.clone()]); iss::Format::JwtVcJsonLd(p) }
            iss::Format::IsoMdl(mut p) => { p.doctype = n.clone(); iss::Format::IsoMdl(p) }
            iss::Format::VcSdJwt(mut p) => { p.vct = n.clone(); iss::Format::VcSdJwt(p) }
        };
        let issuer = iss::Issuer { credential_configurations_supported: kinds.iter().map(|k| { let c = typed(&tree(s, 1, true)); (format!("{}-{}", k.0, k.1), CredentialConfiguration { format: mk(k, Some(c)), ..Default::default() }) }).collect(), ..Default::default() };
        let q = (s.upto(4), s.one(&["p", "q", "r"]).to_string());
        let c = s.opt(|s| typed(&tree(s, 1, false)));
        let got = issuer.credential_configuration_id(&mk(&q, c)).ok().cloned();
        let want = kinds.contains(&q).then(|| format!("{}-{}", q.0, q.1));
        ensure_eq!(got, want, "configuration-id", "{q:?} among {kinds:?}");
        Ok(Case::new(kinds.len() > 1, format!("{q:?} among {kinds:?}")))
    });
    su.check("same-authorization", 15_000, 150_000, |s| {
        // two authorizations name the same credential whatever claims they ask for
        let make = |s: &mut Src| -> Result<(Value, iss::CredentialAuthorization), Fail> {
            let id = if s.bool() { json!(["id", s.one(&["p", "q"])]) } else { let f = s.one(&["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld", "mso_mdoc", "vc+sd-jwt"]); json!([f, s.one(&["p", "q"])]) };
            let claims = s.opt(|s| g::claims(s, 1));
            let mut j = match id[0].as_str().unwrap() {
                "id" => json!({"credential_configuration_id": id[1]}),
                f @ "mso_mdoc" => json!({"format": f, "doctype": id[1]}),
                f @ "vc+sd-jwt" => json!({"format": f, "vct": id[1]}),
                f => json!({"format": f, "credential_definition": {"type": ["VerifiableCredential", id[1]]}}),
            };
            if let Some(c) = claims {
                let w3c = j.get("credential_definition").is_some() || (id[0] == "id" && s.bool());
                if w3c { if j.get("credential_definition").is_none() { j["credential_definition"] = json!({}); } j["credential_definition"]["credentialSubject"] = c; } else { j["claims"] = c; }
            }
            Ok((id, serde_json::from_value(j.clone()).map_err(|e| Fail::new("authorization-not-read", format!("{e}: {j}")))?))
        };
        let ((i, a), (k, b)) = (make(s)?, make(s)?);
        let show = format!("{} and {}", json!(a), json!(b));
        ensure_eq!((a == b, b == a, a == a), (i == k, i == k, true), "same-authorization", "{show}");
        Ok(Case::new(i == k || i[0] == k[0], show).label(i == k, "same").label(i != k, "different"))
    });
    su.finish()
}
