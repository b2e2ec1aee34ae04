//! JSON of OpenID4VCI and OpenID4VP messages, written with the member names of the specifications.
use pbt::{gen, Src};
use serde_json::{json, Map, Value};

use crate::vcgen::{quota, uri};

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
pub type Obj = Map<String, Value>;
pub fn t(s: &mut Src) -> Value { json!(gen::ident(s)) }
fn u(s: &mut Src) -> Value { json!(uri(s)) }
fn w(s: &mut Src) -> Value { json!(gen::word(s, 1, 8)) }
fn n(s: &mut Src) -> Value { json!(s.int(-5, 1 << 40)) }
fn b(s: &mut Src) -> Value { json!(s.bool()) }
fn texts(s: &mut Src) -> Value { Value::Array(s.vec(0, 3, t)) }
pub fn req(m: &mut Obj, k: &str, v: Value) { m.insert(k.into(), v); }
pub fn opt(s: &mut Src, m: &mut Obj, k: &str, f: impl FnOnce(&mut Src) -> Value) { if s.bool() { let v = f(s); m.insert(k.into(), v); } }
/// Members that are left out when empty are given a value.
fn filled(s: &mut Src, m: &mut Obj, k: &str) { if s.bool() { let v = crate::vcgen::nonempty(s); m.insert(k.into(), json!(v)); } }
fn name(s: &mut Src) -> String { format!("{}{}", s.one(&["given_name", "email", "address", "a", "org.iso.18013.5.1"]), gen::word(s, 0, 2)) }
pub fn display(s: &mut Src) -> Value { let mut m = Obj::new(); req(&mut m, "name", t(s)); opt(s, &mut m, "locale", |s| json!(s.one(&["en", "mi-NZ"]))); Value::Object(m) }
pub fn claim(s: &mut Src, depth: usize) -> Value {
    if depth > 0 && s.chance(1, 3) { let c = claims(s, depth - 1); if !c.as_object().unwrap().is_empty() { return c; } }
    let mut m = Obj::new();
    opt(s, &mut m, "mandatory", b);
    opt(s, &mut m, "value_type", |s| json!(s.one(&["string", "number", "image"])));
    opt(s, &mut m, "display", |s| Value::Array(s.vec(0, 2, display)));
    Value::Object(m)
}
pub fn claims(s: &mut Src, depth: usize) -> Value { Value::Object(s.vec(0, 4, |s| (name(s), claim(s, depth))).into_iter().collect()) }
pub fn definition(s: &mut Src) -> Value {
    let mut m = Obj::new();
    opt(s, &mut m, "@context", texts);
    opt(s, &mut m, "type", |s| Value::Array(s.vec(0, 3, w)));
    opt(s, &mut m, "credentialSubject", |s| claims(s, 2));
    Value::Object(m)
}
pub fn format(s: &mut Src, m: &mut Obj) {
    let f = s.one(&["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld", "mso_mdoc", "vc+sd-jwt"]);
    req(m, "format", json!(f));
    match f {
        "mso_mdoc" => { req(m, "doctype", t(s)); opt(s, m, "claims", |s| claims(s, 2)); }
        "vc+sd-jwt" => { req(m, "vct", t(s)); opt(s, m, "claims", |s| claims(s, 2)); }
        _ => req(m, "credential_definition", definition(s)),
    }
}
pub fn detail(s: &mut Src) -> Value {
    let mut m = Obj::new();
    req(&mut m, "type", json!("openid_credential"));
    if s.bool() {
        req(&mut m, "credential_configuration_id", t(s));
        match s.upto(2) { 0 => {} 1 => req(&mut m, "credential_definition", definition(s)), _ => req(&mut m, "claims", claims(s, 2)) }
    } else { format(s, &mut m); }
    opt(s, &mut m, "locations", texts);
    Value::Object(m)
}
pub fn details(s: &mut Src) -> Value { Value::Array(s.vec(0, 3, detail)) }
pub fn create_offer(s: &mut Src) -> Value {
    let mut m = Obj::new();
    filled(s, &mut m, "credential_issuer");
    opt(s, &mut m, "subject_id", t);
    req(&mut m, "credential_configuration_ids", texts(s));
    opt(s, &mut m, "grant_types", |s| Value::Array(s.vec(0, 2, |s| json!(s.one(&["authorization_code", PRE])))));
    req(&mut m, "tx_code_required", b(s));
    req(&mut m, "send_type", json!(s.one(&["ByVal", "ByRef"])));
    Value::Object(m)
}
pub fn offer(s: &mut Src) -> Value {
    let mut m = Obj::new();
    filled(s, &mut m, "credential_issuer");
    req(&mut m, "credential_configuration_ids", texts(s));
    opt(s, &mut m, "grants", |s| {
        let mut g = Obj::new();
        opt(s, &mut g, "authorization_code", |s| { let mut m = Obj::new(); opt(s, &mut m, "issuer_state", t); opt(s, &mut m, "authorization_server", t); Value::Object(m) });
        opt(s, &mut g, PRE, |s| {
            let mut m = Obj::new();
            req(&mut m, "pre-authorized_code", t(s));
            opt(s, &mut m, "tx_code", |s| { let mut m = Obj::new(); opt(s, &mut m, "input_mode", t); opt(s, &mut m, "length", |s| json!(s.int(-3, 100))); opt(s, &mut m, "description", t); Value::Object(m) });
            opt(s, &mut m, "authorization_server", t);
            Value::Object(m)
        });
        Value::Object(g)
    });
    Value::Object(m)
}
pub fn offer_response(s: &mut Src) -> Value {
    let mut m = Obj::new();
    if s.bool() { req(&mut m, "credential_offer", offer(s)); } else { req(&mut m, "credential_offer_uri", u(s)); }
    opt(s, &mut m, "tx_code", t);
    Value::Object(m)
}
pub fn authorization(s: &mut Src) -> Value {
    let mut m = Obj::new();
    filled(s, &mut m, "credential_issuer");
    req(&mut m, "response_type", json!(s.one(&["code", "vp_token", "id_token vp_token"])));
    req(&mut m, "client_id", t(s));
    for k in ["redirect_uri", "state"] { opt(s, &mut m, k, t); }
    req(&mut m, "code_challenge", t(s));
    req(&mut m, "code_challenge_method", json!("S256"));
    opt(s, &mut m, "authorization_details", details);
    for k in ["scope", "resource", "wallet_issuer", "user_hint", "issuer_state"] { opt(s, &mut m, k, t); }
    req(&mut m, "subject_id", t(s));
    Value::Object(m)
}
fn assertion(s: &mut Src, m: &mut Obj) {
    if s.chance(1, 3) { req(m, "client_assertion_type", json!("urn:ietf:params:oauth:client-assertion-type:jwt-bearer")); req(m, "client_assertion", t(s)); }
}
pub fn pushed(s: &mut Src) -> Value { let mut v = authorization(s); assertion(s, v.as_object_mut().unwrap()); v }
pub fn token(s: &mut Src) -> Value {
    let mut m = Obj::new();
    filled(s, &mut m, "credential_issuer");
    opt(s, &mut m, "client_id", t);
    if s.bool() {
        req(&mut m, "grant_type", json!("authorization_code"));
        req(&mut m, "code", t(s));
        for k in ["redirect_uri", "code_verifier"] { opt(s, &mut m, k, t); }
    } else {
        req(&mut m, "grant_type", json!(PRE));
        req(&mut m, "pre-authorized_code", t(s));
        opt(s, &mut m, "tx_code", t);
    }
    opt(s, &mut m, "authorization_details", details);
    assertion(s, &mut m);
    Value::Object(m)
}
pub fn token_response(s: &mut Src) -> Value {
    let mut m = Obj::new();
    req(&mut m, "access_token", t(s));
    req(&mut m, "token_type", json!("Bearer"));
    req(&mut m, "expires_in", n(s));
    opt(s, &mut m, "c_nonce", t);
    opt(s, &mut m, "c_nonce_expires_in", n);
    opt(s, &mut m, "authorization_details", |s| Value::Array(s.vec(0, 3, |s| { let mut d = detail(s); d["credential_identifiers"] = texts(s); d })));
    Value::Object(m)
}
pub fn credential(s: &mut Src) -> Value {
    let mut m = Obj::new();
    filled(s, &mut m, "credential_issuer");
    filled(s, &mut m, "access_token");
    if s.bool() { req(&mut m, "credential_identifier", t(s)); } else { format(s, &mut m); }
    match s.upto(2) {
        0 => {}
        1 => req(&mut m, "proof", json!({"proof_type": "jwt", "jwt": gen::ident(s)})),
        _ => req(&mut m, "proofs", json!({"jwt": texts(s)})),
    }
    if s.chance(1, 4) { req(&mut m, "credential_response_encryption", json!({"jwk": {"kty": "OKP", "crv": "X25519", "x": gen::word(s, 1, 9)}, "alg": gen::ident(s), "enc": gen::ident(s)})); }
    Value::Object(m)
}
fn one_credential(s: &mut Src) -> Value { if s.bool() { json!(gen::word(s, 3, 9)) } else { crate::vcgen::vc(s) } }
pub fn credential_response(s: &mut Src) -> Value {
    let mut m = Obj::new();
    match s.upto(2) { 0 => req(&mut m, "credential", one_credential(s)), 1 => req(&mut m, "credentials", Value::Array(s.vec(0, 3, one_credential))), _ => req(&mut m, "transaction_id", t(s)) }
    opt(s, &mut m, "c_nonce", t);
    opt(s, &mut m, "c_nonce_expires_in", n);
    opt(s, &mut m, "notification_id", t);
    Value::Object(m)
}
pub fn deferred(s: &mut Src) -> Value { let mut m = Obj::new(); filled(s, &mut m, "credential_issuer"); filled(s, &mut m, "access_token"); req(&mut m, "transaction_id", t(s)); Value::Object(m) }
pub fn notification(s: &mut Src) -> Value {
    let mut m = Obj::new();
    filled(s, &mut m, "credential_issuer"); filled(s, &mut m, "access_token");
    req(&mut m, "notification_id", t(s));
    req(&mut m, "event", json!(s.one(&["credential_accepted", "credential_failure", "credential_deleted"])));
    opt(s, &mut m, "event_description", t);
    Value::Object(m)
}
pub fn configuration(s: &mut Src) -> Value {
    let mut m = Obj::new();
    format(s, &mut m);
    opt(s, &mut m, "scope", t);
    opt(s, &mut m, "cryptographic_binding_methods_supported", texts);
    opt(s, &mut m, "credential_signing_alg_values_supported", texts);
    opt(s, &mut m, "proof_types_supported", |s| json!({"jwt": {"proof_signing_alg_values_supported": texts(s)}}));
    opt(s, &mut m, "display", |s| Value::Array(s.vec(0, 2, |s| {
        let mut d = display(s);
        let o = d.as_object_mut().unwrap();
        for k in ["description", "background_color", "text_color"] { opt(s, o, k, t); }
        for k in ["logo", "background_image"] { opt(s, o, k, |s| { let mut m = Obj::new(); opt(s, &mut m, "uri", u); opt(s, &mut m, "alt_text", t); Value::Object(m) }); }
        d
    })));
    Value::Object(m)
}
pub fn issuer(s: &mut Src) -> Value {
    let mut m = Obj::new();
    filled(s, &mut m, "credential_issuer");
    opt(s, &mut m, "authorization_servers", texts);
    req(&mut m, "credential_endpoint", t(s));
    for k in ["deferred_credential_endpoint", "notification_endpoint", "signed_metadata"] { opt(s, &mut m, k, t); }
    opt(s, &mut m, "credential_response_encryption", |s| json!({"alg_values_supported": texts(s), "enc_values_supported": texts(s), "encryption_required": s.bool()}));
    opt(s, &mut m, "batch_credential_issuance", |s| json!({"batch_size": s.int(0, 99)}));
    opt(s, &mut m, "display", display);
    req(&mut m, "credential_configurations_supported", Value::Object(s.vec(0, 3, |s| (gen::word(s, 1, 6), configuration(s))).into_iter().collect()));
    Value::Object(m)
}
fn oauth_client(s: &mut Src, m: &mut Obj) {
    req(m, "client_id", t(s));
    for k in ["client_id_issued_at", "client_secret_expires_at"] { opt(s, m, k, n); }
    for k in ["client_secret", "client_name", "client_uri", "logo_uri", "scope", "contacts", "tos_uri", "policy_uri", "jwks_uri", "jwks", "software_id", "software_version"] { if s.chance(1, 4) { req(m, k, t(s)); } }
    opt(s, m, "redirect_uris", texts);
    opt(s, m, "token_endpoint_auth_method", |s| json!(s.one(&["none", "client_secret_jwt", "private_key_jwt"])));
    opt(s, m, "grant_types", |s| Value::Array(s.vec(0, 2, |s| json!(s.one(&["authorization_code", PRE])))));
    opt(s, m, "response_types", |s| Value::Array(s.vec(0, 2, |s| json!(s.one(&["code", "vp_token", "id_token vp_token"])))));
    opt(s, m, "require_pushed_authorization_requests", b);
    opt(s, m, "credential_offer_endpoint", t);
}
pub fn client(s: &mut Src) -> Value { let mut m = Obj::new(); oauth_client(s, &mut m); Value::Object(m) }
pub fn registration(s: &mut Src) -> Value { let mut m = Obj::new(); filled(s, &mut m, "credential_issuer"); filled(s, &mut m, "access_token"); oauth_client(s, &mut m); Value::Object(m) }
fn oauth_server(s: &mut Src, m: &mut Obj) {
    for k in ["issuer", "authorization_endpoint", "token_endpoint"] { req(m, k, t(s)); }
    req(m, "response_types_supported", Value::Array(s.vec(0, 2, |s| json!(s.one(&["code", "vp_token", "id_token vp_token"])))));
    for k in ["jwks_uri", "registration_endpoint", "service_documentation", "op_policy_uri", "op_tos_uri", "revocation_endpoint", "introspection_endpoint", "signed_metadata", "pushed_authorization_request_endpoint"] { if s.chance(1, 4) { req(m, k, t(s)); } }
    for k in ["scopes_supported", "ui_locales_supported", "revocation_endpoint_auth_methods_supported", "revocation_endpoint_auth_signing_alg_values_supported", "introspection_endpoint_auth_methods_supported", "introspection_endpoint_auth_signing_alg_values_supported"] { if s.chance(1, 4) { req(m, k, texts(s)); } }
    opt(s, m, "response_modes_supported", |s| Value::Array(s.vec(0, 2, |s| json!(s.one(&["query", "jarm"])))));
    opt(s, m, "grant_types_supported", |s| Value::Array(s.vec(0, 2, |s| json!(s.one(&["authorization_code", PRE])))));
    opt(s, m, "token_endpoint_auth_methods_supported", |s| Value::Array(s.vec(0, 2, |s| json!(s.one(&["none", "client_secret_jwt", "private_key_jwt"])))));
    opt(s, m, "token_endpoint_auth_signing_alg_values_supported", |s| Value::Array(s.vec(0, 2, |s| json!(s.one(&["ES256K", "EdDSA"])))));
    opt(s, m, "code_challenge_methods_supported", |_| json!(["S256"]));
    opt(s, m, "require_pushed_authorization_requests", b);
}
pub fn server(s: &mut Src) -> Value { let mut m = Obj::new(); oauth_server(s, &mut m); req(&mut m, "pre-authorized_grant_anonymous_access_supported", b(s)); Value::Object(m) }
fn vp_format(s: &mut Src) -> Value { let mut m = Obj::new(); opt(s, &mut m, "alg", texts); opt(s, &mut m, "proof_type", texts); Value::Object(m) }
pub fn verifier(s: &mut Src) -> Value { let mut m = Obj::new(); oauth_client(s, &mut m); opt(s, &mut m, "vp_formats", |s| json!({"jwt_vp_json": vp_format(s)})); Value::Object(m) }
pub fn wallet(s: &mut Src) -> Value {
    let mut m = Obj::new();
    oauth_server(s, &mut m);
    req(&mut m, "presentation_definition_uri_supported", b(s));
    opt(s, &mut m, "vp_formats_supported", |s| Value::Object(s.vec(0, 2, |s| (gen::word(s, 1, 5), vp_format(s))).into_iter().collect()));
    Value::Object(m)
}
pub fn descriptor(s: &mut Src) -> Value {
    let mut m = Obj::new();
    req(&mut m, "id", t(s));
    for k in ["name", "purpose"] { opt(s, &mut m, k, t); }
    let mut c = Obj::new();
    opt(s, &mut c, "fields", |s| Value::Array(s.vec(0, 3, |s| {
        let mut f = Obj::new();
        req(&mut f, "path", json!([format!("$.{}", gen::word(s, 1, 5))]));
        opt(s, &mut f, "filter", |s| json!({"type": "string", "const": gen::ident(s)}));
        opt(s, &mut f, "optional", b);
        Value::Object(f)
    })));
    req(&mut m, "constraints", Value::Object(c));
    Value::Object(m)
}
pub fn pres_definition(s: &mut Src) -> Value {
    let mut m = Obj::new();
    req(&mut m, "id", t(s));
    for k in ["name", "purpose"] { opt(s, &mut m, k, t); }
    req(&mut m, "input_descriptors", Value::Array(s.vec(0, 3, descriptor)));
    Value::Object(m)
}
pub fn vp_request(s: &mut Src) -> Value {
    let mut m = Obj::new();
    req(&mut m, "response_type", json!(s.one(&["vp_token", "vp_token id_token", "code"])));
    req(&mut m, "client_id", t(s));
    for k in ["redirect_uri", "response_mode", "response_uri", "scope", "state"] { opt(s, &mut m, k, t); }
    req(&mut m, "nonce", t(s));
    let d = if s.chance(1, 4) { u(s) } else { pres_definition(s) };
    req(&mut m, "presentation_definition", d);
    opt(s, &mut m, "client_id_scheme", |s| json!(s.one(&["redirect_uri", "did"])));
    req(&mut m, "client_metadata", verifier(s));
    Value::Object(m)
}
pub fn vp_request_response(s: &mut Src) -> Value { if s.bool() { json!({"request_object": vp_request(s)}) } else { w(s) } }
pub fn create_request(s: &mut Src) -> Value {
    let mut m = Obj::new();
    for k in ["client_id", "purpose", "client_id_scheme"] { req(&mut m, k, t(s)); }
    req(&mut m, "input_descriptors", Value::Array(s.vec(0, 3, descriptor)));
    req(&mut m, "device_flow", json!(s.one(&["CrossDevice", "SameDevice"])));
    Value::Object(m)
}
pub fn create_request_response(s: &mut Src) -> Value { let mut m = Obj::new(); opt(s, &mut m, "request_object", vp_request); opt(s, &mut m, "request_uri", u); Value::Object(m) }
pub fn submission(s: &mut Src) -> Value {
    json!({"id": gen::ident(s), "definition_id": gen::ident(s), "descriptor_map": s.vec(0, 3, |s| {
        let nested = json!({"format": gen::word(s, 1, 5), "path": format!("$.{}", gen::word(s, 1, 5))});
        json!({"id": gen::ident(s), "format": "jwt_vp_json", "path": "$", "path_nested": nested})
    })})
}
pub fn vp_response(s: &mut Src) -> Value {
    let mut m = Obj::new();
    opt(s, &mut m, "vp_token", |s| Value::Array(s.vec(0, 3, |s| if s.bool() { w(s) } else { crate::vcgen::vp(s) })));
    opt(s, &mut m, "presentation_submission", submission);
    opt(s, &mut m, "state", t);
    Value::Object(m)
}
pub fn pushed_response(s: &mut Src) -> Value { json!({"request_uri": u(s), "expires_in": n(s)}) }
pub fn auth_response(s: &mut Src) -> Value { let mut m = Obj::new(); req(&mut m, "code", t(s)); opt(s, &mut m, "state", t); req(&mut m, "redirect_uri", t(s)); Value::Object(m) }
pub fn proof_claims(s: &mut Src) -> Value { let mut m = Obj::new(); opt(s, &mut m, "iss", t); req(&mut m, "aud", t(s)); req(&mut m, "iat", n(s)); opt(s, &mut m, "nonce", t); Value::Object(m) }
pub fn dataset(s: &mut Src) -> Value { json!({"claims": crate::keys::strip_null(Value::Object(gen::object(s, 2))), "pending": s.bool()}) }
#[allow(dead_code)]
pub fn any_quota(s: &mut Src) -> Value { quota(s, 1, t) }
