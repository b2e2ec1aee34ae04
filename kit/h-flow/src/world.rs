//! The generated world of an issuer: what it supports, whom it knows and what it stores.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use anyhow::anyhow;
use chrono::{DateTime, Utc};
use pbt::{gen, Src};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use vercre_core::Quota;
use vercre_did::{DidResolver, Document};
use vercre_infosec::{Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::issuer::{Client, Dataset, Issuer, Metadata, Server, StateStore, Subject};
use vercre_status::issuer::Status;
use vercre_w3c_vc::model::CredentialStatus;

use crate::keys::{Docs, Key};

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
pub const CODE: &str = "authorization_code";
pub const ISSUER: &str = "https://issuer.example";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Proofs { Jwt, None, Other }
#[derive(Clone, Debug)]
pub struct Cfg {
    pub id: String,
    /// the credential's own type, or None for a mobile driving licence
    pub typ: Option<String>,
    pub doctype: String,
    pub scope: Option<String>,
    pub proofs: Proofs,
    /// claims the configuration lists, and whether they are mandatory
    pub claims: Option<BTreeMap<String, bool>>,
    pub display: Option<Vec<Value>>,
}
impl Cfg {
    /// The format part of a request for this configuration, with an optional selection of claims.
    pub fn format(&self, claims: Option<&[String]>) -> Value {
        let c: Option<Value> = claims.map(|c| c.iter().map(|k| (k.clone(), json!({}))).collect::<Map<_, _>>().into());
        match &self.typ {
            Some(t) => { let mut d = json!({"type": ["VerifiableCredential", t]}); if let Some(c) = c { d["credentialSubject"] = c; } json!({"format": "jwt_vc_json", "credential_definition": d}) }
            None => { let mut m = json!({"format": "mso_mdoc", "doctype": self.doctype}); if let Some(c) = c { m["claims"] = c; } m }
        }
    }
    /// The configuration id part of a request.
    pub fn by_id(&self, claims: Option<&[String]>) -> Value {
        let mut m = json!({"credential_configuration_id": self.id});
        if let Some(c) = claims {
            let c: Value = c.iter().map(|k| (k.clone(), json!({}))).collect::<Map<_, _>>().into();
            if self.typ.is_some() { m["credential_definition"] = json!({"credentialSubject": c}); } else { m["claims"] = c; }
        }
        m
    }
    pub fn metadata(&self) -> Value {
        let mut m = self.format(None);
        if let Some(c) = &self.claims {
            let c: Value = c.iter().map(|(k, mand)| (k.clone(), if *mand { json!({"mandatory": true, "value_type": "string"}) } else { json!({"value_type": "string"}) })).collect::<Map<_, _>>().into();
            if self.typ.is_some() { m["credential_definition"]["credentialSubject"] = c; } else { m["claims"] = c; }
        }
        if let Some(s) = &self.scope { m["scope"] = json!(s); }
        match self.proofs {
            Proofs::Jwt => m["proof_types_supported"] = json!({"jwt": {"proof_signing_alg_values_supported": ["EdDSA"]}}),
            Proofs::Other => m["proof_types_supported"] = json!({"ldp_vp": {"proof_signing_alg_values_supported": ["EdDSA"]}}),
            Proofs::None => {}
        }
        if let Some(d) = &self.display { m["display"] = json!(d); }
        m
    }
}
#[derive(Clone, Debug)]
pub struct Wallet { pub id: String, pub redirects: Vec<String>, pub meta: Value, pub scope: Option<String>, pub code_grant: bool, pub code_response: bool }
#[derive(Clone, Debug)]
pub struct Ds { pub cfg: usize, pub claims: Map<String, Value>, pub status: Option<Value> }
#[derive(Clone)]
pub struct World {
    pub cfgs: Vec<Cfg>,
    pub issuer: Value,
    pub server: Value,
    pub auth_server: Option<String>,
    pub grants: Vec<&'static str>,
    pub anonymous: bool,
    pub par_required: bool,
    pub s256: bool,
    pub code_supported: bool,
    pub wallets: Vec<Wallet>,
    /// subject -> credential identifier -> dataset
    pub people: BTreeMap<String, BTreeMap<String, Ds>>,
    pub key: Key,
    /// the store forgets what has expired (it may, or may not)
    pub evicts: bool,
}
pub const SUBJECTS: [&str; 3] = ["alice", "bob", "carol"];
impl World {
    /// `open`: nothing but the requests can be wrong; otherwise the metadata restricts what is possible.
    pub fn new(s: &mut Src, open: bool) -> Self { Self::of(s, open, true) }
    /// `any`: mobile driving licences too, and configurations that take no JWT proof.
    pub fn of(s: &mut Src, open: bool, any: bool) -> Self {
        let n = s.size(1, 4);
        let cfgs: Vec<Cfg> = (0..n).map(|i| {
            let mdl = any && s.chance(1, 5);
            let names: &[&str] = if mdl { &["org.iso.18013.5.1", "org.iso.18013.5.1.aamva"] } else { &["given_name", "email", "degree", "address"] };
            Cfg {
                id: format!("{}_{i}", s.one(&["EmployeeID_JWT", "Degree", "mDL", "naïve id/ü"])),
                typ: (!mdl).then(|| format!("Type{i}Credential")),
                doctype: format!("org.iso.18013.5.1.mDL{}", if i == 0 { String::new() } else { format!(".{i}") }),
                scope: s.chance(2, 3).then(|| s.one(&["scopeA", "scopeB", "scope:c"]).to_string()),
                proofs: if s.chance(1, 8) { Proofs::None } else if any && s.chance(1, 20) { Proofs::Other } else { Proofs::Jwt },
                claims: s.chance(3, 4).then(|| names.iter().map(|k| ((*k).to_string(), s.chance(1, 4))).collect()),
                display: s.chance(1, 2).then(|| s.vec(0, 2, |s| {
                    let mut d = json!({"name": gen::ident(s)});
                    if s.bool() { d["locale"] = json!(s.one(&["en-NZ", "mi", "de"])); }
                    if s.bool() { d["description"] = json!(gen::ident(s)); }
                    if s.chance(1, 3) { d["logo"] = json!({"uri": format!("https://img.example/{}", gen::ident(s))}); }
                    d
                })),
            }
        }).collect();
        let auth_server = s.chance(1, 3).then(|| "https://auth.example".to_string());
        let mut issuer = json!({"credential_issuer": ISSUER, "credential_endpoint": format!("{ISSUER}/credential"), "deferred_credential_endpoint": format!("{ISSUER}/deferred"),
            "credential_configurations_supported": cfgs.iter().map(|c| (c.id.clone(), c.metadata())).collect::<Map<_, _>>()});
        if let Some(a) = &auth_server { issuer["authorization_servers"] = json!([a, "https://other-auth.example"]); } else if s.chance(1, 8) { issuer["authorization_servers"] = json!([]); }
        let rare = |s: &mut Src| !open && s.chance(1, 8);
        let grants: Vec<&'static str> = if rare(s) { s.one(&[vec![PRE], vec![CODE], vec![]]) } else { vec![CODE, PRE] };
        let (code_supported, s256, par_required) = (!rare(s), !rare(s), !open && s.chance(1, 5));
        let anonymous = s.bool();
        let mut server = json!({"issuer": ISSUER, "authorization_endpoint": "/auth", "token_endpoint": "/token", "scopes_supported": ["openid", "credential"],
            "response_types_supported": if code_supported { json!(["code"]) } else { json!(["vp_token"]) }, "grant_types_supported": grants,
            "pre-authorized_grant_anonymous_access_supported": anonymous});
        if s256 { server["code_challenge_methods_supported"] = json!(["S256"]); } else if s.bool() { server["code_challenge_methods_supported"] = json!([]); }
        if par_required { server["require_pushed_authorization_requests"] = json!(true); } else if s.bool() { server["require_pushed_authorization_requests"] = json!(false); }
        let wallets = (0..s.size(1, 2)).map(|i| {
            let (scope_ok, code_grant, code_response) = (!rare(s), !rare(s), !rare(s));
            let id = format!("wallet-{i}");
            let redirects: Vec<String> = (0..s.size(1, 2)).map(|j| format!("https://wallet{i}.example/cb{j}")).collect();
            let mut meta = json!({"client_id": id, "redirect_uris": redirects, "grant_types": if code_grant { json!([CODE, PRE]) } else { json!([PRE]) },
                "response_types": if code_response { json!(["code"]) } else { json!(["id_token vp_token"]) }, "credential_offer_endpoint": "openid-credential-offer://"});
            let scope = if scope_ok { Some(s.one(&["openid", "credential openid", "credential"])) } else { s.one(&[None, Some("openid admin"), Some("open"), Some("admin credential")]) }.map(String::from);
            if let Some(sc) = &scope { meta["scope"] = json!(sc); }
            Wallet { id, redirects, meta, scope, code_grant, code_response }
        }).collect();
        let mut people = BTreeMap::new();
        for p in &SUBJECTS[..s.size(1, 3)] {
            let mut sets = BTreeMap::new();
            for (i, c) in cfgs.iter().enumerate() {
                let k = if s.chance(1, 6) { 0 } else { s.size(1, 2) };
                for j in 0..k {
                    let val = |s: &mut Src, name: &str| if s.chance(1, 4) { gen::json_nofloat(s, 1) } else { json!(format!("{p} {i}/{j} {name} {}", gen::ident(s))) };
                    let names: &[&str] = if c.typ.is_some() { &["given_name", "email", "degree", "address"] } else { &["org.iso.18013.5.1", "org.iso.18013.5.1.aamva"] };
                    let mut claims = Map::new();
                    for nm in names {
                        if s.chance(1, 6) { continue; }
                        let v = if c.typ.is_some() { val(s, nm) } else { json!({"family_name": val(s, "fn"), "age": s.int(0, 99), "who": format!("{p} {i}/{j}")}) };
                        claims.insert((*nm).into(), v);
                    }
                    let entry = |s: &mut Src, purpose: &str| json!({"id": format!("https://status.example/{p}/{i}/{j}/{purpose}"), "type": "BitstringStatusListEntry", "statusPurpose": purpose, "statusListIndex": s.upto(9999), "statusListCredential": "https://status.example/1"});
                    let status = s.chance(1, 3).then(|| if s.chance(1, 4) { json!([entry(s, "suspension"), entry(s, "revocation")]) } else { entry(s, "revocation") });
                    sets.insert(format!("ds-{i}-{j}"), Ds { cfg: i, claims, status });
                }
            }
            people.insert((*p).to_string(), sets);
        }
        World { cfgs, issuer, server, auth_server, grants, anonymous, par_required, s256, code_supported, wallets, people, key: Key::web(7, "did:web:issuer.example", "key-0"), evicts: s.bool() }
    }
    /// The identifiers a subject may ask for under a configuration.
    pub fn ids(&self, subject: &str, cfg: usize) -> Vec<String> {
        self.people.get(subject).map(|d| d.iter().filter(|(_, d)| d.cfg == cfg).map(|(k, _)| k.clone()).collect()).unwrap_or_default()
    }
}

#[derive(Default)]
pub struct Fault { pub count: u64, pub fail_at: Option<u64>, pub fired: bool }
pub struct Inner {
    pub w: World,
    pub store: Mutex<BTreeMap<String, (Vec<u8>, DateTime<Utc>)>>,
    pub clients: Mutex<BTreeMap<String, Client>>,
    pub pending: Mutex<BTreeSet<(String, String)>>,
    pub fault: Mutex<Fault>,
    pub docs: Docs,
}
#[derive(Clone)]
pub struct Prov(pub Arc<Inner>);
impl Prov {
    pub fn new(w: World) -> Self {
        let clients = w.wallets.iter().map(|c| (c.id.clone(), serde_json::from_value(c.meta.clone()).expect("client metadata"))).collect();
        let mut docs = Docs::default();
        docs.publish(&[&Key::web(1007, &w.key.did, "key-1"), &w.key]);
        Self(Arc::new(Inner { w, store: Mutex::default(), clients: Mutex::new(clients), pending: Mutex::default(), fault: Mutex::default(), docs }))
    }
    fn io(&self) -> anyhow::Result<()> {
        let mut f = self.0.fault.lock().unwrap();
        f.count += 1;
        if f.fail_at == Some(f.count) { f.fired = true; return Err(anyhow!("injected fault")); }
        Ok(())
    }
    /// The next `n`-th provider call fails.
    pub fn arm(&self, n: Option<u64>) { let mut f = self.0.fault.lock().unwrap(); *f = Fault { count: 0, fail_at: n, fired: false }; }
    pub fn fired(&self) -> bool { self.0.fault.lock().unwrap().fired }
}
impl vercre_openid::issuer::Provider for Prov {}
impl Metadata for Prov {
    async fn client(&self, id: &str) -> anyhow::Result<Client> { self.io()?; self.0.clients.lock().unwrap().get(id).cloned().ok_or_else(|| anyhow!("no client {id}")) }
    async fn register(&self, c: &Client) -> anyhow::Result<Client> {
        self.io()?;
        let mut c = c.clone();
        let mut all = self.0.clients.lock().unwrap();
        c.oauth.client_id = format!("registered-{}", all.len());
        all.insert(c.oauth.client_id.clone(), c.clone());
        Ok(c)
    }
    async fn issuer(&self, id: &str) -> anyhow::Result<Issuer> { self.io()?; if id != ISSUER { return Err(anyhow!("no issuer {id}")); } Ok(serde_json::from_value(self.0.w.issuer.clone())?) }
    async fn server(&self, id: &str, _: Option<&str>) -> anyhow::Result<Server> { self.io()?; if id != ISSUER { return Err(anyhow!("no server {id}")); } Ok(serde_json::from_value(self.0.w.server.clone())?) }
}
impl Subject for Prov {
    async fn authorize(&self, subject: &str, cfg: &str) -> anyhow::Result<Vec<String>> {
        self.io()?;
        let i = self.0.w.cfgs.iter().position(|c| c.id == cfg).ok_or_else(|| anyhow!("no configuration {cfg}"))?;
        let ids = self.0.w.ids(subject, i);
        if ids.is_empty() { Err(anyhow!("{subject} has no {cfg}")) } else { Ok(ids) }
    }
    async fn dataset(&self, subject: &str, id: &str) -> anyhow::Result<Dataset> {
        self.io()?;
        let d = self.0.w.people.get(subject).and_then(|p| p.get(id)).ok_or_else(|| anyhow!("no dataset {subject} {id}"))?;
        Ok(Dataset { claims: d.claims.clone(), pending: self.0.pending.lock().unwrap().contains(&(subject.into(), id.into())) })
    }
}
impl StateStore for Prov {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> anyhow::Result<()> {
        self.io()?;
        self.0.store.lock().unwrap().insert(key.into(), (serde_json::to_vec(&state)?, expiry));
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> anyhow::Result<T> {
        self.io()?;
        let st = self.0.store.lock().unwrap();
        let (b, exp) = st.get(key).ok_or_else(|| anyhow!("no state for {key}"))?;
        if self.0.w.evicts && *exp < Utc::now() { return Err(anyhow!("no state for {key}")); }
        Ok(serde_json::from_slice(b)?)
    }
    async fn purge(&self, key: &str) -> anyhow::Result<()> { self.io()?; self.0.store.lock().unwrap().remove(key); Ok(()) }
}
impl DidResolver for Prov {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> { self.io()?; self.0.docs.resolve(url).await }
}
pub struct NoCrypt;
impl Encryptor for NoCrypt {
    async fn encrypt(&self, _: &[u8], _: &[u8]) -> anyhow::Result<Vec<u8>> { Err(anyhow!("none")) }
    fn public_key(&self) -> Vec<u8> { vec![] }
}
impl Decryptor for NoCrypt { async fn decrypt(&self, _: &[u8], _: &[u8]) -> anyhow::Result<Vec<u8>> { Err(anyhow!("none")) } }
impl SecOps for Prov {
    fn signer(&self, id: &str) -> anyhow::Result<impl Signer> { self.io()?; if id != ISSUER { return Err(anyhow!("no signer for {id}")); } Ok(self.0.w.key.clone()) }
    fn encryptor(&self, _: &str) -> anyhow::Result<impl Encryptor> { Ok(NoCrypt) }
    fn decryptor(&self, _: &str) -> anyhow::Result<impl Decryptor> { Ok(NoCrypt) }
}
impl Status for Prov {
    async fn status(&self, subject: &str, id: &str) -> anyhow::Result<Option<Quota<CredentialStatus>>> {
        self.io()?;
        let d = self.0.w.people.get(subject).and_then(|p| p.get(id)).ok_or_else(|| anyhow!("no credential {subject} {id}"))?;
        d.status.clone().map(|v| Ok(if v.is_array() { Quota::Many(serde_json::from_value(v)?) } else { Quota::One(serde_json::from_value(v)?) })).transpose()
    }
}
