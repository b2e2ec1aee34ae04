//! C30, C31: histories of a wallet that talks to the real issuer and the real verifier.
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

use anyhow::anyhow;
use chrono::{DateTime, Utc};
use pbt::{block_on, ensure, ensure_eq, gen, Case, Fail, Src, Suite};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use vercre_dif_exch::Constraints;
use vercre_did::{DidResolver, Document};
use vercre_holder::credential::{Credential, Logo};
use vercre_holder::issuance as hi;
use vercre_holder::presentation as hp;
use vercre_holder::provider as hv;
use vercre_infosec::{Algorithm, Signer};
use vercre_openid::verifier::{RequestObjectResponse, RequestObjectType, ResponseRequest, ResponseResponse};

use crate::keys::{read_jws, strip_null, Key};
use crate::sim::{set_clock, R};
use crate::verif::{self, make_vc, verifiers, Desc, Rule, VProv, Vc};
use crate::world::{Fault, Prov, World, CODE, ISSUER, PRE};

#[derive(Clone, Debug)]
pub struct Call { what: &'static str, req: Value, res: Option<Value> }
pub struct Inner {
    issuer: Prov, verifier: VProv, key: Key,
    state: Mutex<BTreeMap<String, Vec<u8>>>,
    saved: Mutex<Vec<Credential>>,
    calls: Mutex<Vec<Call>>,
    fault: Mutex<Fault>,
    /// what an attacker on the way does to the next message from outside
    meddle: Mutex<Option<u64>>,
    /// an issuer that answers with this many credentials, and says more about itself, or less about them
    shape: Mutex<Option<(usize, u64)>>,
}
#[derive(Clone)]
pub struct HProv(pub Arc<Inner>);
impl HProv {
    fn new(w: World, nv: usize) -> Self {
        let verifier = VProv::new(verifiers(nv), &w.key, false);
        Self(Arc::new(Inner { issuer: Prov::new(w), verifier, key: Key::new(81), state: Mutex::default(), saved: Mutex::default(), calls: Mutex::default(), fault: Mutex::default(), meddle: Mutex::default(), shape: Mutex::default() }))
    }
    fn io(&self) -> anyhow::Result<()> {
        let mut f = self.0.fault.lock().unwrap();
        f.count += 1;
        if f.fail_at == Some(f.count) { f.fired = true; return Err(anyhow!("injected fault")); }
        Ok(())
    }
    fn arm(&self, n: Option<u64>) { *self.0.fault.lock().unwrap() = Fault { count: 0, fail_at: n, fired: false }; self.0.calls.lock().unwrap().clear(); }
    fn fired(&self) -> bool { std::mem::take(&mut *self.0.fault.lock().unwrap()).fired }
    fn calls(&self, what: &str) -> Vec<Call> { self.0.calls.lock().unwrap().iter().filter(|c| c.what == what).cloned().collect() }
    fn record<T: Serialize, E: std::fmt::Display>(&self, what: &'static str, req: Value, r: Result<T, E>) -> anyhow::Result<T> {
        let res = r.as_ref().ok().map(|r| strip_null(json!(r)));
        self.0.calls.lock().unwrap().push(Call { what, req, res });
        r.map_err(|e| anyhow!("{e}"))
    }
}
/// Spoils a signed text: signed by another key, changed after signing, not signed, by an unknown key.
fn spoil(t: &str, how: u64) -> String {
    let p: Vec<&str> = t.split('.').collect();
    if p.len() != 3 { return "x".into(); }
    let read = |x: &str| -> Value { serde_json::from_slice(&crate::sha::unb64(x).unwrap()).unwrap() };
    let (mut h, mut c) = (read(p[0]), read(p[1]));
    match how {
        0 => Key::new(97).jws(&h, &c),
        1 => { c["iat"] = json!(12345); c["meddled"] = json!(true); c["vc"]["credentialSubject"]["email"] = json!("mallory@example.org"); format!("{}.{}.{}", p[0], crate::sha::b64(c.to_string().as_bytes()), p[2]) }
        2 => format!("{}.{}.", p[0], p[1]),
        3 => { h["alg"] = json!("none"); format!("{}.{}.", crate::sha::b64(h.to_string().as_bytes()), p[1]) }
        4 => { h["kid"] = json!("did:web:nowhere.example#key-0"); Key::new(97).jws(&h, &c) }
        _ => "garbage".into(),
    }
}
/// The same credential from an issuer that does things in another of the permitted ways.
fn reshape(v: &mut Value, key: &Key, n: usize, how: u64) {
    let Some(t) = v["credential"].as_str() else { return };
    let Some((h, c, _)) = read_jws(t, key) else { return };
    let make = |i: usize| {
        let mut c = c.clone();
        if i > 0 { c["vc"]["id"] = json!(format!("{}/{i}", c["vc"]["id"].as_str().unwrap_or_default())); }
        if how & 1 == 1 { c["vc"]["issuer"] = json!({"id": c["vc"]["issuer"], "name": "The issuer"}); }
        if how & 2 == 2 { c["vc"].as_object_mut().unwrap().remove("id"); }
        c["n"] = json!(i);
        key.jws(&h, &c)
    };
    let l: Vec<String> = (0..n.max(1)).map(make).collect();
    if n == 0 { v["credential"] = json!(l[0]); } else { v.as_object_mut().unwrap().remove("credential"); v["credentials"] = json!(l); }
}
impl hv::HolderProvider for HProv {}
impl hv::Issuer for HProv {
    async fn metadata(&self, req: hv::MetadataRequest) -> anyhow::Result<hv::MetadataResponse> { self.io()?; let j = json!(req); let r = vercre_issuer::metadata(self.0.issuer.clone(), req).await; self.record("metadata", j, r) }
    async fn oauth_server(&self, req: hv::OAuthServerRequest) -> anyhow::Result<hv::OAuthServerResponse> { self.io()?; let j = json!(req); let r = vercre_issuer::oauth_server(self.0.issuer.clone(), req).await; self.record("oauth_server", j, r) }
    async fn authorization(&self, req: hv::AuthorizationRequest) -> anyhow::Result<hv::AuthorizationResponse> { self.io()?; let j = json!(req); let r = vercre_issuer::authorize(self.0.issuer.clone(), req).await; self.record("authorization", j, r) }
    async fn token(&self, req: hv::TokenRequest) -> anyhow::Result<hv::TokenResponse> { self.io()?; let j = json!(req); let r = vercre_issuer::token(self.0.issuer.clone(), req).await; self.record("token", j, r) }
    async fn credential(&self, req: hv::CredentialRequest) -> anyhow::Result<hv::CredentialResponse> {
        self.io()?;
        let j = json!(req);
        let mut r = vercre_issuer::credential(self.0.issuer.clone(), req).await;
        if let Ok(x) = &mut r {
            let (m, sh) = (*self.0.meddle.lock().unwrap(), *self.0.shape.lock().unwrap());
            let mut v = json!(x);
            if let Some((n, how)) = sh { reshape(&mut v, &self.0.issuer.0.w.key, n, how); }
            if let Some(m) = m {
                if let Some(t) = v["credential"].as_str() { v["credential"] = json!(spoil(t, m)); }
                // one of several is enough
                if let Some(l) = v.get_mut("credentials").and_then(Value::as_array_mut) { let k = x.c_nonce.as_ref().map_or(0, |c| c.len() + usize::from(c.as_bytes()[0])) % l.len(); l[k] = json!(spoil(l[k].as_str().unwrap_or_default(), m)); }
            }
            if m.is_some() || sh.is_some() { *x = serde_json::from_value(v)?; }
        }
        self.record("credential", j, r)
    }
    async fn deferred(&self, req: hv::DeferredCredentialRequest) -> anyhow::Result<hv::DeferredCredentialResponse> {
        self.io()?;
        let j = json!(req);
        let mut r = vercre_issuer::deferred(self.0.issuer.clone(), req).await;
        if let (Ok(x), Some((n, how))) = (&mut r, *self.0.shape.lock().unwrap()) { let mut v = json!(x.credential_response); reshape(&mut v, &self.0.issuer.0.w.key, n, how); x.credential_response = serde_json::from_value(v)?; }
        self.record("deferred", j, r)
    }
    async fn logo(&self, url: &str) -> anyhow::Result<Logo> { logo(url).ok_or_else(|| anyhow!("no such image")) }
    async fn notification(&self, req: hv::NotificationRequest) -> anyhow::Result<hv::NotificationResponse> { let j = json!(req); let r = vercre_issuer::notification(self.0.issuer.clone(), req).await; self.0.calls.lock().unwrap().push(Call { what: "notification", req: j, res: None }); r.map_err(|e| anyhow!("{e}")) }
}
fn logo(url: &str) -> Option<Logo> { (url.len() % 3 != 0).then(|| Logo { image: crate::sha::b64(url.as_bytes()), media_type: "image/png".into() }) }
impl hv::Verifier for HProv {
    async fn request_object(&self, uri: &str) -> anyhow::Result<RequestObjectResponse> {
        self.io()?;
        let (vid, id) = uri.rsplit_once("/request/").ok_or_else(|| anyhow!("nothing at {uri}"))?;
        let mut r = vercre_verifier::request_object(self.0.verifier.clone(), &serde_json::from_value(json!({"client_id": vid, "id": id}))?).await.map_err(|e| anyhow!("{e}"))?;
        if let (Some(m), RequestObjectType::Jwt(t)) = (*self.0.meddle.lock().unwrap(), &r.request_object) { r.request_object = RequestObjectType::Jwt(spoil(t, m)); }
        self.0.calls.lock().unwrap().push(Call { what: "request_object", req: json!(uri), res: None });
        Ok(r)
    }
    async fn present(&self, uri: Option<&str>, p: &ResponseRequest) -> anyhow::Result<ResponseResponse> {
        self.io()?;
        let r = vercre_verifier::response(self.0.verifier.clone(), p).await;
        self.record("present", json!({"uri": uri, "request": p}), r)
    }
}
impl hv::CredentialStorer for HProv {
    async fn save(&self, c: &Credential) -> anyhow::Result<()> { self.io()?; self.0.saved.lock().unwrap().push(c.clone()); Ok(()) }
    async fn load(&self, id: &str) -> anyhow::Result<Option<Credential>> { Ok(self.0.saved.lock().unwrap().iter().find(|c| c.id == id).cloned()) }
    async fn find(&self, filter: Option<Constraints>) -> anyhow::Result<Vec<Credential>> {
        self.io()?;
        let all = self.0.saved.lock().unwrap().clone();
        let Some(f) = filter else { return Ok(all) };
        let mut out = vec![];
        for c in all { if f.satisfied(&c.vc)? { out.push(c); } }
        Ok(out)
    }
    async fn remove(&self, id: &str) -> anyhow::Result<()> { self.0.saved.lock().unwrap().retain(|c| c.id != id); Ok(()) }
}
impl hv::StateStore for HProv {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> anyhow::Result<()> {
        self.io()?;
        if expiry > Utc::now() { self.0.state.lock().unwrap().insert(key.into(), serde_json::to_vec(&state)?); }
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> anyhow::Result<T> { self.io()?; let st = self.0.state.lock().unwrap(); Ok(serde_json::from_slice(st.get(key).ok_or_else(|| anyhow!("no state for {key}"))?)?) }
    async fn purge(&self, key: &str) -> anyhow::Result<()> { self.io()?; self.0.state.lock().unwrap().remove(key); Ok(()) }
}
impl DidResolver for HProv {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> {
        self.io()?;
        match self.0.issuer.0.docs.resolve(url).await { Ok(d) => Ok(d), Err(_) => self.0.verifier.0.docs.resolve(url).await }
    }
}
impl Signer for HProv {
    async fn try_sign(&self, msg: &[u8]) -> anyhow::Result<Vec<u8>> { self.io()?; self.0.key.try_sign(msg).await }
    async fn public_key(&self) -> anyhow::Result<Vec<u8>> { self.0.key.public_key().await }
    fn algorithm(&self) -> Algorithm { self.0.key.alg.clone() }
    fn verification_method(&self) -> String { self.0.key.kid.clone() }
}
fn de<T: DeserializeOwned>(v: &Value) -> Result<T, Fail> { serde_json::from_value(v.clone()).map_err(|e| Fail::new("C18.request-not-read", format!("{e}: {v}"))) }
fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> { Err(Fail::new(sig, msg)) }
/// The credentials of a response.
fn texts(res: &Value) -> Vec<String> { res["credential"].as_str().into_iter().chain(res["credentials"].as_array().into_iter().flatten().filter_map(Value::as_str)).map(String::from).collect() }
/// A value as the type would write it.
fn norm<T: DeserializeOwned + Serialize>(v: &Value) -> Result<Value, Fail> { Ok(strip_null(json!(de::<T>(v)?))) }

// ---- issuance -----------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum St { Ready, Pin, Accepted, Token, Gone }
#[derive(Clone)]
struct Flow {
    id: String, st: St, offered: Vec<usize>, pre: Option<String>, code: Option<String>, grants: bool, tx: Option<String>, pin: Option<String>, subject: String, client: usize,
    /// what has been accepted: configuration, claims
    accepted: Option<Vec<(usize, Option<Vec<String>>)>>,
    scope: Option<String>, ids: BTreeMap<String, usize>,
    /// the credentials received: text and configuration
    got: Vec<(String, usize)>, txns: Vec<(String, usize, bool)>, all_saved: bool,
    /// the issuer no longer agrees (a call failed on the way)
    lost: bool,
}
#[derive(Default)]
struct Count { offers: u64, tokens: u64, codes: u64, issued: u64, saved: u64, refused: u64, order: u64, faults: u64, meddled: u64, deferred: u64, collected: u64, several: u64, scopes: u64, narrowed: u64, cancelled: u64 }
struct Wallet { bare: bool, p: HProv, flows: Vec<Flow>, n: Count, log: Vec<String>, faulty: bool, wrong: [u64; 2], saved: BTreeSet<String>, seen: BTreeSet<String> }
impl Wallet {
    fn new(s: &mut Src) -> Self {
        set_clock(0);
        let mut w = World::of(s, true, false);
        let bare = s.chance(1, 16);
        // a server whose metadata leaves the wallet nothing to choose from
        if bare { match s.upto(2) { 0 => w.server["code_challenge_methods_supported"] = json!([]), 1 => { w.server.as_object_mut().unwrap().remove("code_challenge_methods_supported"); } _ => w.server["response_types_supported"] = json!([]) } }
        Self { bare, p: HProv::new(w, 1), flows: vec![], n: Count::default(), log: vec![], faulty: false, wrong: [4, 1], saved: BTreeSet::new(), seen: BTreeSet::new() }
    }
    fn w(&self) -> &World { &self.p.0.issuer.0.w }
    fn bad(&self, s: &mut Src) -> bool { s.weighted(&self.wrong) == 1 }
    fn arm(&self, s: &mut Src) { let n = (self.faulty && s.chance(1, 6)).then(|| 1 + s.upto(9)); self.p.arm(n); }
    fn state(&self) -> BTreeMap<String, Vec<u8>> { self.p.0.state.lock().unwrap().clone() }
    /// Runs a step. `order`: it is this step's turn; `bad`: what is wrong with the request. True if it went through.
    fn run<T>(&mut self, tag: &str, order: bool, bad: &[&str], before: BTreeMap<String, Vec<u8>>, r: &anyhow::Result<T>) -> Result<Option<bool>, Fail> {
        let fired = self.p.fired();
        self.log.push(format!("{tag} order:{order} {bad:?} -> {}{}", r.is_ok(), if fired { " (fault)" } else { "" }));
        if self.log.len() > 30 { self.log.remove(0); }
        if fired {
            self.n.faults += 1;
            ensure!(r.is_err(), "C30.fault-ignored", "{tag} succeeded although the provider failed; {:?}", self.log);
            return Ok(None);
        }
        match r {
            Ok(_) if !order => fail("C30.out-of-order", format!("{tag} was accepted out of order; {:?}", self.log)),
            Ok(_) if !bad.is_empty() => fail("C30.accepted", format!("{tag} was accepted although {bad:?}; {:?}", self.log)),
            Ok(_) => Ok(Some(true)),
            Err(e) if order && bad.is_empty() => fail("C30.refused", format!("{tag} was refused: {e}; {:?}", self.log)),
            Err(_) => {
                self.n.refused += 1;
                if !order { self.n.order += 1; let c = self.p.0.calls.lock().unwrap().clone(); ensure!(c.is_empty(), "C30.out-of-order-call", "{tag} out of order called the issuer: {}; {:?}", c[0].what, self.log); }
                ensure!(self.state() == before, "C30.refused-but-changed", "a refused {tag} changed the state of the wallet; {:?}", self.log);
                Ok(Some(false))
            }
        }
    }
    /// A person who may have all of these.
    fn entitled(&self, s: &mut Src, cfgs: &[usize]) -> Option<String> {
        let v: Vec<String> = self.w().people.keys().filter(|p| cfgs.iter().all(|c| !self.w().ids(p, *c).is_empty())).cloned().collect();
        if v.is_empty() { None } else { Some(s.one(&v)) }
    }
    fn offer(&mut self, s: &mut Src) -> R {
        let w = self.w().clone();
        let mut cfgs: Vec<usize> = (0..w.cfgs.len()).collect();
        s.shuffle(&mut cfgs);
        cfgs.truncate(s.size(1, cfgs.len()));
        let Some(subject) = self.entitled(s, &cfgs) else { return Ok(()) };
        let (pre, code) = s.one(&[(true, false), (true, false), (false, true), (true, true), (false, false)]);
        let tx = s.bool();
        let mut req = json!({"credential_issuer": ISSUER, "subject_id": subject, "credential_configuration_ids": cfgs.iter().map(|c| w.cfgs[*c].id.clone()).collect::<Vec<_>>(), "tx_code_required": tx, "send_type": "ByVal"});
        if pre || code { let mut g = vec![]; if pre { g.push(PRE); } if code { g.push(CODE); } req["grant_types"] = json!(g); }
        let r = block_on(vercre_issuer::create_offer(self.p.0.issuer.clone(), de(&req)?)).map_err(|e| Fail::new("C21.refused", e.to_string()))?;
        let r = json!(r);
        let mut offer = r["credential_offer"].clone();
        let client = s.upto(w.wallets.len() as u64 - 1) as usize;
        let mut bad = vec![];
        if self.bad(s) {
            match s.upto(2) {
                0 => { offer["credential_configuration_ids"] = json!([]); bad.push("nothing offered"); }
                1 => { offer["credential_configuration_ids"].as_array_mut().unwrap().push(json!("Unsupported")); bad.push("unsupported credential"); }
                _ => { offer["credential_issuer"] = json!("https://elsewhere.example"); bad.push("unknown issuer"); }
            }
        }
        let rq: hi::OfferRequest = de(&json!({"client_id": w.wallets[client].id, "subject_id": subject, "offer": offer}))?;
        self.arm(s);
        let x = block_on(hi::offer(self.p.clone(), &rq));
        // an offer that is refused leaves at most a flow nobody knows
        let before = self.state();
        if self.run("offer", true, &bad, before, &x)? != Some(true) { return Ok(()); }
        let x = x.unwrap();
        ensure!(self.seen.insert(x.issuance_id.clone()), "C30.flow-id", "{} used twice", x.issuance_id);
        let md = &w.issuer["credential_configurations_supported"];
        let mut want = Map::new();
        for c in &cfgs { want.insert(w.cfgs[*c].id.clone(), norm::<vercre_issuer::CredentialConfiguration>(&md[&w.cfgs[*c].id])?); }
        ensure_eq!(strip_null(json!(x.offered)), Value::Object(want), "C30.offered", "what the holder is shown");
        ensure_eq!(x.issuer, ISSUER, "C30.offered", "issuer");
        ensure_eq!(strip_null(json!(x.grants)), strip_null(offer["grants"].clone()), "C30.offered", "grants");
        self.n.offers += 1;
        let g = &offer["grants"];
        self.flows.push(Flow { id: x.issuance_id, st: St::Ready, offered: cfgs, pre: g[PRE]["pre-authorized_code"].as_str().map(String::from), code: g[CODE]["issuer_state"].as_str().map(String::from), grants: pre || code, tx: r["tx_code"].as_str().map(String::from), pin: None, subject, client, accepted: None, scope: None, ids: BTreeMap::new(), got: vec![], txns: vec![], all_saved: true, lost: false });
        Ok(())
    }
    /// A flow, mostly one for which it is this step's turn.
    fn flow(&self, s: &mut Src, turn: impl Fn(&Flow) -> bool) -> Option<usize> {
        if self.flows.is_empty() { return None; }
        let v: Vec<usize> = (0..self.flows.len()).filter(|i| turn(&self.flows[*i])).collect();
        if !v.is_empty() && s.chance(7, 8) { return Some(*s.pick(&v)); }
        if v.is_empty() && !s.chance(1, 5) { return None; }
        Some(s.upto(self.flows.len() as u64 - 1) as usize)
    }
    fn claims(&self, s: &mut Src, cfg: usize) -> Option<Vec<String>> {
        let c = self.w().cfgs[cfg].claims.clone()?;
        s.bool().then(|| c.iter().filter(|(_, m)| **m || s.bool()).map(|(k, _)| k.clone()).collect())
    }
    fn accept(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st == St::Ready) else { return Ok(()) };
        let f = self.flows[i].clone();
        let mut spec: Option<Vec<(usize, Option<Vec<String>>)>> = s.chance(2, 3).then(|| { let mut c = f.offered.clone(); s.shuffle(&mut c); c.truncate(s.size(1, c.len())); c.into_iter().map(|c| { let k = self.claims(s, c); (c, k) }).collect() });
        // a detail with no claims at all is the same as one that leaves them open
        let mut bad = vec![];
        let mut extra = None;
        if self.bad(s) {
            match s.upto(2) {
                0 => { spec = Some(vec![]); bad.push("nothing accepted"); }
                1 => { let other: Vec<usize> = (0..self.w().cfgs.len()).filter(|c| !f.offered.contains(c)).collect(); if !other.is_empty() { let c = s.one(&other); spec.get_or_insert_with(Vec::new).push((c, None)); bad.push("not offered"); } }
                _ => { extra = Some("Unsupported"); bad.push("unsupported"); }
            }
        }
        let item = |c: &str, k: &Option<Vec<String>>| { let mut v = json!({"credential_configuration_id": c}); if let Some(k) = k { v["claims"] = k.iter().map(|k| (k.clone(), json!({}))).collect::<Map<_, _>>().into(); } v };
        let mut list: Option<Vec<Value>> = spec.as_ref().map(|l| l.iter().map(|(c, k)| item(&self.w().cfgs[*c].id, k)).collect());
        if let Some(x) = extra { list.get_or_insert_with(Vec::new).push(item(x, &None)); }
        let rq: hi::AcceptRequest = de(&json!({"issuance_id": f.id, "accept": list}))?;
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::accept(self.p.clone(), &rq));
        if let Ok(x) = &r { ensure_eq!(*x, f.id, "C30.flow-id", "identifier of the flow"); }
        if self.run("accept", f.st == St::Ready, &bad, before, &r)? != Some(true) { return Ok(()); }
        ensure_eq!(r.unwrap(), f.id, "C30.accept", "flow id");
        let f = &mut self.flows[i];
        f.accepted = spec;
        f.st = if f.tx.is_some() { St::Pin } else { St::Accepted };
        Ok(())
    }
    fn pin(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st == St::Pin) else { return Ok(()) };
        let f = self.flows[i].clone();
        let pin = if self.bad(s) { s.one(&["000000".to_string(), String::new(), format!("{}0", f.tx.clone().unwrap_or_default())]) } else { f.tx.clone().unwrap_or_else(|| "1".into()) };
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::pin(self.p.clone(), &hi::PinRequest { issuance_id: f.id.clone(), pin: pin.clone() }));
        if let Ok(x) = &r { ensure_eq!(*x, f.id, "C30.flow-id", "identifier of the flow"); }
        if self.run("pin", f.st == St::Pin, &[], before, &r)? != Some(true) { return Ok(()); }
        self.flows[i].pin = Some(pin);
        self.flows[i].st = St::Accepted;
        Ok(())
    }
    /// What the wallet asks for has to be what the holder accepted.
    fn details(&self, f: &Flow) -> Result<Option<Value>, Fail> {
        let Some(a) = &f.accepted else { return Ok(None) };
        let l: Vec<Value> = a.iter().map(|(c, k)| { let mut d = self.w().cfgs[*c].by_id(k.as_deref()); d["type"] = json!("openid_credential"); d }).collect();
        Ok(Some(norm::<Vec<vercre_issuer::AuthorizationDetail>>(&json!(l))?))
    }
    fn authorized(&mut self, i: usize, r: &hi::AuthorizedCredentials, by_scope: bool) -> R {
        let f = self.flows[i].clone();
        ensure_eq!(r.issuance_id, f.id, "C30.token", "flow id");
        let cfgs: Vec<usize> = f.accepted.as_ref().map_or(f.offered.clone(), |a| a.iter().map(|a| a.0).collect());
        if by_scope { ensure!(r.authorized.as_ref().map_or(true, |a| a.is_empty()), "C30.authorized", "identifiers for a scope: {:?}", r.authorized); }
        else {
            let want: BTreeMap<String, BTreeSet<String>> = cfgs.iter().map(|c| (self.w().cfgs[*c].id.clone(), self.w().ids(&f.subject, *c).into_iter().collect())).collect();
            let got: BTreeMap<String, BTreeSet<String>> = r.authorized.iter().flatten().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect();
            ensure_eq!(got, want, "C30.authorized", "what is authorized; {:?}", self.log);
        }
        let f = &mut self.flows[i];
        f.ids.clear();
        if !by_scope { for c in cfgs { for id in self.p.0.issuer.0.w.ids(&f.subject, c) { f.ids.insert(id, c); } } }
        f.st = St::Token;
        Ok(())
    }
    fn token(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st == St::Accepted && f.pre.is_some() && !f.lost) else { return Ok(()) };
        let f = self.flows[i].clone();
        let mut bad = vec![];
        if f.lost { return Ok(()); }
        if f.tx.is_some() && f.pin != f.tx { bad.push("wrong pin"); }
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::token(self.p.clone(), &f.id));
        if let Ok(x) = &r { ensure_eq!(x.issuance_id, f.id, "C30.flow-id", "identifier of the flow"); }
        let sent = self.p.calls("token");
        let ok = self.run("token", f.st == St::Accepted && f.pre.is_some(), &bad, before, &r)?;
        // whether the issuer keeps an offer after a wrong pin is its own affair
        if ok.is_none() && sent.first().is_some_and(|c| c.res.is_some()) || ok == Some(false) && !sent.is_empty() { self.flows[i].lost = true; }
        if let Some(c) = sent.first() {
            let mut want = json!({"credential_issuer": ISSUER, "client_id": self.w().wallets[f.client].id, "grant_type": PRE, "pre-authorized_code": f.pre, "tx_code": f.pin});
            if let Some(d) = self.details(&f)? { want["authorization_details"] = d; }
            ensure_eq!(strip_null(c.req.clone()), strip_null(want), "C30.token-request", "token request");
        }
        if ok != Some(true) { return Ok(()); }
        self.n.tokens += 1;
        if f.accepted.iter().flatten().any(|a| a.1.is_some()) { self.n.narrowed += 1; }
        self.authorized(i, &r.unwrap(), false)
    }
    fn authorize(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st == St::Accepted && (f.code.is_some() || !f.grants) && !f.lost) else { return Ok(()) };
        let f = self.flows[i].clone();
        // whether a code can be had although a pin is awaited is left open
        if f.st == St::Pin { return Ok(()); }
        let wl = self.w().wallets[f.client].clone();
        let mut redirect = Some(s.one(&wl.redirects));
        let mut bad = vec![];
        if f.lost { return Ok(()); }
        if self.bare { bad.push("metadata"); }
        if self.bad(s) { redirect = Some("https://evil.example/cb".into()); bad.push("redirect"); }
        let rq: hi::AuthorizeRequest = de(&json!({"initiator": {"Issuer": {"issuance_id": f.id}}, "redirect_uri": redirect}))?;
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::authorize(self.p.clone(), &rq));
        let (asked, sent) = (self.p.calls("authorization"), self.p.calls("token"));
        let ok = self.run("authorize", f.st == St::Accepted && (f.code.is_some() || !f.grants), &bad, before, &r)?;
        // the offer is used up by the code
        if ok != Some(true) && asked.first().is_some_and(|c| c.res.is_some()) { self.flows[i].lost = true; }
        if let Some(c) = asked.first() {
            let q = strip_null(c.req.clone());
            ensure_eq!((q["client_id"].as_str(), q["redirect_uri"].as_str(), q["issuer_state"].as_str(), q["subject_id"].as_str()), (Some(wl.id.as_str()), redirect.as_deref(), f.code.as_deref(), Some(f.subject.as_str())), "C30.authorization-request", "{q}");
            let ids: BTreeSet<&str> = q["authorization_details"].as_array().into_iter().flatten().filter_map(|d| d["credential_configuration_id"].as_str()).collect();
            let want: BTreeSet<&str> = f.accepted.as_ref().map_or(f.offered.clone(), |a| a.iter().map(|a| a.0).collect()).iter().map(|c| self.p.0.issuer.0.w.cfgs[*c].id.as_str()).collect();
            ensure_eq!(ids, want, "C30.authorization-request", "credentials asked for");
            if let Some(d) = self.details(&f)? { ensure_eq!(q["authorization_details"], d, "C30.authorization-request", "details"); }
        }
        self.pkce(&asked, &sent)?;
        if ok != Some(true) { return Ok(()); }
        self.n.codes += 1;
        self.authorized(i, &r.unwrap(), false)
    }
    fn pkce(&mut self, asked: &[Call], sent: &[Call]) -> R {
        let (Some(a), Some(t)) = (asked.first(), sent.first()) else { return Ok(()) };
        let v = t.req["code_verifier"].as_str().unwrap_or_default();
        ensure_eq!(a.req["code_challenge"], json!(crate::sha::b64(&crate::sha::sha256(v.as_bytes()))), "C30.pkce", "challenge for {v}");
        ensure!(self.seen.insert(v.to_string()) && !a.req.to_string().contains(v), "C30.pkce", "the verifier {v} was used before or sent with the challenge");
        Ok(())
    }
    fn request(&mut self, s: &mut Src) -> R {
        let w = self.w().clone();
        let client = s.upto(w.wallets.len() as u64 - 1) as usize;
        let wl = &w.wallets[client];
        let by_scope = s.bool();
        let scopes: Vec<String> = w.cfgs.iter().filter_map(|c| c.scope.clone()).collect();
        if by_scope && scopes.is_empty() { return Ok(()); }
        let scope = by_scope.then(|| s.one(&scopes));
        let mut cfgs: Vec<usize> = (0..w.cfgs.len()).filter(|c| scope.is_none() || w.cfgs[*c].scope == scope).collect();
        if !by_scope { s.shuffle(&mut cfgs); cfgs.truncate(s.size(1, cfgs.len())); }
        let Some(subject) = self.entitled(s, &cfgs) else { return Ok(()) };
        let items: Vec<(usize, Option<Vec<String>>)> = cfgs.iter().map(|c| { let k = self.claims(s, *c); (*c, k) }).collect();
        let by_format = s.chance(1, 3);
        let list: Vec<Value> = items.iter().map(|(c, k)| { let c = &w.cfgs[*c]; let mut d = if by_format { c.format(k.as_deref()) } else { c.by_id(k.as_deref()) }; d["type"] = json!("openid_credential"); d }).collect();
        let mut details = (!by_scope).then(|| json!(list));
        let mut bad = vec![];
        let mut sc = scope.clone();
        let mut issuer = ISSUER;
        let mut redirect = s.one(&wl.redirects);
        if self.bad(s) {
            match s.upto(3) {
                0 => { details = Some(json!(list)); sc = Some(scope.clone().unwrap_or_else(|| "scopeA".into())); bad.push("scope and details"); }
                1 => { details = None; sc = None; bad.push("nothing asked for"); }
                2 => { issuer = "https://elsewhere.example"; bad.push("issuer"); }
                _ => { redirect = "https://evil.example/cb".into(); bad.push("redirect"); }
            }
        }
        if self.bare { bad.push("metadata"); }
        let mut rq = json!({"initiator": {"Wallet": {"client_id": wl.id, "issuer": issuer, "subject_id": subject, "scope": sc}}, "redirect_uri": redirect});
        if let Some(d) = details { rq["authorization_details"] = d; }
        let rq: hi::AuthorizeRequest = de(&rq)?;
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::authorize(self.p.clone(), &rq));
        let (asked, sent) = (self.p.calls("authorization"), self.p.calls("token"));
        if self.run("request", true, &bad, before, &r)? != Some(true) { return Ok(()); }
        self.pkce(&asked, &sent)?;
        let r = r.unwrap();
        ensure!(self.seen.insert(r.issuance_id.clone()), "C30.flow-id", "{} used twice", r.issuance_id);
        self.flows.push(Flow { id: r.issuance_id.clone(), st: St::Token, offered: cfgs, pre: None, code: None, grants: true, tx: None, pin: None, subject, client, accepted: Some(items), scope, ids: BTreeMap::new(), got: vec![], txns: vec![], all_saved: true, lost: false });
        self.n.codes += 1;
        if by_scope { self.n.scopes += 1; }
        self.authorized(self.flows.len() - 1, &r, by_scope)
    }
    fn credentials(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st == St::Token && !f.lost) else { return Ok(()) };
        let f = self.flows[i].clone();
        let w = self.w().clone();
        let mut bad = vec![];
        let mut rq = json!({"issuance_id": f.id});
        let mut want: Vec<String> = vec![];
        let mut cfg = 0;
        if f.st == St::Token && f.scope.is_some() {
            cfg = s.one(&f.offered);
            let mut fmt = w.cfgs[cfg].metadata();
            for k in ["scope", "proof_types_supported", "display"] { fmt.as_object_mut().unwrap().remove(k); }
            rq["format"] = fmt;
            if self.bad(s) {
                match s.upto(2) {
                    0 => { rq.as_object_mut().unwrap().remove("format"); bad.push("no format"); }
                    1 => { rq["credential_identifiers"] = json!(["ds-0-0"]); bad.push("identifiers for a scope"); }
                    _ => { rq["format"] = json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "NoSuchCredential"]}}); bad.push("unsupported format"); }
                }
            }
        } else {
            want = f.ids.keys().cloned().collect();
            if s.chance(1, 2) {
                s.shuffle(&mut want);
                want.truncate(s.size(0, want.len()));
                let mut ask = want.clone();
                if s.chance(1, 4) { ask.push("no-such-identifier".into()); }
                rq["credential_identifiers"] = json!(ask);
            }
        }
        if f.lost { return Ok(()); }
        let meddled = s.chance(1, 12) && !self.faulty;
        if meddled { *self.p.0.meddle.lock().unwrap() = Some(s.upto(5)); }
        self.reshape(s);
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::credentials(self.p.clone(), &de(&rq)?));
        if let Ok(x) = &r { ensure_eq!(x.issuance_id, f.id, "C30.flow-id", "identifier of the flow"); }
        *self.p.0.meddle.lock().unwrap() = None;
        let sent = self.p.calls("credential");
        let spoiled = meddled && sent.iter().any(|c| c.res.as_ref().is_some_and(|r| r.get("credential").is_some() || r.get("credentials").is_some()));
        if spoiled { bad.push("a credential that does not verify"); self.n.meddled += 1; }
        let ok = self.run("credentials", f.st == St::Token, &bad, before, &r)?;
        // credentials were issued that the wallet did not keep, so its nonce is out of date
        if ok != Some(true) && sent.iter().any(|c| c.res.is_some()) { self.flows[i].lost = true; }
        if ok != Some(true) { return Ok(()); }
        let r = r.unwrap();
        if f.scope.is_none() {
            let mut asked: Vec<String> = sent.iter().map(|c| c.req["credential_identifier"].as_str().unwrap_or_default().to_string()).collect();
            asked.sort(); want.sort();
            ensure_eq!(asked, want, "C30.requested", "credentials asked for; {:?}", self.log);
        } else { ensure_eq!(sent.len(), 1, "C30.requested", "one credential of a scope"); }
        for c in &sent {
            let res = c.res.clone().unwrap_or_default();
            let cf = if f.scope.is_some() { cfg } else { f.ids[c.req["credential_identifier"].as_str().unwrap_or_default()] };
            let fl = &mut self.flows[i];
            if let Some(t) = res["transaction_id"].as_str() { fl.txns.push((t.to_string(), cf, false)); self.n.deferred += 1; }
            else {
                let l = texts(&res);
                if l.is_empty() { return fail("C24.no-credential", format!("{res}")) }
                self.n.several += u64::from(l.len() > 1);
                fl.got.extend(l.into_iter().map(|t| (t, cf)));
                fl.all_saved = false;
                for x in &mut fl.txns { x.2 = true; }
                self.n.issued += 1;
            }
        }
        let fl = &self.flows[i];
        let got: BTreeMap<String, String> = r.deferred.into_iter().flatten().collect();
        let want: BTreeMap<String, String> = fl.txns.iter().map(|t| (t.0.clone(), w.cfgs[t.1].id.clone())).collect();
        ensure_eq!(got, want, "C30.deferred", "what is outstanding");
        Ok(())
    }
    fn reshape(&self, s: &mut Src) { *self.p.0.shape.lock().unwrap() = s.chance(1, 4).then(|| (s.upto(3) as usize, s.upto(3))); }
    fn deferred(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st == St::Token && !f.txns.is_empty()) else { return Ok(()) };
        let f = self.flows[i].clone();
        let mut bad = vec![];
        let w = self.w().clone();
        let (mut txn, cfg, stale) = if f.txns.is_empty() { ("unknown".to_string(), 0, false) } else { s.one(&f.txns) };
        if f.txns.is_empty() || self.bad(s) { txn = s.one(&["unknown".to_string(), format!("{txn}x"), f.id.clone()]); bad.push("no such transaction"); }
        let rq: hi::DeferredRequest = de(&json!({"issuance_id": f.id, "transaction_id": txn, "credential_configuration_id": w.cfgs[cfg].id}))?;
        let before = self.state();
        self.arm(s);
        self.reshape(s);
        let r = block_on(hi::deferred(self.p.clone(), &rq));
        if let Ok(x) = &r { ensure_eq!(x.issuance_id, f.id, "C30.flow-id", "identifier of the flow"); }
        let sent = self.p.calls("deferred");
        let answered = sent.first().is_some_and(|c| c.res.is_some());
        // still pending (or, KNOWN-FINDING of C26, no longer to be had): the wallet passes that on and keeps the transaction
        if bad.is_empty() && !answered && !sent.is_empty() && r.is_err() && f.st == St::Token {
            let fired = self.p.fired();
            let waiting = !self.p.0.issuer.0.pending.lock().unwrap().is_empty();
            ensure!(waiting || stale || f.lost || fired, "C30.refused", "a deferred credential was refused; {:?}", self.log);
            ensure!(self.state() == before, "C30.refused-but-changed", "a deferred credential that is not ready changed the wallet; {:?}", self.log);
            self.log.push("deferred: not yet".into());
            // a refusal may come with a new nonce, which the wallet is not told
            if stale { self.flows[i].lost = true; }
            return Ok(());
        }
        let ok = self.run("deferred", f.st == St::Token, &bad, before, &r)?;
        if ok.is_none() && answered { self.flows[i].lost = true; for t in &mut self.flows[i].txns { t.2 = true; } }
        if ok != Some(true) { return Ok(()); }
        let r = r.unwrap();
        let res = sent[0].res.clone().unwrap_or_default();
        let res = if res.get("credential_response").is_some() { res["credential_response"].clone() } else { res };
        let l = texts(&res);
        if l.is_empty() { return fail("C26.no-credential", format!("{res}")) }
        let fl = &mut self.flows[i];
        fl.txns.retain(|t| t.0 != txn);
        for x in &mut fl.txns { x.2 = true; }
        fl.got.extend(l.into_iter().map(|t| (t, cfg)));
        fl.all_saved = false;
        self.n.collected += 1;
        let got: BTreeSet<String> = r.deferred.into_iter().flatten().map(|t| t.0).collect();
        ensure_eq!(got, fl.txns.iter().map(|t| t.0.clone()).collect(), "C30.deferred", "what is outstanding after a collection");
        Ok(())
    }
    fn save(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st == St::Token && !f.all_saved) else { return Ok(()) };
        let f = self.flows[i].clone();
        if f.st != St::Token && f.st != St::Gone { return Ok(()); }
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::save(self.p.clone(), &de(&json!({"issuance_id": f.id}))?));
        if let Ok(x) = &r { ensure_eq!(*x, f.id, "C30.flow-id", "identifier of the flow"); }
        let ok = self.run("save", f.st == St::Token, &[], before, &r)?;
        if ok == Some(false) || f.st == St::Gone { return Ok(()); }
        let w = self.w().clone();
        for c in self.p.0.saved.lock().unwrap().iter() {
            if self.saved.contains(&c.issued) { continue; }
            let Some((_, cfg)) = f.got.iter().find(|g| g.0 == c.issued) else { return fail("C30.saved", format!("saved what was not issued here: {}", c.issued)) };
            self.kept(&w, c, *cfg)?;
            self.saved.insert(c.issued.clone());
        }
        if ok == Some(true) {
            for (t, _) in &f.got { ensure!(self.saved.contains(t), "C30.not-saved", "an issued credential was not saved; {:?}", self.log); }
            self.n.saved += u64::from(!f.got.is_empty());
            self.flows[i].all_saved = true;
            if f.txns.is_empty() { self.flows[i].st = St::Gone; ensure!(!self.state().contains_key(&f.id), "C30.not-released", "a finished flow is still stored"); }
        } else {
            // what could not be saved can be saved later
            self.p.arm(None);
            let done = !self.state().contains_key(&f.id);
            let r = block_on(hi::save(self.p.clone(), &de(&json!({"issuance_id": f.id}))?));
            ensure!(r.is_ok() || done, "C30.save-again", "a failed save cannot be repeated; {:?}", self.log);
            let all: Vec<Credential> = self.p.0.saved.lock().unwrap().clone();
            for (t, cfg) in &f.got { let Some(c) = all.iter().find(|c| c.issued == *t) else { return fail("C30.not-saved", format!("an issued credential was not saved on the second attempt; {:?}", self.log)) }; self.kept(&w, c, *cfg)?; self.saved.insert(t.clone()); }
            self.flows[i].all_saved = true;
            if f.txns.is_empty() { self.flows[i].st = St::Gone; }
        }
        Ok(())
    }
    /// A credential in the wallet is the one issued.
    fn kept(&self, w: &World, c: &Credential, cfg: usize) -> R {
        let Some((_, j, signed)) = read_jws(&c.issued, &w.key) else { return fail("C30.kept", "not a JWT".into()) };
        ensure!(signed, "C30.kept", "not signed by the issuer: {j}");
        ensure_eq!(strip_null(json!(c.vc)), strip_null(j["vc"].clone()), "C30.kept", "credential");
        ensure_eq!((json!(c.issuer), json!(c.issuance_date.timestamp())), (json!(ISSUER), j["iat"].clone()), "C30.kept", "issuer, date");
        if j["vc"].get("id").is_some() { ensure_eq!(json!(c.id), j["vc"]["id"], "C30.kept", "id"); } else { ensure!(!c.id.is_empty(), "C30.kept", "no id"); }
        if w.cfgs[cfg].proofs == crate::world::Proofs::Jwt { ensure_eq!((&j["sub"], &j["vc"]["credentialSubject"]["id"]), (&json!(self.p.0.key.did), &json!(self.p.0.key.did)), "C30.kept", "subject"); }
        let d = &w.cfgs[cfg].display;
        ensure_eq!(strip_null(json!(c.display)), strip_null(d.as_ref().map_or(Value::Null, |d| json!(d))), "C30.kept", "display");
        let want = d.as_ref().and_then(|d| d.first()).and_then(|d| d["logo"]["uri"].as_str().and_then(logo));
        ensure_eq!(c.logo, want, "C30.kept", "logo");
        Ok(())
    }
    fn cancel(&mut self, s: &mut Src) -> R {
        let Some(i) = self.flow(s, |f| f.st != St::Gone) else { return Ok(()) };
        let f = self.flows[i].clone();
        let before = self.state();
        self.arm(s);
        let r = block_on(hi::cancel(self.p.clone(), &de(&json!({"issuance_id": f.id}))?));
        if let Ok(x) = &r { ensure_eq!(*x, f.id, "C30.flow-id", "identifier of the flow"); }
        if self.run("cancel", f.st != St::Gone, &[], before.clone(), &r)? != Some(true) { return Ok(()); }
        let mut want = before;
        want.remove(&f.id);
        ensure!(self.state() == want, "C30.cancel", "cancelling a flow did not remove just that flow");
        self.flows[i].st = St::Gone;
        self.n.cancelled += 1;
        Ok(())
    }
    fn wait(&mut self, s: &mut Src) -> R {
        let w = self.w().clone();
        let mut p = self.p.0.issuer.0.pending.lock().unwrap();
        if !p.is_empty() && s.chance(2, 3) { p.clear(); self.log.push("approved".into()); return Ok(()); }
        for (who, sets) in &w.people { for id in sets.keys() { if s.chance(1, 2) { p.insert((who.clone(), id.clone())); } } }
        self.log.push("claims held back".into());
        Ok(())
    }
    fn step(&mut self, s: &mut Src, op: usize) -> R {
        match op { 0 => self.offer(s), 1 => self.accept(s), 2 => self.pin(s), 3 => self.token(s), 4 => self.authorize(s), 5 => self.request(s), 6 => self.credentials(s), 7 => self.deferred(s), 8 => self.save(s), 9 => self.cancel(s), _ => self.wait(s) }
    }
}
fn issuance(s: &mut Src) -> Result<Case, Fail> {
    let mut x = Wallet::new(s);
    x.faulty = s.chance(1, 3);
    let r: R = (|| {
        for k in 0..s.size(6, 40) {
            if k > 0 && s.chance(1, 12) {
                // somebody has to wait for a credential, gets it, asks for more
                let w = x.w().clone();
                let held: Vec<(String, String)> = w.people.iter().flat_map(|(p, d)| d.keys().map(move |i| (p.clone(), i.clone()))).collect();
                x.p.0.issuer.0.pending.lock().unwrap().extend(held);
                x.credentials(s)?;
                if s.bool() { x.deferred(s)?; }
                x.p.0.issuer.0.pending.lock().unwrap().clear();
                x.deferred(s)?;
                if s.bool() { x.credentials(s)?; }
                x.save(s)?;
                continue;
            }
            let op = if k == 0 { 0 } else { s.weighted(&[4, 6, 4, 6, 5, 3, 9, 3, 5, 1, 1]) };
            x.step(s, op)?;
        }
        // nothing but what was saved by a save is in the wallet
        for c in x.p.0.saved.lock().unwrap().iter() { ensure!(x.saved.contains(&c.issued), "C30.saved", "a credential was stored without a save"); }
        Ok(())
    })();
    let n = &x.n;
    match r {
        Err(e) if e.sig.starts_with("C30") || e.sig.starts_with("panic") => Err(e),
        Err(e) => Ok(Case::new(false, e.sig.clone()).label(true, "stopped by another property")),
        Ok(()) => Ok(Case::new(n.issued > 0 && n.refused > 0, x.log.join(" | ").chars().take(700).collect::<String>()).label(n.saved > 0, "saved").label(n.tokens > 0, "pre-authorized").label(n.codes > 0, "authorized").label(n.scopes > 0, "by scope").label(n.narrowed > 0, "narrowed").label(n.deferred > 0, "deferred").label(n.collected > 0, "collected").label(n.several > 0, "several credentials at once").label(n.meddled > 0, "meddled with").label(n.order > 0, "out of order").label(n.faults > 0, "fault").label(n.cancelled > 0, "cancelled")),
    }
}
pub fn run_issuance() -> ! {
    let mut su = Suite::new("C30", "a history in which a credential was issued to the wallet and a step was refused");
    su.scale(10);
    su.assume("the wallet's issuer is the real vercre-issuer over the kit's provider; JOSE and DID crates are the kit's stand-ins (real Ed25519)");
    su.check("histories", 5_000, 60_000, issuance);
    su.finish()
}

// ---- presentation -------------------------------------------------------------------------
struct Pres { id: String, st: u8, state: String, client: String, nonce: String, cross: bool, def: String, desc: Desc, found: Vec<String> }
fn object(v: &VProv, r: &Value) -> Option<Value> {
    if r["request_object"].is_object() { return Some(r["request_object"].clone()); }
    let (vid, id) = r["request_uri"].as_str()?.rsplit_once("/request/")?;
    let o = block_on(vercre_verifier::request_object(v.clone(), &serde_json::from_value(json!({"client_id": vid, "id": id})).ok()?)).ok()?;
    let RequestObjectType::Jwt(t) = o.request_object else { return None };
    serde_json::from_slice(&crate::sha::unb64(t.split('.').nth(1)?)?).ok()
}
fn stored(p: &HProv, s: &mut Src, v: &Vc) -> Result<Credential, Fail> {
    let k = &p.0.issuer.0.w.key;
    let j = make_vc(k, &p.0.key, &v.types, &v.claims, v.until);
    let issued = k.jws(&verif::head(k), &j);
    de(&json!({"id": format!("urn:c:{}", s.raw()), "issuer": ISSUER, "vc": j["vc"], "issued": issued, "issuance_date": "2024-01-01T00:00:00Z"}))
}
#[derive(Default)]
struct PCount { presented: u64, several: u64, refused: u64, none: u64, faults: u64, meddled: u64, real: u64 }
fn presentation(s: &mut Src) -> Result<Case, Fail> {
    let mut x = Wallet::new(s);
    let p = HProv::new(x.w().clone(), s.size(1, 2));
    x.p = p.clone();
    let faulty = s.chance(1, 4);
    let mut n = PCount::default();
    let mut log: Vec<String> = vec![];
    let mut all: Vec<(Vc, Credential)> = vec![];
    let mut open: Vec<Pres> = vec![];
    let r: R = (|| {
        // what the wallet holds: some of it made here, some issued to it
        if s.chance(1, 3) {
            x.wrong = [1, 0];
            x.offer(s)?; x.accept(s)?; x.pin(s)?;
            if x.flows.first().is_some_and(|f| f.pre.is_some()) { x.token(s)?; } else if !x.bare { x.authorize(s)?; }
            x.credentials(s)?; x.save(s)?;
            for c in p.0.saved.lock().unwrap().iter() {
                let j = json!(c.vc);
                let claims = j["credentialSubject"].as_object().into_iter().flatten().filter_map(|(k, v)| v.as_str().map(|v| (k.clone(), v.to_string()))).collect();
                let types = j["type"].as_array().into_iter().flatten().filter_map(|t| t.as_str().map(String::from)).collect();
                n.real += 1;
                all.push((Vc::new(types, claims), c.clone()));
            }
        }
        for _ in 0..s.size(4, 26) {
            let arm = |s: &mut Src| p.arm((faulty && s.chance(1, 6)).then(|| 1 + s.upto(5)));
            match s.weighted(&[3, 4, 4, 5, 1]) {
                0 => { let d = verif::Sim::desc(s, 0); let v = verif::Sim::vc(s, &d, 0, true); let c = stored(&p, s, &v)?; p.0.saved.lock().unwrap().push(c.clone()); all.push((v, c)); }
                1 => {
                    let mut d = verif::Sim::desc(s, open.len());
                    // ask for something the wallet has
                    if !all.is_empty() && s.chance(2, 3) { let (v, _) = s.pick(&all); let t = v.types.last().cloned().unwrap_or_default(); d.rules = vec![Rule::Type(t.clone())]; d.json["constraints"]["fields"] = json!([{"path": ["$.type"], "filter": {"type": "string", "const": t}}]); }
                    // the wallet presents jwt_vc_json
                    d.json.as_object_mut().unwrap().remove("format");
                    if s.chance(1, 3) { d.json["format"] = json!({"jwt_vc_json": {"alg": ["EdDSA"]}}); }
                    let vids: Vec<String> = p.0.verifier.0.verifiers.keys().cloned().collect();
                    let cross = s.bool();
                    let req = json!({"client_id": s.one(&vids), "purpose": gen::ident(s), "device_flow": if cross { "CrossDevice" } else { "SameDevice" }, "client_id_scheme": "redirect_uri", "input_descriptors": [d.json]});
                    let r = block_on(vercre_verifier::create_request(p.0.verifier.clone(), &de(&req)?)).map_err(|e| Fail::new("C28.refused", e.to_string()))?;
                    let same = r.request_object.clone();
                    let j = strip_null(json!(r));
                    let o = object(&p.0.verifier, &j).ok_or_else(|| Fail::new("C28.not-fetched", format!("{j}")))?;
                    let text = if cross { j["request_uri"].as_str().unwrap_or_default().to_string() } else { vercre_core::urlencode::to_string(r.request_object.as_ref().unwrap()).map_err(|e| Fail::new("C18.urlencode", e.to_string()))? };
                    let mut bad = vec![];
                    let mut text = text;
                    let before = p.0.state.lock().unwrap().clone();
                    if s.chance(1, 6) {
                        if cross && s.bool() { *p.0.meddle.lock().unwrap() = Some(s.upto(5)); bad.push("a request that does not verify"); n.meddled += 1; }
                        else if cross { text = format!("{text}x"); bad.push("no such request"); }
                        else if s.bool() { text = text.replace("presentation_definition=", "presentation_definition=%"); bad.push("unreadable"); }
                        else {
                            // a request that asks for nothing, or does not say what it asks for
                            let mut q = same.clone().unwrap();
                            let mut d = json!(q.presentation_definition);
                            if s.bool() { d["input_descriptors"] = json!([]); } else { d = json!("https://verifier.example/definition"); }
                            q.presentation_definition = de(&d)?;
                            text = vercre_core::urlencode::to_string(&q).map_err(|e| Fail::new("C18.urlencode", e.to_string()))?;
                            bad.push("nothing asked for");
                        }
                    }
                    arm(s);
                    let r = block_on(hp::request(p.clone(), &text));
                    let fired = p.fired();
                    *p.0.meddle.lock().unwrap() = None;
                    log.push(format!("request cross:{cross} {} {bad:?} -> {}{}", d.json["constraints"], r.is_ok(), if fired { " (fault)" } else { "" }));
                    if fired { n.faults += 1; ensure!(r.is_err(), "C31.fault-ignored", "request; {log:?}"); continue; }
                    let r = match (bad.is_empty(), r) {
                        (true, Err(e)) => return fail("C31.refused", format!("a proper request was refused: {e}; {log:?}")),
                        (false, Ok(_)) => return fail("C31.accepted", format!("a request was taken although {bad:?}; {log:?}")),
                        (false, Err(_)) => { n.refused += 1; ensure!(*p.0.state.lock().unwrap() == before, "C31.refused-but-changed", "a refused request left a flow behind; {log:?}"); continue; }
                        (true, Ok(r)) => r,
                    };
                    let found: Vec<String> = r.credentials.iter().map(|c| c.issued.clone()).collect();
                    let want: Vec<String> = all.iter().filter(|(v, _)| v.meets(&d)).map(|(_, c)| c.issued.clone()).collect();
                    ensure_eq!(found.iter().collect::<BTreeSet<_>>(), want.iter().collect::<BTreeSet<_>>(), "C31.found", "credentials found for {}; {log:?}", d.json);
                    ensure_eq!(r.status, hp::Status::Requested, "C31.status", "after a request");
                    ensure!(open.iter().all(|o| o.id != r.presentation_id), "C31.flow-id", "{} used twice", r.presentation_id);
                    let get = |k: &str| o[k].as_str().unwrap_or_default().to_string();
                    open.push(Pres { id: r.presentation_id, st: 0, state: get("state"), client: get("client_id"), nonce: get("nonce"), cross, def: o["presentation_definition"]["id"].as_str().unwrap_or_default().into(), desc: d, found });
                }
                2 => {
                    if open.is_empty() { continue; }
                    let fresh: Vec<usize> = (0..open.len()).filter(|i| open[*i].st == 0 && !open[*i].found.is_empty()).collect();
                    let i = if !fresh.is_empty() && s.chance(4, 5) { s.one(&fresh) } else { s.upto(open.len() as u64 - 1) as usize };
                    let id = if s.chance(1, 10) { "unknown".to_string() } else { open[i].id.clone() };
                    let turn = id == open[i].id && open[i].st == 0;
                    let before = p.0.state.lock().unwrap().clone();
                    arm(s);
                    let r = block_on(hp::authorize(p.clone(), id));
                    let fired = p.fired();
                    log.push(format!("authorize turn:{turn} -> {}{}", r.is_ok(), if fired { " (fault)" } else { "" }));
                    if fired { n.faults += 1; ensure!(r.is_err(), "C31.fault-ignored", "authorize; {log:?}"); continue; }
                    ensure_eq!(r.is_ok(), turn, "C31.authorize", "authorizing a presentation; {log:?}");
                    match r { Ok(st) => { ensure_eq!(st, hp::Status::Authorized, "C31.status", "after authorization"); open[i].st = 1; } Err(_) => { n.refused += 1; ensure!(*p.0.state.lock().unwrap() == before, "C31.refused-but-changed", "{log:?}"); } }
                }
                3 => {
                    if open.is_empty() { continue; }
                    let ready: Vec<usize> = (0..open.len()).filter(|i| open[*i].st == 1 && (!open[*i].found.is_empty() || s.chance(1, 3))).collect();
                    let i = if !ready.is_empty() && s.chance(4, 5) { s.one(&ready) } else { s.upto(open.len() as u64 - 1) as usize };
                    let o = &open[i];
                    let may = o.st == 1 && !o.found.is_empty();
                    let before = p.0.verifier.0.store.lock().unwrap().clone();
                    arm(s);
                    let r = block_on(hp::present(p.clone(), o.id.clone()));
                    let fired = p.fired();
                    let sent = p.calls("present");
                    log.push(format!("present st:{} found:{} -> {}{}", o.st, o.found.len(), r.is_ok(), if fired { " (fault)" } else { "" }));
                    if fired { n.faults += 1; ensure!(r.is_err(), "C31.fault-ignored", "present; {log:?}"); continue; }
                    if o.st == 0 { ensure!(sent.is_empty(), "C31.unauthorized", "something was sent to the verifier without the holder's consent; {log:?}"); }
                    match (may, &r) {
                        (true, Err(e)) => return fail("C31.not-presented", format!("{e}; {log:?}")),
                        (false, Ok(_)) => return fail("C31.presented", format!("a presentation was accepted although st {} found {}; {log:?}", o.st, o.found.len())),
                        (false, Err(_)) => { n.refused += 1; if o.found.is_empty() && o.st == 1 { n.none += 1; } ensure!(*p.0.verifier.0.store.lock().unwrap() == before, "C31.refused-but-changed", "{log:?}"); continue; }
                        (true, Ok(_)) => {}
                    }
                    n.presented += 1;
                    if o.found.len() > 1 { n.several += 1; }
                    ensure_eq!(sent.len(), 1, "C31.sent", "messages to the verifier");
                    let q = &sent[0].req;
                    ensure_eq!(q["uri"], if o.cross { json!(o.client) } else { Value::Null }, "C31.response-uri", "where it was sent");
                    ensure_eq!(q["request"]["state"], json!(o.state), "C31.state", "{q}");
                    let sub = &q["request"]["presentation_submission"];
                    ensure_eq!((&sub["definition_id"], sub["descriptor_map"].as_array().map(Vec::len), &sub["descriptor_map"][0]["id"]), (&json!(o.def), Some(1), &json!(o.desc.id)), "C31.submission", "{sub}");
                    ensure_eq!(sub["descriptor_map"][0]["path_nested"]["format"], json!("jwt_vc_json"), "C31.submission", "format of the credential: {sub}");
                    ensure!(sub["id"].as_str().is_some_and(|i| !i.is_empty()), "C31.submission", "no id: {sub}");
                    let tok = &q["request"]["vp_token"];
                    let t = if tok.is_array() { tok[0].as_str() } else { tok.as_str() }.unwrap_or_default();
                    let Some((h, c, signed)) = read_jws(t, &p.0.key) else { return fail("C31.vp", format!("{tok}")) };
                    ensure!(signed, "C31.vp", "not signed by the holder");
                    ensure_eq!((&h["kid"], &h["alg"]), (&json!(p.0.key.kid), &json!("EdDSA")), "C31.vp", "{h}");
                    ensure_eq!((&c["nonce"], &c["aud"], &c["vp"]["holder"]), (&json!(o.nonce), &json!(o.client), &json!(p.0.key.did)), "C31.vp", "nonce, audience, holder");
                    let vcs: Vec<String> = match &c["vp"]["verifiableCredential"] { Value::Array(a) => a.iter().filter_map(|v| v.as_str().map(String::from)).collect(), v => v.as_str().map(String::from).into_iter().collect() };
                    ensure_eq!(vcs, o.found.clone(), "C31.vp", "credentials presented");
                    open[i].st = 2;
                }
                _ => { all.retain(|_| true); if !all.is_empty() && s.bool() { let i = s.upto(all.len() as u64 - 1) as usize; let (_, c) = all.remove(i); p.0.saved.lock().unwrap().retain(|x| x.issued != c.issued); } }
            }
        }
        Ok(())
    })();
    match r {
        Err(e) if e.sig.starts_with("C31") || e.sig.starts_with("panic") => Err(e),
        Err(e) => Ok(Case::new(false, e.sig.clone()).label(true, "stopped by another property")),
        Ok(()) => Ok(Case::new(n.presented > 0 && n.refused > 0, log.iter().take(6).cloned().collect::<Vec<_>>().join(" | ").chars().take(700).collect::<String>()).label(n.presented > 0, "presented").label(n.several > 0, "several credentials").label(n.none > 0, "nothing to present").label(n.meddled > 0, "meddled with").label(n.real > 0, "issued by the issuer").label(n.faults > 0, "fault").label(n.refused > 0, "refused")),
    }
}
fn status_text(s: &mut Src) -> Result<Case, Fail> {
    let st = match s.upto(4) { 0 => hp::Status::Inactive, 1 => hp::Status::Requested, 2 => hp::Status::Authorized, _ => hp::Status::Failed(gen::text(s, 12)) };
    let t = st.to_string();
    match hp::Status::from_str(&t) { Ok(b) => ensure_eq!(b, st, "C31.status-text", "{t:?}"), Err(e) => return fail("C31.status-text", format!("{t:?} is not read back: {e}")) }
    // no other text is a status
    let o = match s.upto(2) { 0 => gen::text(s, 12), 1 => format!("{}{}", s.one(&["Inactive", "Requested", "Authorized", "Failed", "Failed:", "requested"]), gen::text(s, 3)), _ => s.one(&["", "Failed", "Failed:", "Failed:x", "authorized", " Inactive"]).to_string() };
    let known = ["Inactive", "Requested", "Authorized"].contains(&o.as_str()) || o.starts_with("Failed: ");
    if !o.starts_with("Failed") { ensure_eq!(hp::Status::from_str(&o).is_ok(), known, "C31.status-text", "{o:?}"); } else { let _ = hp::Status::from_str(&o); }
    Ok(Case::new(matches!(st, hp::Status::Failed(_)), t))
}
/// Two descriptors, each met by another credential of the wallet.
fn probe_two() -> R {
    let mut s = Src::random(3);
    set_clock(0);
    let p = HProv::new(World::of(&mut s, true, false), 1);
    for t in ["EmployeeIDCredential", "DegreeCredential"] {
        let c = stored(&p, &mut s, &Vc::new(vec!["VerifiableCredential".into(), t.into()], BTreeMap::new()))?;
        p.0.saved.lock().unwrap().push(c);
    }
    let d = |t: &str| json!({"id": t, "constraints": {"fields": [{"path": ["$.type"], "filter": {"type": "string", "const": t}}]}});
    let req = json!({"client_id": verif::IDS[0], "purpose": "p", "device_flow": "CrossDevice", "client_id_scheme": "redirect_uri", "input_descriptors": [d("EmployeeIDCredential"), d("DegreeCredential")]});
    let r = block_on(vercre_verifier::create_request(p.0.verifier.clone(), &de(&req)?)).map_err(|e| Fail::new("C28.refused", e.to_string()))?;
    let uri = json!(r)["request_uri"].as_str().unwrap_or_default().to_string();
    let Ok(r) = block_on(hp::request(p.clone(), &uri)) else { return fail("two-descriptors", "not requested".into()) };
    let _ = block_on(hp::authorize(p.clone(), r.presentation_id.clone()));
    match block_on(hp::present(p, r.presentation_id)) { Ok(_) => Ok(()), Err(e) => fail("two-descriptors", e.to_string()) }
}
pub fn run_presentation() -> ! {
    let mut su = Suite::new("C31", "a history in which a presentation was accepted and a step refused");
    su.scale(8);
    su.assume("the wallet's verifier is the real vercre-verifier over the kit's provider; the credential store finds credentials with dif-exch's constraints; requests have one input descriptor");
    su.check("histories", 6_000, 60_000, presentation);
    su.check("status-text", 4_000, 40_000, status_text);
    su.known_probe(probe_two);
    su.finish()
}
