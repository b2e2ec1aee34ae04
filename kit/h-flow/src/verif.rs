//! C28, C29: histories of a verifier: requests made, fetched and answered.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use anyhow::anyhow;
use chrono::{DateTime, Utc};
use pbt::{block_on, ensure, ensure_eq, gen, Case, Fail, Src, Suite};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use vercre_did::{DidResolver, Document};
use vercre_infosec::{Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::verifier::{Metadata, RequestObjectType, StateStore, Verifier, Wallet};
use vercre_openid::Error;

use crate::keys::{read_jws, strip_null, Docs, Key};
use crate::sha;
use crate::sim::{set_clock, R};
use crate::world::{Fault, NoCrypt};

const MIN5: i64 = 300_000;
pub struct Inner { pub verifiers: BTreeMap<String, (Key, Value)>, pub store: Mutex<BTreeMap<String, (Vec<u8>, DateTime<Utc>)>>, fault: Mutex<Fault>, pub docs: Docs, evicts: bool }
#[derive(Clone)]
pub struct VProv(pub Arc<Inner>);
impl VProv {
    pub fn new(verifiers: BTreeMap<String, (Key, Value)>, issuer: &Key, evicts: bool) -> Self {
        let mut docs = Docs::default();
        docs.publish(&[&Key::web(1008, &issuer.did, "key-9"), issuer]);
        for (k, _) in verifiers.values() { docs.publish(&[k]); }
        Self(Arc::new(Inner { verifiers, store: Mutex::default(), fault: Mutex::default(), docs, evicts }))
    }
    fn io(&self) -> anyhow::Result<()> {
        let mut f = self.0.fault.lock().unwrap();
        f.count += 1;
        if f.fail_at == Some(f.count) { f.fired = true; return Err(anyhow!("injected fault")); }
        Ok(())
    }
}
impl vercre_openid::verifier::Provider for VProv {}
impl Metadata for VProv {
    async fn verifier(&self, id: &str) -> anyhow::Result<Verifier> { self.io()?; let v = self.0.verifiers.get(id).ok_or_else(|| anyhow!("no verifier {id}"))?; Ok(serde_json::from_value(v.1.clone())?) }
    async fn wallet(&self, _: &str) -> anyhow::Result<Wallet> { Err(anyhow!("no wallet")) }
    async fn register(&self, v: &Verifier) -> anyhow::Result<Verifier> { Ok(v.clone()) }
}
impl StateStore for VProv {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> anyhow::Result<()> {
        self.io()?;
        self.0.store.lock().unwrap().insert(key.into(), (serde_json::to_vec(&state)?, expiry));
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> anyhow::Result<T> {
        self.io()?;
        let st = self.0.store.lock().unwrap();
        let (b, exp) = st.get(key).ok_or_else(|| anyhow!("no state for {key}"))?;
        if self.0.evicts && *exp < Utc::now() { return Err(anyhow!("no state for {key}")); }
        Ok(serde_json::from_slice(b)?)
    }
    async fn purge(&self, key: &str) -> anyhow::Result<()> { self.io()?; self.0.store.lock().unwrap().remove(key); Ok(()) }
}
impl DidResolver for VProv { async fn resolve(&self, url: &str) -> anyhow::Result<Document> { self.io()?; self.0.docs.resolve(url).await } }
impl SecOps for VProv {
    fn signer(&self, id: &str) -> anyhow::Result<impl Signer> { self.io()?; self.0.verifiers.get(id).map(|v| v.0.clone()).ok_or_else(|| anyhow!("no signer for {id}")) }
    fn encryptor(&self, _: &str) -> anyhow::Result<impl Encryptor> { Ok(NoCrypt) }
    fn decryptor(&self, _: &str) -> anyhow::Result<impl Decryptor> { Ok(NoCrypt) }
}

#[derive(Clone, Debug)]
pub enum Rule { Type(String), Is(String, String), Starts(String, String) }
#[derive(Clone, Debug)]
pub struct Desc { pub id: String, pub json: Value, pub rules: Vec<Rule>, pub formats: Option<Vec<String>> }
#[derive(Clone, Debug)]
struct Req { vid: String, cross: bool, client: String, state: String, nonce: Option<String>, def: Option<String>, descs: Vec<Desc>, purpose: String, exp: i64 }
#[derive(Clone, Debug)]
pub struct Vc { pub types: Vec<String>, pub claims: BTreeMap<String, String>, pub until: Option<i64>, flaw: Option<u64>, holder: usize }
impl Vc {
    pub fn new(types: Vec<String>, claims: BTreeMap<String, String>) -> Self { Self { types, claims, until: None, flaw: None, holder: 0 } }
    pub fn meets(&self, d: &Desc) -> bool {
        d.rules.iter().all(|r| match r { Rule::Type(t) => self.types.contains(t), Rule::Is(k, v) => self.claims.get(k) == Some(v), Rule::Starts(k, v) => self.claims.get(k).is_some_and(|x| x.starts_with(v)) })
    }
}
#[derive(Default)]
struct Count { created: u64, fetched: u64, accepted: u64, refused: u64, expired: u64, faults: u64, multi: u64, replays: u64 }
pub struct Sim { p: VProv, now: i64, issuer: Key, holders: Vec<Key>, reqs: Vec<Req>, dead: Vec<Req>, seen: BTreeSet<String>, n: Count, log: Vec<String>, faulty: bool, wrong: [u64; 3] }
pub const IDS: [&str; 2] = ["https://verifier.example", "https://other.example/rp"];
const TYPES: [&str; 3] = ["EmployeeIDCredential", "DegreeCredential", "Employee"];
const NAMES: [&str; 3] = ["given_name", "email", "degree"];
const VALUES: [&str; 4] = ["Ana", "Anatol", "BSc (Hons)", "ø"];
pub fn issuer_key() -> Key { Key::web(9, "did:web:issuer.example", "key-0") }
pub fn verifiers(n: usize) -> BTreeMap<String, (Key, Value)> {
    (0..n).map(|i| (IDS[i].to_string(), (Key::web(40 + i as u64, &format!("did:web:verifier{i}.example"), "key-0"), json!({"client_id": IDS[i], "redirect_uris": [format!("{}/callback", IDS[i])], "grant_types": ["authorization_code"], "client_name": format!("Verifier {i}")})))).collect()
}
fn de<T: DeserializeOwned>(v: &Value) -> Result<T, Fail> { serde_json::from_value(v.clone()).map_err(|e| Fail::new("C18.request-not-read", format!("{e}: {v}"))) }
fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> { Err(Fail::new(sig, msg)) }
/// Changes the claims under a signature already made.
fn tamper(jws: &str, member: &str) -> String {
    let p: Vec<&str> = jws.split('.').collect();
    let mut c: Value = serde_json::from_slice(&sha::unb64(p[1]).unwrap()).unwrap();
    c["iat"] = json!(1);
    c[member]["id"] = json!("urn:changed");
    format!("{}.{}.{}", p[0], sha::b64(c.to_string().as_bytes()), p[2])
}
pub fn make_vc(issuer: &Key, holder: &Key, types: &[String], claims: &BTreeMap<String, String>, until: Option<i64>) -> Value {
    let now = Utc::now();
    let mut subj: Map<String, Value> = claims.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
    subj.insert("id".into(), json!(holder.did));
    let mut vc = json!({"@context": ["https://www.w3.org/2018/credentials/v1", "https://issuer.example/credentials/v1"], "id": "https://issuer.example/credentials/1", "type": types, "issuer": "https://issuer.example",
        "validFrom": now.to_rfc3339(), "credentialSubject": subj});
    if let Some(u) = until { vc["validUntil"] = json!(DateTime::<Utc>::from_timestamp_millis(u).unwrap().to_rfc3339()); }
    json!({"sub": holder.did, "nbf": now.timestamp(), "iss": issuer.did, "iat": now.timestamp(), "jti": "https://issuer.example/credentials/1", "vc": vc})
}
pub fn make_vp(holder: &Key, vcs: &[String], nonce: &str, aud: &str) -> Value {
    let now = Utc::now().timestamp();
    json!({"iss": holder.did, "jti": "urn:vp:1", "aud": aud, "nonce": nonce, "nbf": now, "iat": now, "exp": now + 900, "vp": {"@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiablePresentation", "EmployeeIDPresentation"], "verifiableCredential": vcs, "holder": holder.did}})
}
pub fn head(k: &Key) -> Value { json!({"alg": "EdDSA", "typ": "jwt", "kid": k.kid}) }

impl Sim {
    fn new(s: &mut Src) -> Self {
        set_clock(0);
        let n = s.size(1, 2);
        let issuer = issuer_key();
        Self { p: VProv::new(verifiers(n), &issuer, s.bool()), now: 0, issuer, holders: (51..54).map(Key::new).collect(), reqs: vec![], dead: vec![], seen: BTreeSet::new(), n: Count::default(), log: vec![], faulty: false, wrong: [6, 3, 1] }
    }
    fn wrongs(&self, s: &mut Src) -> usize { s.weighted(&self.wrong) }
    fn fresh(&mut self, tag: &str, k: &str) -> R {
        ensure!(k.len() >= 8, &format!("{tag}.short-key"), "key {k:?}");
        ensure!(self.seen.insert(k.to_string()), &format!("{tag}.key-reused"), "{k} was given out twice; {:?}", self.log);
        Ok(())
    }
    fn arm(&mut self, s: &mut Src) { let n = (self.faulty && s.chance(1, 6)).then(|| 1 + s.upto(7)); *self.p.0.fault.lock().unwrap() = Fault { count: 0, fail_at: n, fired: false }; }
    fn fault<T>(&mut self, r: &Result<T, Error>, what: &str) -> Result<bool, Fail> {
        let fired = { let mut f = self.p.0.fault.lock().unwrap(); std::mem::take(&mut *f).fired };
        if fired { self.n.faults += 1; self.log.push(format!("{what}: fault")); ensure!(r.is_err(), "fault-ignored", "{what} succeeded although the provider failed; {:?}", self.log); }
        Ok(fired)
    }
    fn tick(&mut self, s: &mut Src) {
        let mut to = self.now + s.one(&[1, 30, 120, 200, 290, 310, 600]) * 1000;
        while self.reqs.iter().any(|e| (e.exp - to).abs() < 4000) { to += 4500; }
        self.log.push(format!("+{}s", (to - self.now) / 1000));
        self.now = to;
        set_clock(to);
    }
    pub fn desc(s: &mut Src, i: usize) -> Desc {
        let mut rules = vec![];
        if s.chance(3, 4) { rules.push(Rule::Type(s.one(&TYPES).into())); }
        for _ in 0..s.size(usize::from(rules.is_empty()), 2) { let (k, v) = (s.one(&NAMES).to_string(), s.one(&VALUES).to_string()); rules.push(if s.chance(1, 4) { Rule::Starts(k, "Ana".into()) } else { Rule::Is(k, v) }); }
        let fields: Vec<Value> = rules.iter().map(|r| match r {
            Rule::Type(t) => json!({"path": ["$.type"], "filter": {"type": "string", "const": t}}),
            Rule::Is(k, v) => json!({"path": [format!("$.credentialSubject.{k}")], "filter": {"type": "string", "const": v}}),
            Rule::Starts(k, v) => json!({"path": [format!("$.credentialSubject.{k}"), format!("$.vc.credentialSubject.{k}")], "filter": {"type": "string", "pattern": format!("^{v}")}}),
        }).collect();
        let formats = s.chance(1, 2).then(|| s.one(&[vec!["jwt_vc"], vec!["jwt_vc_json"], vec!["jwt_vc", "jwt_vc_json"]]).into_iter().map(String::from).collect::<Vec<_>>());
        let id = s.one(&[format!("d{i}"), format!("EmployeeID {i}"), format!("ü/{i}")]);
        let mut json = json!({"id": id, "constraints": {"fields": fields}});
        if s.chance(1, 4) { json["name"] = json!(gen::ident(s)); }
        if s.chance(1, 4) { json["purpose"] = json!(gen::ident(s)); }
        if let Some(f) = &formats { json["format"] = f.iter().map(|f| (f.clone(), json!({"alg": ["EdDSA"]}))).collect::<Map<_, _>>().into(); }
        Desc { id, json, rules, formats }
    }
    fn create(&mut self, s: &mut Src) -> R {
        let ids: Vec<String> = self.p.0.verifiers.keys().cloned().collect();
        let mut vid = s.one(&ids);
        let mut descs: Vec<Desc> = (0..s.size(1, 3)).map(|i| Self::desc(s, i)).collect();
        let mut bad: Vec<&str> = vec![];
        if self.wrongs(s) > 0 { if s.bool() { descs.clear(); bad.push("nothing requested"); } else { vid = s.one(&["https://nobody.example", "", "https://verifier.example/", "https://verifier.example/post"]).into(); bad.push("verifier"); } }
        let cross = s.bool();
        let purpose = gen::ident(s);
        let req = json!({"client_id": vid, "purpose": purpose, "device_flow": if cross { "CrossDevice" } else { "SameDevice" }, "client_id_scheme": "redirect_uri", "input_descriptors": descs.iter().map(|d| d.json.clone()).collect::<Vec<_>>()});
        self.arm(s);
        let r = block_on(vercre_verifier::create_request(self.p.clone(), &de(&req)?));
        if self.fault(&r, "create_request")? { return Ok(()); }
        self.log.push(format!("create {req} {bad:?} -> {}", r.is_ok()));
        let r = match (bad.is_empty(), r) {
            (true, Err(e)) => return fail("C28.refused", format!("a proper request was not created: {e}; {req}")),
            (false, Ok(_)) => return fail("C28.accepted", format!("a request was created although {bad:?}: {req}")),
            (false, Err(_)) => { self.n.refused += 1; return Ok(()); }
            (true, Ok(r)) => strip_null(json!(r)),
        };
        self.n.created += 1;
        let mut q = Req { client: format!("{vid}/{}", if cross { "post" } else { "callback" }), vid, cross, state: String::new(), nonce: None, def: None, descs, purpose, exp: self.now + MIN5 };
        if cross {
            ensure!(r.get("request_object").is_none(), "C28.cross-device", "the request itself in {r}");
            let uri = r["request_uri"].as_str().unwrap_or_default();
            let Some(id) = uri.strip_prefix(&format!("{}/request/", q.vid)) else { return fail("C28.request-uri", format!("{r}")) };
            q.state = id.to_string();
        } else {
            ensure!(r.get("request_uri").is_none(), "C28.same-device", "a uri in {r}");
            q.state = r["request_object"]["state"].as_str().unwrap_or_default().to_string();
            self.object(&r["request_object"], &mut q)?;
        }
        self.fresh("C28", &q.state.clone())?;
        self.reqs.push(q);
        Ok(())
    }
    /// Compares a request object with what was asked for.
    fn object(&mut self, o: &Value, q: &mut Req) -> R {
        let (nonce, def) = (o["nonce"].as_str().unwrap_or_default().to_string(), o["presentation_definition"]["id"].as_str().unwrap_or_default().to_string());
        if let (Some(n), Some(d)) = (&q.nonce, &q.def) { ensure_eq!((&nonce, &def), (n, d), "C28.changed", "request object {o}"); } else { self.fresh("C28", &nonce)?; self.fresh("C28", &def)?; }
        let mut want = json!({"response_type": "vp_token", "client_id": q.client, "nonce": nonce, "state": q.state, "client_id_scheme": "redirect_uri", "client_metadata": self.p.0.verifiers[&q.vid].1,
            "presentation_definition": {"id": def, "purpose": q.purpose, "input_descriptors": q.descs.iter().map(|d| d.json.clone()).collect::<Vec<_>>()}});
        if q.cross { want["response_mode"] = json!("direct_post"); want["response_uri"] = json!(q.client); }
        let mut got = o.clone();
        if let Some(d) = got["presentation_definition"].as_object_mut() { d.remove("format"); }
        ensure_eq!(strip_null(got), want, "C28.request-object", "request object");
        q.nonce = Some(nonce); q.def = Some(def);
        Ok(())
    }
    fn fetch(&mut self, s: &mut Src) -> R {
        let mut bad: Vec<&str> = vec![];
        let mut i = None;
        let (mut vid, mut id) = (IDS[0].to_string(), "unknown".to_string());
        if !self.reqs.is_empty() { let k = s.upto(self.reqs.len() as u64 - 1) as usize; i = Some(k); vid = self.reqs[k].vid.clone(); id = self.reqs[k].state.clone(); }
        if i.is_none() || self.wrongs(s) > 0 {
            match s.upto(3) {
                0 => { vid = if vid == IDS[0] { s.one(&[IDS[1], "", "https://verifier.example/post"]).into() } else { s.one(&[IDS[0], ""]).into() }; bad.push("verifier"); }
                1 if !self.dead.is_empty() => { id = s.pick(&self.dead).state.clone(); bad.push("answered"); }
                2 => { let n = self.reqs.iter().find_map(|r| r.nonce.clone()); id = n.unwrap_or_default(); bad.push("unknown"); }
                _ => { id = format!("{id}x"); bad.push("unknown"); }
            }
        }
        if bad.is_empty() { let r = &self.reqs[i.unwrap()]; if !r.cross { bad.push("not to be fetched"); } if self.now > r.exp { bad.push("expired"); self.n.expired += 1; } }
        let req = json!({"client_id": vid, "id": id});
        self.arm(s);
        let r = block_on(vercre_verifier::request_object(self.p.clone(), &de(&req)?));
        if self.fault(&r, "request_object")? { return Ok(()); }
        self.log.push(format!("fetch {req} {bad:?} -> {}", r.is_ok()));
        match (bad.is_empty(), r) {
            (true, Err(e)) => fail("C28.not-fetched", format!("a request could not be fetched: {e}; {:?}", self.log)),
            (false, Ok(r)) => fail("C28.accepted-fetch", format!("a request was handed out although {bad:?}: {}; {:?}", json!(r), self.log)),
            (false, Err(_)) => { self.n.refused += 1; Ok(()) }
            (true, Ok(r)) => {
                self.n.fetched += 1;
                let RequestObjectType::Jwt(t) = r.request_object else { return fail("C28.not-signed", format!("{req}")) };
                let mut q = self.reqs[i.unwrap()].clone();
                let key = &self.p.0.verifiers[&q.vid].0;
                let Some((h, c, ok)) = read_jws(&t, key) else { return fail("C28.not-a-jws", t) };
                ensure!(ok, "C28.signature", "not signed by the verifier: {c}");
                ensure_eq!((&h["typ"], &h["kid"], &h["alg"]), (&json!("oauth-authz-req+jwt"), &json!(key.kid), &json!("EdDSA")), "C28.header", "{h}");
                self.object(&strip_null(c), &mut q)?;
                self.reqs[i.unwrap()] = q;
                Ok(())
            }
        }
    }
    fn metadata(&mut self, s: &mut Src) -> R {
        let ids: Vec<String> = self.p.0.verifiers.keys().cloned().collect();
        let bad = self.wrongs(s) > 0;
        let id = if bad { "https://nobody.example".to_string() } else { s.one(&ids) };
        self.arm(s);
        let r = block_on(vercre_verifier::metadata(self.p.clone(), &de(&json!({"client_id": id}))?));
        if self.fault(&r, "metadata")? { return Ok(()); }
        ensure_eq!(r.is_ok(), !bad, "C28.metadata", "metadata of {id}");
        if let Ok(r) = r { ensure_eq!(strip_null(json!(r)), self.p.0.verifiers[&id].1, "C28.metadata", "verifier metadata"); }
        Ok(())
    }
    /// A credential that meets a descriptor, or one that may not.
    pub fn vc(s: &mut Src, d: &Desc, holder: usize, meet: bool) -> Vc {
        let mut types = vec!["VerifiableCredential".to_string()];
        let mut claims: BTreeMap<String, String> = NAMES.iter().filter_map(|k| s.bool().then(|| ((*k).to_string(), s.one(&VALUES).to_string()))).collect();
        if meet { for r in &d.rules { match r { Rule::Type(t) => { if !types.contains(t) { types.push(t.clone()); } } Rule::Is(k, v) => { claims.insert(k.clone(), v.clone()); } Rule::Starts(k, v) => { if !claims.get(k).is_some_and(|x| x.starts_with(v)) { claims.insert(k.clone(), v.clone()); } } } } }
        if types.len() < 2 { types.push(s.one(&TYPES).into()); }
        let until = s.chance(1, 3).then(|| Utc::now().timestamp_millis() + 3_600_000 * s.int(1, 100) as i64);
        Vc { types, claims, until, flaw: None, holder }
    }
    fn sign_vc(&self, v: &Vc) -> Value {
        let h = &self.holders[v.holder];
        let c = make_vc(&self.issuer, h, &v.types, &v.claims, v.until);
        json!(match v.flaw {
            None => self.issuer.jws(&head(&self.issuer), &c),
            Some(0) => Key::new(98).jws(&head(&self.issuer), &c),
            Some(1) => tamper(&self.issuer.jws(&head(&self.issuer), &c), "vc"),
            Some(2) => { let t = self.issuer.jws(&head(&self.issuer), &c); t[..=t.rfind('.').unwrap()].to_string() }
            Some(3) => { let mut hd = head(&self.issuer); hd["kid"] = json!(format!("{}#key-9", self.issuer.did)); self.issuer.jws(&hd, &c) }
            Some(4) => return c["vc"].clone(),
            Some(5) => { let mut hd = head(&self.issuer); hd["kid"] = json!("did:web:unknown.example#key-0"); self.issuer.jws(&hd, &c) }
            _ => "not.a.jwt".into(),
        })
    }
    fn respond(&mut self, s: &mut Src) -> R {
        let can: Vec<usize> = (0..self.reqs.len()).filter(|i| self.reqs[*i].nonce.is_some()).collect();
        if can.is_empty() { return Ok(()); }
        let live: Vec<usize> = can.iter().copied().filter(|i| self.now < self.reqs[*i].exp).collect();
        let qi = if !live.is_empty() && s.chance(6, 7) { *s.pick(&live) } else { *s.pick(&can) };
        let q = self.reqs[qi].clone();
        let mut bad: Vec<String> = vec![];
        if self.now > q.exp { bad.push("expired".into()); self.n.expired += 1; }
        let (nonce, def) = (q.nonce.clone().unwrap(), q.def.clone().unwrap());
        let wrong = self.wrongs(s);
        // what is presented: presentations of credentials
        let m = s.size(1, 3);
        let mut vps: Vec<Vec<Vc>> = vec![vec![]; m];
        let mut at: Vec<(usize, usize)> = vec![];
        let same = s.bool();
        let h0 = s.upto(2) as usize;
        for d in &q.descs {
            let k = s.upto(m as u64 - 1) as usize;
            let h = if same { h0 } else { k };
            if s.chance(1, 6) { let x = Self::vc(s, d, h, false); vps[k].push(x); }
            let v = Self::vc(s, d, h, true);
            at.push((k, vps[k].len()));
            vps[k].push(v);
        }
        // a presentation need not hold anything that is asked for
        let empty: Vec<usize> = (0..m).filter(|i| vps[*i].is_empty()).collect();
        for i in empty.into_iter().rev() {
            if s.chance(1, 3) { let x = Self::vc(s, &q.descs[0], 0, false); vps[i].push(x); continue; }
            vps.remove(i);
            for a in &mut at { if a.0 > i { a.0 -= 1; } }
        }
        #[derive(Clone, Debug)]
        struct Mp { id: String, to: Option<(usize, usize)>, path: Option<String>, fmt: String }
        let mut maps: Vec<Mp> = q.descs.iter().zip(&at).map(|(d, a)| Mp { id: d.id.clone(), to: Some(*a), path: None, fmt: match &d.formats { None => s.one(&["jwt_vc", "jwt_vc_json", "ldp_vc"]).to_string(), Some(f) => s.one(f) } }).collect();
        if s.chance(1, 5) { maps.push(Mp { id: "another".into(), to: Some((0, 0)), path: None, fmt: "jwt_vc".into() }); }
        s.shuffle(&mut maps);
        let mut vp_flaw: Vec<Option<u64>> = vec![None; vps.len()];
        let (mut state, mut def_sent, mut no_token, mut no_subm, mut empty_token) = (Some(q.state.clone()), def.clone(), false, false, false);
        for _ in 0..wrong {
            let k = s.upto(vps.len() as u64 - 1) as usize;
            let pick = s.upto(15);
            if maps.is_empty() && (6..=9).contains(&pick) { continue; }
            match pick {
                0 => { state = s.one(&[None, Some("unknown".into()), Some(format!("{}x", q.state)), Some(nonce.clone())]); bad.push("state".into()); }
                1 => { let o: Vec<&Req> = self.reqs.iter().chain(&self.dead).filter(|r| r.state != q.state).collect(); if !o.is_empty() { state = Some(s.pick(&o).state.clone()); bad.push("state of another request".into()); self.n.replays += 1; } }
                2 => no_token = true,
                3 => empty_token = true,
                4 => no_subm = true,
                5 => def_sent = s.one(&["".into(), format!("{def}x"), "00000000-0000-0000-0000-000000000000".into()]),
                6 => { let i = s.upto(maps.len() as u64 - 1) as usize; maps.remove(i); }
                7 => { let i = s.upto(maps.len() as u64 - 1) as usize; let l = vps[k].len() as u64 - 1; maps[i].to = Some((k, s.upto(l) as usize)); maps[i].path = None; }
                8 => { let i = s.upto(maps.len() as u64 - 1) as usize; maps[i].to = None; maps[i].path = Some(s.one(&["$", "$.holder", "$.verifiableCredential[99]", "$.nothing[0]", "not a path", "", "$.verifiableCredential", "$[7].verifiableCredential[0]"]).into()); }
                9 => { let i = s.upto(maps.len() as u64 - 1) as usize; maps[i].fmt = s.one(&["ldp_vc", "jwt_vp", "", "jwt"]).into(); }
                10 => { let i = s.upto(vps[k].len() as u64 - 1) as usize; vps[k][i].flaw = Some(s.upto(6)); }
                11 => { let i = s.upto(vps[k].len() as u64 - 1) as usize; vps[k][i].until = Some(Utc::now().timestamp_millis() - s.one(&[5_000, 3_600_000, 86_400_000 * 400])); }
                12 => { let i = s.upto(vps[k].len() as u64 - 1) as usize; let v = &mut vps[k][i]; match s.upto(2) { 0 => { v.types = vec!["VerifiableCredential".into(), s.one(&["OtherCredential", "employeeidcredential", "EmployeeIDCredential2"]).into()]; } 1 => v.claims.clear(), _ => for x in v.claims.values_mut() { *x = s.one(&["", "ana", "An", "Xna"]).into(); } } }
                _ => vp_flaw[k] = Some(s.upto(11)),
            }
        }
        // the verdict
        if no_token { bad.push("no token".into()); }
        if empty_token { bad.push("empty token".into()); }
        if no_subm { bad.push("no submission".into()); }
        if def_sent != def { bad.push("definition".into()); }
        for f in vp_flaw.iter().flatten() { bad.push(format!("presentation flaw {f}")); }
        for d in &q.descs {
            match maps.iter().find(|x| x.id == d.id) {
                None => bad.push(format!("{} not mapped", d.id)),
                Some(x) => match x.to {
                    None => bad.push("path".into()),
                    Some((i, j)) => {
                        let v = &vps[i][j];
                        if d.formats.as_ref().is_some_and(|f| !f.contains(&x.fmt)) { bad.push("format".into()); }
                        if let Some(f) = v.flaw { bad.push(format!("credential flaw {f}")); }
                        if v.until.is_some_and(|u| u < Utc::now().timestamp_millis()) { bad.push("credential expired".into()); }
                        if !v.meets(d) { bad.push("constraints".into()); }
                    }
                },
            }
        }
        // the message
        let mut token = vec![];
        for (k, vcs) in vps.iter().enumerate() {
            let h = self.holders[vcs[0].holder].clone();
            let list: Vec<Value> = vcs.iter().map(|v| self.sign_vc(v)).collect();
            let mut c = make_vp(&h, &[], &nonce, &q.client);
            c["vp"]["verifiableCredential"] = json!(list);
            let hd = head(&h);
            token.push(match vp_flaw[k] {
                None => json!(h.jws(&hd, &c)),
                Some(0) => json!(Key::new(97).jws(&hd, &c)),
                Some(1) => json!(tamper(&h.jws(&hd, &c), "vp")),
                Some(2) => { let t = h.jws(&hd, &c); json!(t[..=t.rfind('.').unwrap()]) }
                Some(3) => { let other = self.reqs.iter().chain(&self.dead).filter(|r| r.state != q.state).find_map(|r| r.nonce.clone()); c["nonce"] = json!(s.one(&[String::new(), format!("{nonce}x"), other.unwrap_or_else(|| "other".into())])); json!(h.jws(&hd, &c)) }
                Some(4) => { c["aud"] = json!(s.one(&["".to_string(), q.vid.clone(), format!("{}x", q.client), "https://evil.example/post".into(), if q.cross { format!("{}/callback", q.vid) } else { format!("{}/post", q.vid) }])); json!(h.jws(&hd, &c)) }
                Some(5) => json!(s.one(&["a.b.c", "x", "e.e.e"])),
                Some(6) => { c.as_object_mut().unwrap().remove("nonce"); json!(h.jws(&hd, &c)) }
                Some(7) => { let v = self.sign_vc(&Vc { flaw: None, ..vcs[0].clone() }); v }
                Some(8) => c["vp"].clone(),
                Some(9) => { let mut v = c["vp"].clone(); v["proof"] = json!({"type": "DataIntegrityProof", "cryptosuite": "eddsa-jcs-2022", "verificationMethod": h.kid, "proofPurpose": "authentication", "proofValue": "z1", "challenge": "another"}); v }
                Some(10) => { let mut v = c["vp"].clone(); v["proof"] = json!({"type": "DataIntegrityProof", "cryptosuite": "eddsa-jcs-2022", "verificationMethod": h.kid, "proofPurpose": "authentication", "proofValue": "z1"}); v }
                _ => { c.as_object_mut().unwrap().remove("aud"); json!(h.jws(&hd, &c)) }
            });
        }
        if empty_token { token.clear(); }
        let one = vps.len() == 1;
        let map: Vec<Value> = maps.iter().map(|x| {
            let path = x.path.clone().unwrap_or_else(|| { let (i, j) = x.to.unwrap(); if one { s.one(&[format!("$.verifiableCredential[{j}]"), format!("$['verifiableCredential'][{j}]")]) } else { format!("$[{i}].verifiableCredential[{j}]") } });
            json!({"id": x.id, "format": "jwt_vp", "path": "$", "path_nested": {"format": x.fmt, "path": path}})
        }).collect();
        let mut req = json!({});
        if let Some(st) = &state { req["state"] = json!(st); }
        if !no_token { req["vp_token"] = json!(token); }
        if !no_subm { req["presentation_submission"] = json!({"id": "sub-1", "definition_id": def_sent, "descriptor_map": map}); }
        let before = self.p.0.store.lock().unwrap().clone();
        self.arm(s);
        let r = match serde_json::from_value(req.clone()) {
            Ok(x) => block_on(vercre_verifier::response(self.p.clone(), &x)),
            // a presentation that cannot be read is refused
            Err(e) => { ensure!(!bad.is_empty(), "C29.not-read", "{e}: {req}"); self.log.push("respond: unreadable".into()); return Ok(()); }
        };
        if self.fault(&r, "response")? {
            // the last step removes the request
            if self.p.0.store.lock().unwrap().len() < before.len() { let x = self.reqs.remove(qi); self.dead.push(x); }
            return Ok(());
        }
        self.log.push(format!("respond vps:{:?} maps:{maps:?} state:{state:?} {bad:?} -> {}", vps.iter().map(Vec::len).collect::<Vec<_>>(), r.is_ok()));
        match (bad.is_empty(), r) {
            (true, Err(e)) => fail("C29.refused", format!("a proper response was refused: {e}; {req}; {:?}", self.log)),
            (false, Ok(_)) => fail("C29.accepted", format!("a response was accepted although {bad:?}: {req}; {:?}", self.log)),
            (false, Err(_)) => {
                self.n.refused += 1;
                ensure!(*self.p.0.store.lock().unwrap() == before, "C29.spent", "a refused response changed what is stored; {:?}", self.log);
                Ok(())
            }
            (true, Ok(_)) => {
                self.n.accepted += 1;
                if vps.len() > 1 || q.descs.len() > 1 { self.n.multi += 1; }
                let x = self.reqs.remove(qi);
                self.dead.push(x.clone());
                // the same response again
                let r = block_on(vercre_verifier::response(self.p.clone(), &de(&req)?));
                ensure!(r.is_err(), "C29.replayed", "a response was accepted twice; {:?}", self.log);
                let r = block_on(vercre_verifier::request_object(self.p.clone(), &de(&json!({"client_id": x.vid, "id": x.state}))?));
                ensure!(r.is_err(), "C29.not-closed", "an answered request can be fetched; {:?}", self.log);
                Ok(())
            }
        }
    }
}
fn history(id: &str, s: &mut Src) -> Result<Case, Fail> {
    let mut sim = Sim::new(s);
    sim.faulty = s.chance(1, 3);
    let r: R = (|| {
        for k in 0..s.size(3, 18) {
            let op = if k == 0 { 0 } else { s.weighted(if id == "C28" { &[6, 8, 2, 2, 2] } else { &[3, 3, 9, 1, 0] }) };
            sim.wrong = if (id == "C28") == (op != 2) { [5, 4, 1] } else { [12, 1, 0] };
            match op { 0 => sim.create(s)?, 1 => sim.fetch(s)?, 2 => sim.respond(s)?, 3 => sim.tick(s), _ => sim.metadata(s)? }
        }
        Ok(())
    })();
    let n = &sim.n;
    let deep = if id == "C28" { n.created > 0 && (n.fetched > 0 || n.refused > 0) } else { n.accepted > 0 && n.refused > 0 };
    match r {
        Err(e) if e.sig.starts_with(id) || e.sig.starts_with("panic") || e.sig == "fault-ignored" => Err(e),
        Err(e) => Ok(Case::new(false, e.sig.clone()).label(true, "stopped by another property")),
        Ok(()) => Ok(Case::new(deep, sim.log.iter().take(6).map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join(" | ")).label(n.fetched > 0, "fetched").label(n.accepted > 0, "accepted").label(n.multi > 0, "several credentials").label(n.refused > 0, "refused").label(n.expired > 0, "used after expiry").label(n.faults > 0, "fault").label(n.replays > 0, "replayed elsewhere")),
    }
}
/// One proper same-device request for an Employee credential and a way to answer it.
fn probe(token: impl Fn(&Key, &Key, &str, &str) -> Value) -> Option<bool> {
    set_clock(0);
    let issuer = issuer_key();
    let p = VProv::new(verifiers(1), &issuer, false);
    let req = json!({"client_id": IDS[0], "purpose": "p", "device_flow": "SameDevice", "client_id_scheme": "redirect_uri", "input_descriptors": [{"id": "d", "constraints": {"fields": [{"path": ["$.type"], "filter": {"type": "string", "const": "Employee"}}]}}]});
    let o = json!(block_on(vercre_verifier::create_request(p.clone(), &serde_json::from_value(req).ok()?)).ok()?)["request_object"].clone();
    let t = token(&issuer, &Key::new(51), o["nonce"].as_str()?, o["client_id"].as_str()?);
    let req = json!({"state": o["state"], "vp_token": [t], "presentation_submission": {"id": "s", "definition_id": o["presentation_definition"]["id"], "descriptor_map": [{"id": "d", "format": "jwt_vp", "path": "$", "path_nested": {"format": "jwt_vc", "path": "$.verifiableCredential[0]"}}]}});
    Some(block_on(vercre_verifier::response(p, &serde_json::from_value(req).ok()?)).is_ok())
}
pub fn run(id: &'static str) -> ! {
    let mut su = Suite::new(id, if id == "C28" { "a history in which a request was made and one fetched or refused" } else { "a history with a response accepted and one refused" });
    su.scale(if id == "C28" { 20 } else { 12 });
    su.assume("JOSE and DID crates are the kit's stand-ins (real Ed25519); presentations and credentials are JWTs made by the check; time is chrono's clock, moved by the check");
    su.check("histories", 5_000, 60_000, |s| history(id, s));
    if id == "C29" {
        let types = vec!["VerifiableCredential".to_string(), "Employee".to_string()];
        su.known_probe(|| {
            let ok = probe(|i, h, nonce, _| { let vc = i.jws(&head(i), &make_vc(i, h, &types, &BTreeMap::new(), None)); json!({"@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiablePresentation"], "verifiableCredential": [vc],
                "proof": {"type": "DataIntegrityProof", "cryptosuite": "eddsa-jcs-2022", "verificationMethod": h.kid, "proofPurpose": "authentication", "proofValue": "z1", "challenge": nonce}}) });
            if ok == Some(true) { fail("embedded-proof", "a presentation with a made-up embedded proof was accepted".into()) } else { Ok(()) }
        });
        su.known_probe(|| {
            let ok = probe(|i, h, nonce, aud| { let vc = i.jws(&head(i), &make_vc(i, h, &types, &BTreeMap::new(), None)); let thief = Key::new(60); json!(thief.jws(&head(&thief), &make_vp(&thief, &[vc], nonce, aud))) });
            if ok == Some(true) { fail("holder-binding", "a credential was accepted from someone who is not its subject".into()) } else { Ok(()) }
        });
    }
    su.finish()
}
