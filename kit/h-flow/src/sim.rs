//! A model of the issuer: what has been offered, authorized, granted and issued, and until when.
//! Every operation builds a request (well-formed, or with some things wrong), works out from the
//! model alone whether it has to be granted, calls the endpoint and compares.
use std::collections::{BTreeMap, BTreeSet};

use pbt::{block_on, ensure, ensure_eq, Fail, Src};
use serde::de::DeserializeOwned;
use serde_json::{json, Map, Value};
use vercre_openid::Error;

use crate::keys::{read_jws, strip_null, Key};
use crate::world::{Proofs, Prov, World, CODE, ISSUER, PRE, SUBJECTS};
use crate::{mdoc, sha};

pub type R = Result<(), Fail>;
const MIN5: i64 = 300_000;
const MIN10: i64 = 600_000;
const MIN15: i64 = 900_000;

#[derive(Clone)]
pub struct Offer { pub code: Option<String>, pub state: Option<String>, pub subject: Option<String>, pub cfgs: Vec<usize>, pub tx: Option<String>, pub exp: i64 }
pub struct Ref { pub id: String, offer: Offer, pub exp: i64 }
#[derive(Clone, Debug)]
pub struct Det { cfg: Option<usize>, json: Value, claims: Option<Vec<String>> }
#[derive(Clone, Debug)]
pub struct AuthReq { issuer: String, client: String, redirect: Option<String>, state: Option<String>, response_type: &'static str, verifier: String, challenge: String, details: Option<Vec<Det>>, scope: Option<String>, subject: String, issuer_state: Option<String> }
pub struct Par { uri: String, req: AuthReq, exp: i64 }
#[derive(Clone, Debug)]
pub struct Item { cfg: usize, detail: Option<Value>, ids: Vec<String>, claims: Option<Vec<String>> }
pub struct Code { code: String, client: String, redirect: String, verifier: String, subject: String, items: Vec<Item>, exp: i64 }
/// `exp`: honoured until then; `max`: refused after (a use may or may not extend the token).
pub struct Tok { pub tok: String, subject: String, creds: BTreeMap<String, usize>, asked: BTreeMap<String, Vec<Vec<String>>>, nonce: String, nonce_exp: i64, exp: i64, max: i64, old: Vec<String> }
pub struct Txn { id: String, tok: String, cands: Vec<String>, cfg: usize, keep: Option<Vec<String>>, did: Option<String>, nonce: String, exp: i64 }
#[derive(Default)]
pub struct Count { pub offers: u64, pub retrieved: u64, pub codes: u64, pub pars: u64, pub tokens: u64, pub issued: u64, pub mdl: u64, pub narrowed: u64, pub deferred: u64, pub collected: u64, pub notified: u64, pub registered: u64, pub refused: u64, pub badproof: u64, pub faults: u64, pub expired: u64 }

pub struct Sim {
    pub p: Prov, pub now: i64, pub offers: Vec<Offer>, pub refs: Vec<Ref>, pub pars: Vec<Par>, pub codes: Vec<Code>, pub toks: Vec<Tok>, pub txns: Vec<Txn>, pub notes: Vec<(String, String, i64)>,
    /// used keys that are good for nothing any more
    pub dead_refs: Vec<String>, pub dead_codes: Vec<(String, bool)>, pub dead_txns: Vec<String>,
    wallets: Vec<(String, Vec<String>, [bool; 2])>,
    /// the scope each client is registered with
    scopes: BTreeMap<String, Option<String>>,
    /// keys whose fate a failed provider call left unknown
    doubt: BTreeSet<String>,
    seen: BTreeSet<String>, pub n: Count, pub log: Vec<String>, pub faulty: bool, keys: Vec<Key>,
    /// how many things go wrong with a request
    pub wrong: [u64; 3],
}
fn de<T: DeserializeOwned>(v: &Value) -> Result<T, Fail> { serde_json::from_value(v.clone()).map_err(|e| Fail::new("C18.request-not-read", format!("{e}: {v}"))) }
fn code_of(e: &Error) -> String { serde_json::from_str::<Value>(&e.to_string()).ok().and_then(|v| v["error"].as_str().map(String::from)).unwrap_or_default() }
fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> { Err(Fail::new(sig, msg)) }
pub fn set_clock(ms: i64) { chrono::offset::VERIF_CLOCK_OFFSET_MS.with(|c| c.set(ms as u64)); }

impl Sim {
    pub fn new(w: World) -> Self {
        set_clock(0);
        let wallets = w.wallets.iter().map(|c| (c.id.clone(), c.redirects.clone(), [c.code_grant, c.code_response])).collect();
        let scopes = w.wallets.iter().map(|c| (c.id.clone(), c.scope.clone())).collect();
        let keys = vec![Key::new(21), Key::new(22), Key::new(23)];
        Self { p: Prov::new(w), now: 0, offers: vec![], refs: vec![], pars: vec![], codes: vec![], toks: vec![], txns: vec![], notes: vec![], dead_refs: vec![], dead_codes: vec![], dead_txns: vec![], wallets, scopes, doubt: BTreeSet::new(), seen: BTreeSet::new(), n: Count::default(), log: vec![], faulty: false, keys, wrong: [6, 3, 1] }
    }
    pub fn w(&self) -> &World { &self.p.0.w }
    /// A client may only have scopes the server supports.
    fn scope_ok(&self, client: &str) -> bool { self.scopes.get(client).is_some_and(|sc| sc.as_ref().is_some_and(|t| t.split_whitespace().all(|x| self.w().server["scopes_supported"].as_array().is_some_and(|l| l.iter().any(|y| y == x))))) }
    fn wrongs(&self, s: &mut Src) -> usize { s.weighted(&self.wrong) }
    /// A key nobody has been given before.
    fn fresh(&mut self, tag: &str, k: &str) -> R {
        ensure!(!k.is_empty(), &format!("{tag}.empty-key"), "an empty key was given out");
        ensure!(self.seen.insert(k.to_string()), &format!("{tag}.key-reused"), "{k} was given out twice; {:?}", self.log);
        Ok(())
    }
    fn note(&mut self, t: impl Into<String>) { self.log.push(t.into()); }
    fn arm(&mut self, s: &mut Src) { let n = (self.faulty && s.chance(1, 6)).then(|| 1 + s.upto(7)); self.p.arm(n); }
    /// A provider call failed: the request has to fail; what it was about is no longer known.
    fn fault<T>(&mut self, r: &Result<T, Error>, what: &str, keys: &[&str]) -> Result<bool, Fail> {
        let fired = self.p.fired();
        self.p.arm(None);
        if !fired { return Ok(false); }
        self.n.faults += 1;
        self.note(format!("{what}: fault"));
        ensure!(r.is_err(), "C27.fault-ignored", "{what} succeeded although the provider failed; {:?}", self.log);
        for k in keys { self.forget(k); self.doubt.insert(k.to_string()); }
        Ok(true)
    }
    pub fn forget(&mut self, k: &str) {
        self.offers.retain(|o| o.code.as_deref() != Some(k) && o.state.as_deref() != Some(k));
        self.refs.retain(|o| o.id != k);
        self.pars.retain(|o| o.uri != k);
        self.codes.retain(|o| o.code != k);
        self.toks.retain(|o| o.tok != k);
        self.txns.retain(|o| o.id != k);
        self.notes.retain(|o| o.0 != k);
    }
    /// Every key given out and still known, with its kind.
    fn any_key(&self, s: &mut Src, not: &str) -> Option<String> {
        let mut v: Vec<(&str, &String)> = vec![];
        v.extend(self.offers.iter().flat_map(|o| o.code.iter().chain(o.state.iter())).map(|k| ("offer", k)));
        v.extend(self.refs.iter().map(|k| ("ref", &k.id)));
        v.extend(self.pars.iter().map(|k| ("par", &k.uri)));
        v.extend(self.codes.iter().map(|k| ("code", &k.code)));
        v.extend(self.toks.iter().map(|k| ("tok", &k.tok)));
        v.extend(self.txns.iter().map(|k| ("txn", &k.id)));
        v.extend(self.notes.iter().map(|k| ("note", &k.0)));
        v.retain(|(k, _)| !not.split(' ').any(|n| n == *k));
        if v.is_empty() { None } else { Some(s.pick(&v).1.clone()) }
    }
    // ---- time --------------------------------------------------------------------------
    pub fn tick(&mut self, s: &mut Src) {
        let mut to = self.now + s.one(&[1, 30, 120, 200, 290, 310, 450, 590, 610, 700, 890, 910, 4000]) * 1000;
        let mut ends: Vec<i64> = vec![];
        ends.extend(self.offers.iter().map(|o| o.exp)); ends.extend(self.refs.iter().map(|o| o.exp)); ends.extend(self.pars.iter().map(|o| o.exp)); ends.extend(self.codes.iter().map(|o| o.exp));
        ends.extend(self.toks.iter().flat_map(|o| [o.exp, o.max, o.nonce_exp])); ends.extend(self.txns.iter().map(|o| o.exp)); ends.extend(self.notes.iter().map(|o| o.2));
        while ends.iter().any(|e| (e - to).abs() < 4000) { to += 4500; }
        self.note(format!("+{}s", (to - self.now) / 1000));
        self.now = to;
        set_clock(to);
    }
    fn live(&self, t: &Tok) -> Option<bool> { if self.now < t.exp { Some(true) } else if self.now > t.max { Some(false) } else { None } }
    /// An index of a list, mostly of something still good.
    fn choose(&self, s: &mut Src, ok: &[bool]) -> Option<usize> {
        if ok.is_empty() { return None; }
        let good: Vec<usize> = (0..ok.len()).filter(|i| ok[*i]).collect();
        if !good.is_empty() && s.chance(5, 6) { return Some(*s.pick(&good)); }
        Some(s.upto(ok.len() as u64 - 1) as usize)
    }
    // ---- offers ------------------------------------------------------------------------
    pub fn offer(&mut self, s: &mut Src) -> R {
        let w = self.w().clone();
        let mut bad: Vec<&str> = vec![];
        let mut cfgs: Vec<usize> = (0..w.cfgs.len()).collect();
        s.shuffle(&mut cfgs);
        cfgs.truncate(s.size(1, cfgs.len()));
        let (mut pre, mut code) = (s.chance(4, 5), s.chance(1, 2));
        if s.chance(1, 12) { (pre, code) = (false, false); }
        let mut subject = if pre || s.bool() { Some(w.people.keys().nth(s.upto(w.people.len() as u64 - 1) as usize).unwrap().clone()) } else { None };
        let mut ids: Vec<String> = cfgs.iter().map(|c| w.cfgs[*c].id.clone()).collect();
        let mut issuer = ISSUER.to_string();
        for _ in 0..self.wrongs(s) {
            match s.upto(4) {
                0 => { issuer = s.one(&["https://elsewhere.example", "", "https://issuer.example/"]).into(); bad.push("issuer"); }
                1 => { ids.clear(); cfgs.clear(); bad.push("no credentials"); }
                2 => { let at = s.size(0, ids.len()); ids.insert(at, s.one(&["Unknown", "", "employeeid_jwt_0"]).into()); bad.push("unsupported credential"); }
                3 => { subject = None; if pre { bad.push("nobody to pre-authorize"); } }
                _ => { subject = Some("nobody".into()); if pre { bad.push("unknown subject"); } }
            }
        }
        if pre && !w.grants.contains(&PRE) || code && !w.grants.contains(&CODE) { bad.push("grant not supported"); }
        if let (true, Some(p)) = (pre, &subject) { if cfgs.iter().any(|c| w.ids(p, *c).is_empty()) { bad.push("subject not authorized"); } }
        let tx_required = s.bool();
        let by_ref = s.chance(1, 3);
        let mut req = json!({"credential_issuer": issuer, "credential_configuration_ids": ids, "tx_code_required": tx_required, "send_type": if by_ref { "ByRef" } else { "ByVal" }});
        if let Some(p) = &subject { req["subject_id"] = json!(p); }
        if pre || code || s.bool() { let mut g = vec![]; if pre { g.push(PRE); } if code { g.push(CODE); } if s.bool() { g.reverse(); } req["grant_types"] = json!(g); }
        self.arm(s);
        let r = block_on(vercre_issuer::create_offer(self.p.clone(), de(&req)?));
        if self.fault(&r, "create_offer", &[])? { return Ok(()); }
        self.note(format!("offer {req} {bad:?} -> {}", r.is_ok()));
        let r = match (bad.is_empty(), r) {
            (true, Err(e)) => return fail("C21.refused", format!("a proper offer was refused: {e}; {req}")),
            (false, Ok(_)) => return fail("C21.accepted", format!("an offer was made although {bad:?}: {req}")),
            (false, Err(_)) => { self.n.refused += 1; return Ok(()); }
            (true, Ok(r)) => strip_null(json!(r)),
        };
        self.n.offers += 1;
        let tx = r["tx_code"].as_str().map(String::from);
        ensure_eq!(tx.is_some(), pre && tx_required, "C21.tx-code", "transaction code in {r} for {req}");
        if let Some(t) = &tx { ensure!(t.len() == 6 && t.bytes().all(|b| b.is_ascii_digit()), "C21.tx-code", "transaction code {t}"); }
        let mut o = Offer { code: None, state: None, subject, cfgs, tx, exp: self.now + MIN5 };
        if by_ref {
            let uri = r["credential_offer_uri"].as_str().unwrap_or_default().to_string();
            ensure!(r.get("credential_offer").is_none(), "C21.by-ref", "the offer itself in {r}");
            let id = uri.strip_prefix(&format!("{ISSUER}/credential_offer/")).map(String::from).ok_or_else(|| Fail::new("C21.by-ref", format!("offer uri {uri}")))?;
            self.fresh("C21", &id)?;
            o.code = pre.then(String::new); o.state = code.then(String::new);
            let exp = o.exp;
            self.refs.push(Ref { id, offer: o, exp });
        } else {
            ensure!(r.get("credential_offer_uri").is_none(), "C21.by-val", "a uri in {r}");
            self.learn(r["credential_offer"].clone(), o, pre, code)?;
        }
        Ok(())
    }
    /// Compares an offer a wallet receives with what was asked for.
    fn learn(&mut self, got: Value, mut o: Offer, pre: bool, code: bool) -> R {
        let w = self.w().clone();
        let g = &got["grants"];
        let (c, st) = (g[PRE]["pre-authorized_code"].as_str(), g[CODE]["issuer_state"].as_str());
        ensure_eq!((c.is_some(), st.is_some()), (pre, code), "C21.grants", "grants of {got}");
        let mut want = json!({"credential_issuer": ISSUER, "credential_configuration_ids": o.cfgs.iter().map(|c| w.cfgs[*c].id.clone()).collect::<Vec<_>>()});
        if pre {
            want["grants"][PRE] = json!({"pre-authorized_code": c});
            if o.tx.is_some() { want["grants"][PRE]["tx_code"] = json!({"input_mode": "numeric", "length": 6, "description": g[PRE]["tx_code"]["description"]}); }
        }
        if code { want["grants"][CODE] = json!({"issuer_state": st}); }
        if let Some(a) = &w.auth_server { for k in [PRE, CODE] { if want["grants"].get(k).is_some() { want["grants"][k]["authorization_server"] = json!(a); } } }
        ensure_eq!(strip_null(got.clone()), strip_null(want), "C21.content", "offer for {:?}", o.subject);
        if let Some(t) = &o.tx { ensure!(!got.to_string().contains(&format!("\"{t}\"")), "C21.tx-code-leaked", "{got}"); }
        o.code = c.map(String::from); o.state = st.map(String::from);
        if let Some(c) = &o.code { self.fresh("C21", &c.clone())?; }
        if let Some(c) = &o.state { if o.code.as_ref() != Some(c) { self.fresh("C21", &c.clone())?; } }
        if o.code.is_some() || o.state.is_some() { self.offers.push(o); }
        Ok(())
    }
    pub fn retrieve(&mut self, s: &mut Src) -> R {
        let ok: Vec<bool> = self.refs.iter().map(|r| self.now < r.exp).collect();
        let mut bad: Vec<&str> = vec![];
        let mut issuer = ISSUER;
        let mut hit = self.choose(s, &ok);
        let mut id = hit.map(|i| self.refs[i].id.clone()).unwrap_or_else(|| "nowhere".into());
        if self.wrongs(s) > 0 || hit.is_none() {
            match s.upto(3) {
                0 if hit.is_some() => { issuer = "https://elsewhere.example"; bad.push("issuer"); }
                1 if !self.dead_refs.is_empty() => { id = s.one(&self.dead_refs); hit = None; bad.push("already retrieved"); }
                2 => match self.any_key(s, "ref") { Some(k) => { id = k; hit = None; bad.push("not an offer"); } None => { id = "nowhere".into(); hit = None; bad.push("unknown"); } },
                _ => { id = format!("{id}x"); hit = None; bad.push("unknown"); }
            }
        }
        if let Some(i) = hit { if self.now > self.refs[i].exp { bad.push("expired"); self.n.expired += 1; } }
        let req = json!({"credential_issuer": issuer, "id": id});
        self.arm(s);
        let r = block_on(vercre_issuer::credential_offer(self.p.clone(), de(&req)?));
        if self.fault(&r, "credential_offer", &[&id])? { return Ok(()); }
        self.note(format!("retrieve {req} {bad:?} -> {}", r.is_ok()));
        match (bad.is_empty(), r) {
            (true, Err(e)) => fail("C21.not-retrieved", format!("an offer could not be retrieved: {e}; {:?}", self.log)),
            (false, Ok(r)) => fail("C21.accepted-retrieval", format!("an offer was handed out although {bad:?}: {}; {:?}", json!(r), self.log)),
            (false, Err(_)) => { self.n.refused += 1; self.forget(&id); Ok(()) }
            (true, Ok(r)) => {
                self.n.retrieved += 1;
                let x = self.refs.remove(hit.unwrap());
                self.dead_refs.push(x.id);
                let (pre, code) = (x.offer.code.is_some(), x.offer.state.is_some());
                self.learn(strip_null(json!(r))["credential_offer"].clone(), x.offer, pre, code)
            }
        }
    }
    // ---- authorization -----------------------------------------------------------------
    fn claims(&self, s: &mut Src, cfg: usize) -> Option<Vec<String>> {
        if s.chance(2, 3) { return None; }
        let c = self.w().cfgs[cfg].claims.clone()?;
        let mut v: Vec<String> = c.iter().filter(|(_, m)| **m || s.bool()).map(|(k, _)| k.clone()).collect();
        if s.chance(1, 8) { let i = s.upto(v.len() as u64) as usize; if i < v.len() { v.remove(i); } else { v.push("no_such_claim".into()); } }
        Some(v)
    }
    fn claims_ok(&self, cfg: usize, req: &Option<Vec<String>>) -> bool {
        match (req, &self.w().cfgs[cfg].claims) { (Some(r), Some(c)) => r.iter().all(|k| c.contains_key(k)) && c.iter().all(|(k, m)| !*m || r.contains(k)), _ => true }
    }
    fn detail(&self, s: &mut Src, cfg: usize) -> Det {
        let claims = self.claims(s, cfg);
        let c = &self.w().cfgs[cfg];
        let mut json = if s.bool() { c.by_id(claims.as_deref()) } else { c.format(claims.as_deref()) };
        json["type"] = json!("openid_credential");
        Det { cfg: Some(cfg), json, claims }
    }
    fn auth_req(&self, s: &mut Src) -> AuthReq {
        let w = self.w();
        let c = s.pick(&self.wallets).clone();
        let verifier: String = (0..s.size(8, 50)).map(|_| s.one(&['a', 'B', '7', '-', '_', '.', '~'])).collect();
        let mut offer = None;
        let with: Vec<&Offer> = self.offers.iter().filter(|o| o.state.is_some()).collect();
        if !with.is_empty() && s.chance(2, 3) { offer = Some((*s.pick(&with)).clone()); }
        let mut cfgs: Vec<usize> = offer.as_ref().map_or_else(|| (0..w.cfgs.len()).collect(), |o| o.cfgs.clone());
        s.shuffle(&mut cfgs);
        cfgs.truncate(s.size(1, cfgs.len()));
        let mut details: Vec<Det> = vec![];
        let mut scopes: Vec<String> = vec![];
        for c in cfgs {
            match &w.cfgs[c].scope {
                // asking with a scope asks for every configuration of that scope
                Some(sc) if s.chance(2, 5) && offer.as_ref().map_or(true, |o| (0..w.cfgs.len()).all(|i| w.cfgs[i].scope.as_ref() != Some(sc) || o.cfgs.contains(&i))) => { if !scopes.contains(sc) { scopes.push(sc.clone()); } }
                _ => details.push(self.detail(s, c)),
            }
        }
        // a scope with nothing left to ask for is left open
        scopes.retain(|sc| (0..w.cfgs.len()).any(|i| w.cfgs[i].scope.as_ref() == Some(sc) && !details.iter().any(|d| d.cfg == Some(i))));
        if details.is_empty() && scopes.is_empty() { details.push(self.detail(s, 0)); }
        let subject = offer.as_ref().and_then(|o| o.subject.clone()).unwrap_or_else(|| w.people.keys().nth(s.upto(w.people.len() as u64 - 1) as usize).unwrap().clone());
        let mut r = AuthReq {
            issuer: ISSUER.into(), client: c.0, redirect: Some(s.one(&c.1)), state: s.opt(|s| pbt::gen::ident(s)), response_type: "code",
            challenge: sha::b64(&sha::sha256(verifier.as_bytes())), verifier, details: (!details.is_empty()).then_some(details), scope: (!scopes.is_empty()).then(|| scopes.join(" ")), subject, issuer_state: offer.and_then(|o| o.state),
        };
        for _ in 0..self.wrongs(s) {
            match s.upto(12) {
                0 => r.issuer = s.one(&["https://elsewhere.example", ""]).into(),
                1 => r.client = s.one(&["nobody", "", "wallet"]).into(),
                2 => r.redirect = s.one(&[None, Some("https://evil.example/cb".into()), Some("https://wallet0.example/cb0/".into()), Some("https://wallet1.example/cb9".into())]),
                3 => r.response_type = s.one(&["vp_token", "id_token vp_token"]),
                4 => r.challenge = "c".repeat(s.one(&[0, 1, 42, 129, 200])),
                5 => { r.details = None; r.scope = None; }
                6 => r.subject = s.one(&["", "nobody", "alice", "bob", "carol"]).into(),
                7 => r.details.get_or_insert_with(Vec::new).push(Det { cfg: None, json: json!({"type": "openid_credential", "credential_configuration_id": "Unknown"}), claims: None }),
                8 => r.details.get_or_insert_with(Vec::new).insert(0, Det { cfg: None, json: json!({"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "OtherCredential"]}}), claims: None }),
                9 => r.scope = Some(match &r.scope { Some(sc) if s.bool() => format!("{sc} unknown"), _ => s.one(&["unknown", "scope", "scopea"]).to_string() }),
                10 => r.issuer_state = Some("unknown-state".into()),
                11 => { if let Some(k) = self.any_key(s, "offer") { r.issuer_state = Some(k); } }
                _ => { let w2 = s.pick(&self.wallets).clone(); r.client = w2.0; }
            }
        }
        r
    }
    fn auth_json(r: &AuthReq) -> Value {
        let mut j = json!({"credential_issuer": r.issuer, "response_type": r.response_type, "client_id": r.client, "code_challenge": r.challenge, "code_challenge_method": "S256", "subject_id": r.subject});
        for (k, v) in [("redirect_uri", &r.redirect), ("state", &r.state), ("scope", &r.scope), ("issuer_state", &r.issuer_state)] { if let Some(v) = v { j[k] = json!(v); } }
        if let Some(d) = &r.details { j["authorization_details"] = json!(d.iter().map(|d| d.json.clone()).collect::<Vec<_>>()); }
        j
    }
    /// What is wrong with an authorization request, and what it is for.
    fn judge(&self, r: &AuthReq, pushed: bool) -> (Vec<String>, Vec<Item>) {
        let w = self.w();
        let mut bad: Vec<String> = vec![];
        let mut no = |b: bool, t: &str| if b { bad.push(t.to_string()); };
        no(r.issuer != ISSUER, "issuer");
        let c = self.wallets.iter().find(|c| c.0 == r.client);
        no(c.is_none(), "client");
        if let Some(c) = c {
            no(!self.scope_ok(&c.0), "client scope"); no(!c.2[0], "client grant"); no(!c.2[1], "client response type");
            no(!r.redirect.as_ref().is_some_and(|u| c.1.contains(u)), "redirect");
        }
        no(w.par_required && !pushed, "has to be pushed");
        no(!w.code_supported, "server response type");
        no(!w.grants.contains(&CODE), "server grant");
        no(!w.s256, "challenge method");
        no(r.response_type != "code", "response type");
        no(!(43..=128).contains(&r.challenge.len()), "challenge");
        no(r.details.is_none() && r.scope.is_none(), "nothing requested");
        no(r.subject.is_empty(), "no subject");
        if let Some(st) = &r.issuer_state {
            match self.offers.iter().find(|o| o.state.as_ref() == Some(st)) {
                None => no(true, "issuer state"),
                Some(o) => { no(self.now > o.exp, "issuer state expired"); no(o.subject.as_ref().is_some_and(|p| *p != r.subject), "offered to someone else"); }
            }
        }
        let mut items: Vec<Item> = vec![];
        for d in r.details.iter().flatten() {
            match d.cfg {
                None => no(true, "unsupported credential"),
                Some(i) => { no(!self.claims_ok(i, &d.claims), "claims"); items.push(Item { cfg: i, detail: Some(d.json.clone()), ids: w.ids(&r.subject, i), claims: d.claims.clone() }); }
            }
        }
        for sc in r.scope.iter().flat_map(|t| t.split_whitespace()) {
            let of: Vec<usize> = (0..w.cfgs.len()).filter(|i| w.cfgs[*i].scope.as_deref() == Some(sc) && !r.details.iter().flatten().any(|d| d.cfg == Some(*i))).collect();
            no(of.is_empty(), "unsupported scope");
            items.extend(of.into_iter().map(|i| Item { cfg: i, detail: None, ids: w.ids(&r.subject, i), claims: None }));
        }
        no(items.iter().any(|i| i.ids.is_empty()), "subject not authorized");
        (bad, items)
    }
    pub fn push(&mut self, s: &mut Src) -> R {
        let r = self.auth_req(s);
        let (mut bad, _) = self.judge(&r, true);
        // whether the subject holds what is requested is decided when the request is used
        let unsure = bad.iter().all(|b| b == "subject not authorized") && !bad.is_empty();
        bad.retain(|b| b != "subject not authorized");
        let req = Self::auth_json(&r);
        self.arm(s);
        let x = block_on(vercre_issuer::par(self.p.clone(), de(&req)?));
        if self.fault(&x, "par", &[])? { return Ok(()); }
        self.note(format!("push {req} {bad:?} -> {}", x.is_ok()));
        if r.issuer_state.as_ref().is_some_and(|k| self.doubt.contains(k)) { return Ok(()); }
        match (bad.is_empty(), x) {
            (true, Err(_)) if unsure => Ok(()),
            (true, Err(e)) => fail("C22.par-refused", format!("a proper pushed request was refused: {e}; {:?}", self.log)),
            (false, Ok(_)) => fail("C22.par-accepted", format!("a pushed request was accepted although {bad:?}; {:?}", self.log)),
            (false, Err(_)) => { self.n.refused += 1; Ok(()) }
            (true, Ok(x)) => {
                self.n.pars += 1;
                ensure_eq!(x.expires_in, 600, "C22.par-lifetime", "{req}");
                self.fresh("C22", &x.request_uri)?;
                self.pars.push(Par { uri: x.request_uri, req: r, exp: self.now + MIN10 });
                Ok(())
            }
        }
    }
    pub fn authorize(&mut self, s: &mut Src) -> R {
        let want_par = self.w().par_required || s.chance(1, 3);
        let (req, r, bad, items, uri) = if want_par && !self.pars.is_empty() {
            let ok: Vec<bool> = self.pars.iter().map(|p| self.now < p.exp).collect();
            let i = self.choose(s, &ok).unwrap();
            let uri = self.pars[i].uri.clone();
            if self.wrongs(s) == 2 {
                let k = match s.upto(1) { 0 => self.any_key(s, "par").unwrap_or_else(|| "unknown".into()), _ => format!("{uri}x") };
                (json!({"request_uri": k}), None, vec!["unknown request".to_string()], vec![], None)
            } else {
                let p = &self.pars[i];
                let (mut bad, items) = self.judge(&p.req, true);
                if self.now > p.exp { bad.push("expired".into()); self.n.expired += 1; }
                (json!({"request_uri": uri}), Some(self.pars[i].req.clone()), bad, items, Some(uri))
            }
        } else {
            let r = self.auth_req(s);
            let (bad, items) = self.judge(&r, false);
            (Self::auth_json(&r), Some(r), bad, items, None)
        };
        self.arm(s);
        let x = block_on(vercre_issuer::authorize(self.p.clone(), de(&req)?));
        let st = r.as_ref().and_then(|r| r.issuer_state.clone());
        if self.fault(&x, "authorize", &[uri.as_deref().unwrap_or(""), st.as_deref().unwrap_or("")])? { return Ok(()); }
        self.note(format!("authorize {req} {bad:?} -> {}", x.is_ok()));
        if let Some(u) = &uri { self.forget(u); }
        if st.as_ref().is_some_and(|k| self.doubt.contains(k)) { return Ok(()); }
        match (bad.is_empty(), x) {
            (true, Err(e)) => fail("C22.refused", format!("a proper request was refused: {e}; {:?}", self.log)),
            (false, Ok(_)) => fail("C22.accepted", format!("a request was authorized although {bad:?}; {:?}", self.log)),
            (false, Err(_)) => { self.n.refused += 1; Ok(()) }
            (true, Ok(x)) => {
                self.n.codes += 1;
                let r = r.unwrap();
                ensure_eq!((&x.state, Some(&x.redirect_uri)), (&r.state, r.redirect.as_ref()), "C22.echo", "state and redirect of {req}");
                self.fresh("C22", &x.code)?;
                // an offer is good for one authorization
                if let Some(st) = &st {
                    if let Some(o) = self.offers.iter().find(|o| o.state.as_ref() == Some(st)) { if o.code.as_ref() == Some(st) { self.dead_codes.push((st.clone(), true)); } }
                    self.forget(st);
                }
                self.codes.push(Code { code: x.code, client: r.client, redirect: r.redirect.unwrap(), verifier: r.verifier, subject: r.subject, items, exp: self.now + MIN5 });
                Ok(())
            }
        }
    }
    // ---- token -------------------------------------------------------------------------
    pub fn token(&mut self, s: &mut Src) -> R {
        let w = self.w().clone();
        let pre_ok: Vec<usize> = (0..self.offers.len()).filter(|i| self.offers[*i].code.is_some()).collect();
        let use_code = !self.codes.is_empty() && (pre_ok.is_empty() || s.bool());
        let mut bad: Vec<String> = vec![];
        let mut wrong = self.wrongs(s);
        let mut req = json!({"credential_issuer": ISSUER});
        let key: String;
        let (subject, items, mut invalid_grant);
        invalid_grant = false;
        // who asks
        let known = s.pick(&self.wallets).clone();
        if wrong > 0 && s.chance(1, 3) || (pre_ok.is_empty() && self.codes.is_empty()) {
            // with something that is not a usable code
            wrong = 0;
            let pre = s.bool();
            let (k, why) = match s.upto(2) {
                0 if !self.dead_codes.is_empty() => (s.pick(&self.dead_codes).0.clone(), "used"),
                1 => match self.any_key(s, if pre { "offer" } else { "code" }) { Some(k) => (k, "other key"), None => ("unknown".into(), "unknown") },
                _ => ("unknown".into(), "unknown"),
            };
            invalid_grant = why != "other key";
            bad.push(why.into());
            // an auth-only offer is not pre-authorized
            req["client_id"] = json!(known.0);
            if pre { req["grant_type"] = json!(PRE); req["pre-authorized_code"] = json!(k); }
            else { req["grant_type"] = json!(CODE); req["code"] = json!(k); req["redirect_uri"] = json!(known.1[0]); req["code_verifier"] = json!("abc"); }
            key = k; subject = String::new(); items = vec![];
        } else if use_code {
            let ok: Vec<bool> = self.codes.iter().map(|c| self.now < c.exp).collect();
            let c = &self.codes[self.choose(s, &ok).unwrap()];
            if self.now > c.exp { bad.push("expired".into()); self.n.expired += 1; }
            let (mut client, mut redirect, mut verifier) = (Some(c.client.clone()), Some(c.redirect.clone()), Some(c.verifier.clone()));
            let mut pre = false;
            for _ in 0..wrong {
                match s.upto(5) {
                    0 => { client = s.one(&[None, Some("nobody".into()), Some(String::new()), Some("wallet-0".into()), Some("wallet-1".into())]); }
                    1 => { redirect = s.one(&[None, Some("https://evil.example/cb".into()), Some(format!("{}/", c.redirect)), Some(known.1[0].clone())]); }
                    2 => { verifier = s.one(&[None, Some(String::new()), Some(format!("{}a", c.verifier)), Some(c.verifier.to_uppercase() + "z"), Some(sha::b64(&sha::sha256(c.verifier.as_bytes())))]); }
                    3 => { req["credential_issuer"] = json!("https://elsewhere.example"); bad.push("issuer".into()); }
                    4 => { pre = true; bad.push("not pre-authorized".into()); }
                    _ => {}
                }
            }
            if client.as_ref() != Some(&c.client) { bad.push("client".into()); }
            if redirect.as_ref() != Some(&c.redirect) { bad.push("redirect".into()); }
            if verifier.as_ref() != Some(&c.verifier) { bad.push("verifier".into()); }
            if !self.scope_ok(&c.client) { bad.push("client scope".into()); }
            if !w.grants.contains(&CODE) { bad.push("grant".into()); }
            if let Some(x) = client { req["client_id"] = json!(x); }
            if pre { req["grant_type"] = json!(PRE); req["pre-authorized_code"] = json!(c.code); }
            else {
                req["grant_type"] = json!(CODE); req["code"] = json!(c.code);
                if let Some(x) = redirect { req["redirect_uri"] = json!(x); }
                if let Some(x) = verifier { req["code_verifier"] = json!(x); }
                // asking again for what is authorized changes nothing
                if s.chance(1, 4) && c.items.iter().all(|i| i.detail.is_some()) { req["authorization_details"] = json!(c.items.iter().map(|i| i.detail.clone().unwrap()).collect::<Vec<_>>()); }
            }
            key = c.code.clone(); subject = c.subject.clone(); items = c.items.clone();
        } else {
            let ok: Vec<bool> = pre_ok.iter().map(|i| self.now < self.offers[*i].exp).collect();
            let o = self.offers[pre_ok[self.choose(s, &ok).unwrap()]].clone();
            if self.now > o.exp { bad.push("expired".into()); self.n.expired += 1; }
            let mut client = if w.anonymous && s.bool() { s.one(&[None, Some(String::new())]) } else { Some(known.0.clone()) };
            let mut tx = o.tx.clone();
            let mut code = false;
            let subject_ = o.subject.clone().unwrap_or_default();
            let mut its: Vec<Item> = o.cfgs.iter().map(|c| Item { cfg: *c, detail: Some(Value::Null), ids: w.ids(&subject_, *c), claims: None }).collect();
            let mut det: Option<Vec<Value>> = None;
            if s.chance(1, 3) {
                // a part of what was offered
                s.shuffle(&mut its);
                its.truncate(s.size(1, its.len()));
                det = Some(its.iter_mut().map(|i| {
                    let claims = self.claims(s, i.cfg);
                    if !self.claims_ok(i.cfg, &claims) { bad.push("claims".into()); }
                    i.claims.clone_from(&claims);
                    let mut j = w.cfgs[i.cfg].by_id(claims.as_deref()); j["type"] = json!("openid_credential"); j
                }).collect());
            }
            for _ in 0..wrong {
                match s.upto(5) {
                    0 => client = s.one(&[None, Some(String::new()), Some("nobody".into())]),
                    1 => tx = match &o.tx { Some(t) => s.one(&[None, Some(String::new()), Some(t.chars().rev().collect::<String>() + "0"), Some(format!("{:06}", (t.parse::<u64>().unwrap_or(0) + 1) % 1_000_000)), Some(format!("0{t}"))]), None => s.one(&[Some("123456".into()), Some(String::new())]) },
                    2 => { let more: Vec<usize> = (0..w.cfgs.len()).filter(|c| !o.cfgs.contains(c)).collect(); let mut d = if more.is_empty() || s.bool() { json!({"credential_configuration_id": "Unknown"}) } else { let c = &w.cfgs[*s.pick(&more)]; if s.bool() { c.by_id(None) } else { c.format(None) } }; d["type"] = json!("openid_credential"); det.get_or_insert_with(Vec::new).push(d); bad.push("not offered".into()); }
                    3 => { req["credential_issuer"] = json!("https://elsewhere.example"); bad.push("issuer".into()); }
                    4 => { code = true; bad.push("not authorized".into()); }
                    _ => {}
                }
            }
            match client.as_deref() {
                None | Some("") => if !w.anonymous { bad.push("anonymous".into()); },
                Some(c) => { if !self.scope_ok(c) { bad.push("client".into()); } }
            }
            if tx != o.tx { bad.push("tx_code".into()); if bad.len() == 1 { invalid_grant = true; } }
            if !w.grants.contains(&PRE) { bad.push("grant".into()); }
            if let Some(x) = client { req["client_id"] = json!(x); }
            let k = o.code.clone().unwrap();
            if code { req["grant_type"] = json!(CODE); req["code"] = json!(k); req["code_verifier"] = json!("abc"); }
            else { req["grant_type"] = json!(PRE); req["pre-authorized_code"] = json!(k); if let Some(x) = tx { req["tx_code"] = json!(x); } }
            if let Some(d) = det { req["authorization_details"] = json!(d); }
            key = k; subject = subject_; items = its;
        }
        self.arm(s);
        let r = block_on(vercre_issuer::token(self.p.clone(), de(&req)?));
        if self.fault(&r, "token", &[&key])? { return Ok(()); }
        self.note(format!("token {req} {bad:?} -> {}", r.is_ok()));
        // a code is spent by any attempt to use it
        if self.codes.iter().any(|c| c.code == key) { self.dead_codes.push((key.clone(), false)); }
        if self.offers.iter().any(|c| c.code.as_ref() == Some(&key)) { self.dead_codes.push((key.clone(), true)); }
        self.forget(&key);
        match (bad.is_empty(), r) {
            (true, Err(e)) => fail("C23.refused", format!("a proper request was refused: {e}; {:?}", self.log)),
            (false, Ok(r)) => fail("C23.accepted", format!("a token was issued although {bad:?}: {}; {:?}", json!(r), self.log)),
            (false, Err(e)) => {
                self.n.refused += 1;
                if invalid_grant && bad.len() == 1 { ensure_eq!(code_of(&e), "invalid_grant", "C23.error-code", "{bad:?}"); }
                Ok(())
            }
            (true, Ok(r)) => {
                self.n.tokens += 1;
                let j = strip_null(json!(r));
                ensure_eq!((&j["token_type"], &j["expires_in"], &j["c_nonce_expires_in"]), (&json!("Bearer"), &json!(900), &json!(600)), "C23.response", "{j}");
                let nonce = j["c_nonce"].as_str().unwrap_or_default().to_string();
                self.fresh("C23", &r.access_token)?;
                self.fresh("C23", &nonce)?;
                // what the response says is granted is what was authorized
                let norm = |v: &Value| { let mut v = v.clone(); if let Some(a) = v["credential_identifiers"].as_array_mut() { a.sort_by_key(Value::to_string); } v };
                let mut got: Vec<Value> = j["authorization_details"].as_array().into_iter().flatten().map(norm).collect();
                let mut want: Vec<Value> = items.iter().filter_map(|i| i.detail.as_ref().map(|d| {
                    let mut d = if d.is_null() { let mut m = w.cfgs[i.cfg].by_id(None); m["type"] = json!("openid_credential"); m } else { d.clone() };
                    d["credential_identifiers"] = json!(i.ids);
                    norm(&d)
                })).collect();
                if items.iter().any(|i| i.detail == Some(Value::Null)) { for g in &mut got { let o = g.as_object_mut().unwrap(); o.remove("claims"); o.remove("credential_definition"); } }
                for v in [&mut got, &mut want] { v.sort_by_key(|v| serde_json::to_string(&sorted(v)).unwrap()); }
                ensure_eq!(got, want, "C23.granted", "authorization_details of the token response to {req}");
                let creds = items.iter().flat_map(|i| i.ids.iter().map(|id| (id.clone(), i.cfg))).collect();
                let mut asked: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
                for i in &items { if let Some(c) = &i.claims { for id in &i.ids { asked.entry(id.clone()).or_default().push(c.clone()); } } }
                self.toks.push(Tok { tok: r.access_token, subject, creds, asked, nonce, nonce_exp: self.now + MIN10, exp: self.now + MIN15, max: self.now + MIN15, old: vec![] });
                Ok(())
            }
        }
    }
    // ---- credential --------------------------------------------------------------------
    fn prove(&self, s: &mut Src, key: &Key, nonce: Option<&str>, old: &[String], flaw: Option<u64>) -> String {
        let mut head = json!({"alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": key.kid});
        let mut claims = json!({"aud": ISSUER, "iat": chrono::Utc::now().timestamp()});
        if let Some(n) = nonce { claims["nonce"] = json!(n); }
        if s.bool() { claims["iss"] = json!("wallet-0"); }
        let mut signer = key.clone();
        match flaw {
            None => {}
            Some(0) => head["typ"] = json!(s.one(&["jwt", "JWT", "oauth-authz-req+jwt", "openid4vci-proof"])),
            Some(1) => claims["aud"] = json!(s.one(&["https://elsewhere.example", "", "https://issuer.example/", "https://issuer.exampl", "https://issuer.example.evil.example"])),
            Some(2) => claims["nonce"] = if !old.is_empty() && s.chance(2, 3) { json!(s.pick(old)) } else { json!(s.one(&["", "nonce"])) },
            Some(3) => { claims.as_object_mut().unwrap().remove("nonce"); }
            Some(4) => signer = Key::new(99),
            Some(5) => { head.as_object_mut().unwrap().remove("kid"); head["jwk"] = json!({"kty": "OKP", "crv": "Ed25519", "x": sha::b64(&key.public())}); }
            Some(6) => { head["kid"] = json!(s.one(&["did:web:unknown.example#key-0", "", "nonsense"])); }
            Some(7) => return s.one(&["", "a.b.c", "not a jwt", "é.é.é"]).into(),
            Some(8) => { let t = signer.jws(&head, &claims); claims["iat"] = json!(1); let p: Vec<&str> = t.split('.').collect(); return format!("{}.{}.{}", p[0], sha::b64(claims.to_string().as_bytes()), p[2]); }
            Some(9) => { claims["nonce"] = json!(format!("{}x", nonce.unwrap_or_default())); }
            _ => { let t = signer.jws(&head, &claims); let p: Vec<&str> = t.split('.').collect(); return format!("{}.{}.", p[0], p[1]); }
        }
        signer.jws(&head, &claims)
    }
    fn renew(&mut self, tok: &str, nonce: String) {
        let now = self.now;
        if let Some(t) = self.toks.iter_mut().find(|t| t.tok == tok) { let o = std::mem::replace(&mut t.nonce, nonce); t.old.push(o); t.nonce_exp = now + MIN10; t.max = t.max.max(now + MIN15); }
    }
    fn new_nonce(&mut self, e: &Error, tok: &str) -> Result<bool, Fail> {
        if let Error::InvalidProof { c_nonce, c_nonce_expires_in, .. } = e {
            self.fresh("C24", c_nonce)?;
            ensure_eq!(*c_nonce_expires_in, 600, "C24.nonce-lifetime", "{e}");
            self.renew(tok, c_nonce.clone());
            return Ok(true);
        }
        Ok(false)
    }
    pub fn credential(&mut self, s: &mut Src) -> R {
        let w = self.w().clone();
        let idx: Vec<usize> = (0..self.toks.len()).filter(|i| self.live(&self.toks[*i]).is_some() && !self.toks[*i].creds.is_empty()).collect();
        let ok: Vec<bool> = idx.iter().map(|i| self.live(&self.toks[*i]) == Some(true) && self.now < self.toks[*i].nonce_exp).collect();
        let mut bad: Vec<String> = vec![];
        let Some(ti) = self.choose(s, &ok).map(|i| idx[i]) else {
            // nobody has a token
            let k = self.any_key(s, "tok").unwrap_or_else(|| "unknown".into());
            let key = self.keys[0].clone();
            let req = json!({"credential_issuer": ISSUER, "access_token": k, "credential_identifier": "ds-0-0", "proof": {"proof_type": "jwt", "jwt": self.prove(s, &key, Some("n"), &[], None)}});
            self.p.arm(None);
            let r = block_on(vercre_issuer::credential(self.p.clone(), de(&req)?));
            ensure!(r.is_err(), "C24.accepted", "a credential for a key that is no access token: {req}; {:?}", self.log);
            return Ok(());
        };
        let (tok, subject, creds, nonce, old) = { let t = &self.toks[ti]; (t.tok.clone(), t.subject.clone(), t.creds.clone(), t.nonce.clone(), t.old.clone()) };
        if self.live(&self.toks[ti]) == Some(false) { bad.push("token expired".into()); self.n.expired += 1; }
        let nonce_expired = self.now > self.toks[ti].nonce_exp;
        let ids: Vec<&String> = creds.keys().collect();
        let mut ident = (*s.pick(&ids)).clone();
        let mut cfg = creds[&ident];
        let mut issuer = ISSUER.to_string();
        let mut access = tok.clone();
        let key = s.one(&self.keys);
        let (mut flaws, mut no_proof, mut empty) = (vec![], false, false);
        let mut keep: Option<Vec<String>> = None;
        let pend = |id: &str| self.p.0.pending.lock().unwrap().contains(&(subject.clone(), id.to_string()));
        let mut cands = vec![ident.clone()];
        let mut by_format = false;
        if s.chance(1, 3) {
            let all: Vec<String> = creds.iter().filter(|(_, c)| **c == cfg).map(|(k, _)| k.clone()).collect();
            if all.iter().all(|k| pend(k) == pend(&ident)) {
                by_format = true;
                cands = all;
                if s.bool() { keep = Some(if w.cfgs[cfg].typ.is_some() { vec!["given_name", "email", "degree", "address"] } else { vec!["org.iso.18013.5.1", "org.iso.18013.5.1.aamva"] }.into_iter().filter(|_| s.bool()).map(String::from).collect()); }
            }
        }
        let mut fmt_cfg = Some(cfg);
        for _ in 0..self.wrongs(s) {
            match s.upto(9) {
                0 => { let others: Vec<String> = w.people.values().flat_map(|p| p.keys()).filter(|k| !creds.contains_key(*k)).cloned().collect(); by_format = false; ident = if others.is_empty() || s.chance(1, 3) { s.one(&["ds-9-9", "", "ds-0"]).into() } else { s.one(&others) }; bad.push("not authorized".into()); }
                1 => { let free: Vec<usize> = (0..w.cfgs.len()).filter(|c| !creds.values().any(|x| x == c)).collect(); by_format = true; fmt_cfg = if free.is_empty() { None } else { Some(*s.pick(&free)) }; bad.push("not authorized".into()); }
                2 => { issuer = s.one(&["https://elsewhere.example", ""]).into(); bad.push("issuer".into()); }
                3 => { access = match s.upto(1) { 0 => self.any_key(s, "tok").unwrap_or_else(|| "unknown".into()), _ => format!("{tok}x") }; bad.push("no such token".into()); }
                4 => no_proof = true,
                5 => empty = true,
                _ => flaws.push(s.upto(10)),
            }
        }
        if let Some(c) = fmt_cfg { cfg = c; }
        let c = &w.cfgs[cfg];
        let mut req = json!({"credential_issuer": issuer, "access_token": access});
        let what = if by_format { fmt_cfg.map_or_else(|| json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "NoSuchCredential"]}}), |c| w.cfgs[c].format(keep.as_deref())) } else { json!({"credential_identifier": ident}) };
        for (k, v) in what.as_object().unwrap() { req[k] = v.clone(); }
        let need = c.proofs == Proofs::Jwt;
        let mut proof_bad = false;
        if no_proof || (!need && s.bool()) { proof_bad = true; }
        else if empty { req["proofs"] = json!({"jwt": []}); proof_bad = true; }
        else if !flaws.is_empty() {
            proof_bad = true;
            let b = self.prove(s, &key, Some(&nonce), &old, Some(flaws[0]));
            if s.chance(2, 3) { req["proof"] = json!({"proof_type": "jwt", "jwt": b}); }
            else { let g = self.prove(s, &key, Some(&nonce), &old, None); let mut l = vec![b, g]; if s.bool() { l.reverse(); } req["proofs"] = json!({"jwt": l}); }
        } else {
            let g = self.prove(s, &key, Some(&nonce), &old, None);
            if s.chance(3, 4) { req["proof"] = json!({"proof_type": "jwt", "jwt": g}); } else { let h = self.prove(s, &key, Some(&nonce), &old, None); req["proofs"] = json!({"jwt": if s.bool() { vec![g] } else { vec![g, h] }}); }
        }
        if c.proofs == Proofs::Other { bad.push("proof type".into()); }
        if need && nonce_expired { bad.push("nonce expired".into()); self.n.expired += 1; }
        let open = !need && nonce_expired && bad.is_empty();
        let refuse_proof = need && proof_bad;
        let is_pending = pend(&cands[0]);
        self.arm(s);
        let r = block_on(vercre_issuer::credential(self.p.clone(), de(&req)?));
        if self.fault(&r, "credential", &[&tok])? { return Ok(()); }
        self.note(format!("credential {} {bad:?} proof:{} -> {}", short(&req), if refuse_proof { "bad" } else { "ok" }, r.is_ok()));
        match r {
            Err(_) if open => Ok(()),
            Err(e) => {
                ensure!(!bad.is_empty() || refuse_proof, "C24.refused", "a proper request was refused: {e}; {:?}", self.log);
                self.n.refused += 1;
                let told = self.new_nonce(&e, &tok)?;
                if bad.is_empty() { self.n.badproof += 1; ensure!(told, "C24.invalid-proof", "no new nonce with the refusal of a proof: {e}; {:?}", self.log); }
                Ok(())
            }
            Ok(r) => {
                ensure!(bad.is_empty(), "C24.accepted", "a credential was issued although {bad:?}: {}; {:?}", json!(r), self.log);
                ensure!(!refuse_proof, "C24.accepted-proof", "a credential was issued on a bad proof (flaws {flaws:?}, none {no_proof}, empty {empty}): {}; {:?}", short(&req), self.log);
                let j = strip_null(json!(r));
                let did = need.then(|| key.did.clone());
                if is_pending {
                    let id = j["transaction_id"].as_str().map(String::from);
                    let Some(id) = id else { return fail("C26.not-deferred", format!("issued although the claims are pending: {j}; {:?}", self.log)) };
                    ensure!(j.get("credential").is_none() && j.get("credentials").is_none(), "C26.not-deferred", "{j}");
                    self.fresh("C26", &id)?;
                    if let Some(n) = j["c_nonce"].as_str() { self.renew(&tok, n.to_string()); }
                    self.n.deferred += 1;
                    self.txns.push(Txn { id, tok, cands, cfg, keep, did, nonce, exp: self.now + MIN15 });
                    return Ok(());
                }
                ensure!(j.get("transaction_id").is_none(), "C26.deferred", "deferred although nothing is pending: {j}");
                self.issued(&j, &tok, &subject, cfg, &cands, keep.as_deref(), did.as_deref())
            }
        }
    }
    /// A credential response that carries a credential.
    #[allow(clippy::too_many_arguments)]
    fn issued(&mut self, j: &Value, tok: &str, subject: &str, cfg: usize, cands: &[String], keep: Option<&[String]>, did: Option<&str>) -> R {
        self.n.issued += 1;
        if keep.is_some() { self.n.narrowed += 1; }
        let n = j["c_nonce"].as_str().unwrap_or_default().to_string();
        self.fresh("C24", &n)?;
        ensure!((596..=600).contains(&j["c_nonce_expires_in"].as_i64().unwrap_or(-1)), "C24.nonce-lifetime", "{j}");
        let note = j["notification_id"].as_str().unwrap_or_default().to_string();
        self.fresh("C26", &note)?;
        self.renew(tok, n);
        let exp = self.now + MIN15;
        self.notes.push((note, tok.to_string(), exp));
        let text = j["credential"].as_str().ok_or_else(|| Fail::new("C25.no-credential", format!("{j}")))?;
        let mut first = None;
        for id in cands {
            match self.content(text, subject, cfg, id, keep, did) { Ok(()) => return Ok(()), Err(e) => { first.get_or_insert(e); } }
            // KNOWN-FINDING (probe in C25): the claims chosen at authorization are not what is issued; they may well be
            let asked = self.toks.iter().find(|t| t.tok == tok).and_then(|t| t.asked.get(id).cloned()).unwrap_or_default();
            for a in asked { let k: Vec<String> = a.into_iter().filter(|c| keep.map_or(true, |k| k.contains(c))).collect(); if self.content(text, subject, cfg, id, Some(&k), did).is_ok() { return Ok(()); } }
        }
        Err(first.unwrap())
    }
    fn content(&mut self, text: &str, subject: &str, cfg: usize, id: &str, keep: Option<&[String]>, did: Option<&str>) -> R {
        let w = self.w().clone();
        let d = &w.people[subject][id];
        let mut claims = d.claims.clone();
        if let Some(k) = keep { claims.retain(|n, _| k.contains(n)); }
        let c = &w.cfgs[cfg];
        let Some(typ) = &c.typ else {
            self.n.mdl += 1;
            return mdoc::examine(text, &w.key, &claims).map_err(|e| Fail::new(&format!("C25.mdoc-{}", e.sig), e.msg));
        };
        let now = chrono::Utc::now().timestamp();
        let (h, j, signed) = read_jws(text, &w.key).ok_or_else(|| Fail::new("C25.not-a-jws", text.into()))?;
        ensure!(signed, "C25.signature", "not signed by the issuer: {j}");
        ensure_eq!((&h["kid"], &h["alg"]), (&json!(w.key.kid), &json!("EdDSA")), "C25.header", "{h}");
        let vc = strip_null(j["vc"].clone());
        let mut subj = claims;
        match did { Some(d) => { subj.insert("id".into(), json!(d)); ensure_eq!(j["sub"], json!(d), "C25.subject", "sub of {j}"); } None => { if let Some(i) = vc["credentialSubject"].get("id") { subj.insert("id".into(), i.clone()); } } }
        ensure_eq!(vc["credentialSubject"], strip_null(Value::Object(subj)), "C25.claims", "claims of {subject} {id} (kept {keep:?})");
        let types: Vec<Value> = match &vc["type"] { Value::Array(a) => a.clone(), v => vec![v.clone()] };
        ensure_eq!(types, vec![json!("VerifiableCredential"), json!(typ)], "C25.type", "{vc}");
        let iss = if vc["issuer"].is_string() { &vc["issuer"] } else { &vc["issuer"]["id"] };
        ensure_eq!((iss, &j["iss"]), (&json!(ISSUER), &json!(ISSUER)), "C25.issuer", "{vc}");
        ensure_eq!(vc.get("credentialStatus").cloned(), d.status.clone(), "C25.status", "status of {subject} {id}");
        ensure!((now - 30..=now + 1).contains(&j["iat"].as_i64().unwrap_or(0)), "C25.iat", "issued at {} now {now}", j["iat"]);
        if let Some(f) = vc["validFrom"].as_str() { let f = chrono::DateTime::parse_from_rfc3339(f).map(|d| d.timestamp()).unwrap_or(0); ensure!((now - 30..=now + 1).contains(&f), "C25.valid-from", "valid from {f} now {now}"); }
        ensure!(vc.get("validUntil").is_none() && j.get("exp").is_none(), "C25.valid-until", "{vc}");
        ensure!(vc["@context"].as_array().is_some_and(|a| a.len() >= 2 && a[0].as_str().is_some_and(|t| t.starts_with("https://www.w3.org/"))), "C25.context", "{vc}");
        ensure!(vc["id"].as_str().is_some_and(|i| !i.is_empty()) && j["jti"] == vc["id"], "C25.id", "{j}");
        for (k, m) in [("name", "name"), ("description", "description")] {
            let want: Vec<(Value, Value)> = c.display.iter().flatten().filter(|d| d.get(m).is_some()).map(|d| (d[m].clone(), d["locale"].clone())).collect();
            let got: Vec<(Value, Value)> = match &vc[k] { Value::Null => vec![], Value::Array(a) => a.clone(), v => vec![v.clone()] }.iter().map(|v| if v.is_string() { (v.clone(), Value::Null) } else { (v["@value"].clone(), v["@language"].clone()) }).collect();
            ensure_eq!(got, want, "C25.display", "{k} of {vc}");
        }
        Ok(())
    }
    // ---- deferred, notification, registration, metadata ---------------------------------
    pub fn deferred(&mut self, s: &mut Src) -> R {
        if self.txns.is_empty() && self.dead_txns.is_empty() { return Ok(()); }
        let w = self.w().clone();
        let ok: Vec<bool> = self.txns.iter().map(|t| self.now < t.exp).collect();
        let mut hit = self.choose(s, &ok);
        let mut bad: Vec<&str> = vec![];
        let (mut id, mut access) = hit.map_or_else(|| ("unknown".into(), "unknown".into()), |i| (self.txns[i].id.clone(), self.txns[i].tok.clone()));
        if hit.is_none() || self.wrongs(s) > 0 {
            match s.upto(3) {
                0 if !self.dead_txns.is_empty() => { id = s.one(&self.dead_txns); if let Some(t) = self.toks.first() { access = t.tok.clone(); } hit = None; bad.push("already collected"); }
                1 => { id = self.any_key(s, "txn").unwrap_or_else(|| "unknown".into()); hit = None; bad.push("no such transaction"); }
                2 if hit.is_some() => { access = match s.upto(1) { 0 => self.any_key(s, "tok").unwrap_or_else(|| "unknown".into()), _ => "unknown".into() }; bad.push("no such token"); }
                3 if hit.is_some() && w.cfgs[self.txns[hit.unwrap()].cfg].proofs == Proofs::Jwt && self.toks.iter().any(|t| t.tok != access) => {
                    let others: Vec<String> = self.toks.iter().filter(|t| t.tok != access).map(|t| t.tok.clone()).collect();
                    access = s.one(&others); bad.push("token of someone else");
                }
                _ => { id = format!("{id}x"); hit = None; bad.push("no such transaction"); }
            }
        }
        let mut open = false;
        let mut ready = false;
        if let Some(i) = hit {
            let x = &self.txns[i];
            if self.now > x.exp { bad.push("expired"); self.n.expired += 1; }
            match self.toks.iter().find(|t| t.tok == x.tok) {
                None => open = true,
                Some(t) => {
                    if access == x.tok { match self.live(t) { Some(true) => {} Some(false) => bad.push("token expired"), None => open = true } }
                    // KNOWN-FINDING (probe in C26): the proof is checked again, so a new nonce makes the transaction useless
                    if t.nonce != x.nonce || self.now > t.nonce_exp { open = true; }
                    let pend: Vec<bool> = x.cands.iter().map(|c| self.p.0.pending.lock().unwrap().contains(&(t.subject.clone(), c.clone()))).collect();
                    ready = pend.iter().all(|p| !p);
                    if !ready && pend.iter().any(|p| !p) { open = true; }
                }
            }
        }
        let req = json!({"credential_issuer": ISSUER, "access_token": access, "transaction_id": id});
        self.arm(s);
        let r = block_on(vercre_issuer::deferred(self.p.clone(), de(&req)?));
        if self.fault(&r, "deferred", &[&id, &access])? { return Ok(()); }
        self.note(format!("deferred {req} {bad:?} open:{open} ready:{ready} -> {}", r.is_ok()));
        match r {
            Err(e) => {
                self.new_nonce(&e, &access)?;
                if bad.is_empty() && !open {
                    if ready { return fail("C26.not-collected", format!("a deferred credential could not be collected: {e}; {:?}", self.log)); }
                    ensure_eq!(code_of(&e), "issuance_pending", "C26.pending-code", "{e}");
                }
                self.n.refused += 1;
                if open { self.forget(&id); }
                Ok(())
            }
            Ok(r) => {
                ensure!(bad.is_empty(), "C26.accepted", "a deferred credential was handed out although {bad:?}: {}; {:?}", json!(r), self.log);
                ensure!(open || ready, "C26.accepted-pending", "issued although still pending: {}; {:?}", json!(r), self.log);
                self.n.collected += 1;
                let x = self.txns.remove(hit.unwrap());
                self.dead_txns.push(x.id.clone());
                let j = strip_null(json!(r));
                match self.toks.iter().find(|t| t.tok == x.tok).map(|t| t.subject.clone()) {
                    Some(p) => self.issued(&j, &x.tok, &p, x.cfg, &x.cands, x.keep.as_deref(), x.did.as_deref()),
                    None => Ok(()),
                }
            }
        }
    }
    pub fn notify(&mut self, s: &mut Src) -> R {
        let ok: Vec<bool> = self.notes.iter().map(|t| self.now < t.2).collect();
        let Some(i) = self.choose(s, &ok) else { return Ok(()) };
        let (mut id, tok, exp) = self.notes[i].clone();
        // an expired notification is left open, and so is a repeated one
        let open = self.now > exp;
        let mut bad = false;
        if self.wrongs(s) > 0 { bad = true; id = match s.upto(1) { 0 => self.any_key(s, "note").unwrap_or_else(|| "unknown".into()), _ => format!("{id}x") }; }
        let mut req = json!({"credential_issuer": ISSUER, "access_token": tok, "notification_id": id, "event": s.one(&["credential_accepted", "credential_failure", "credential_deleted"])});
        if s.bool() { req["event_description"] = json!(pbt::gen::ident(s)); }
        self.arm(s);
        let r = block_on(vercre_issuer::notification(self.p.clone(), de(&req)?));
        if self.fault(&r, "notification", &[&id])? { return Ok(()); }
        self.note(format!("notify {req} bad:{bad} -> {}", r.is_ok()));
        if bad { ensure!(r.is_err(), "C26.accepted-notification", "{req}: {:?}", self.log); self.n.refused += 1; return Ok(()); }
        self.forget(&id);
        if !open { if let Err(e) = r { return fail("C26.notification-refused", format!("{e}; {:?}", self.log)); } self.n.notified += 1; }
        Ok(())
    }
    pub fn register(&mut self, s: &mut Src) -> R {
        let idx: Vec<usize> = (0..self.toks.len()).filter(|i| self.live(&self.toks[*i]).is_some()).collect();
        let ok: Vec<bool> = idx.iter().map(|i| self.live(&self.toks[*i]) == Some(true)).collect();
        let mut bad: Vec<&str> = vec![];
        let mut tok = "unknown".to_string();
        match self.choose(s, &ok) { Some(i) => { tok = self.toks[idx[i]].tok.clone(); if !ok[i] { bad.push("token expired"); self.n.expired += 1; } } None => bad.push("no token") }
        if self.wrongs(s) > 0 { tok = self.any_key(s, "tok").unwrap_or_else(|| "unknown".into()); bad.push("no such token"); }
        let (sc, cg, cr) = (if s.chance(3, 4) { s.one(&["openid", "credential", "openid  credential"]) } else { s.one(&["openid root", "root", "open", "credential_offer openid"]) }, s.chance(3, 4), s.chance(3, 4));
        let uris: Vec<String> = (0..s.size(1, 2)).map(|i| format!("https://new.example/cb{i}")).collect();
        let client = json!({"client_id": "", "redirect_uris": uris, "grant_types": if cg { json!([CODE, PRE]) } else { json!([PRE]) }, "response_types": if cr { json!(["code"]) } else { json!([]) },
            "scope": sc, "client_name": pbt::gen::ident(s)});
        let mut req = client.clone();
        req["credential_issuer"] = json!(ISSUER); req["access_token"] = json!(tok);
        let before = self.p.0.clients.lock().unwrap().len();
        self.arm(s);
        let r = block_on(vercre_issuer::register(self.p.clone(), de(&req)?));
        if self.fault(&r, "register", &[])? { return Ok(()); }
        self.note(format!("register {req} {bad:?} -> {}", r.is_ok()));
        let after = self.p.0.clients.lock().unwrap().len();
        match (bad.is_empty(), r) {
            (true, Err(e)) => fail("C26.registration-refused", format!("{e}; {:?}", self.log)),
            (false, Ok(_)) => fail("C26.accepted-registration", format!("a client was registered although {bad:?}; {:?}", self.log)),
            (false, Err(_)) => { self.n.refused += 1; ensure_eq!(after, before, "C26.accepted-registration", "a client was registered by a refused request"); Ok(()) }
            (true, Ok(r)) => {
                self.n.registered += 1;
                ensure_eq!(after, before + 1, "C26.not-registered", "clients");
                let mut j = strip_null(json!(r));
                let id = j["client_id"].as_str().unwrap_or_default().to_string();
                ensure!(self.p.0.clients.lock().unwrap().contains_key(&id), "C26.registered-id", "client id {id}: {j}");
                j["client_id"] = json!("");
                ensure_eq!(j, client, "C26.registered", "registered client");
                self.scopes.insert(id.clone(), Some(sc.to_string()));
                self.wallets.push((id, uris, [cg, cr]));
                Ok(())
            }
        }
    }
    pub fn metadata(&mut self, s: &mut Src) -> R {
        let bad = self.wrongs(s) > 0;
        let id = if bad { "https://elsewhere.example" } else { ISSUER };
        let req = json!({"credential_issuer": id});
        self.arm(s);
        let r = block_on(vercre_issuer::metadata(self.p.clone(), de(&req)?));
        if self.fault(&r, "metadata", &[])? { return Ok(()); }
        ensure_eq!(r.is_ok(), !bad, "C26.metadata", "metadata of {id}");
        if let Ok(r) = r { ensure_eq!(strip_null(json!(r)), self.w().issuer, "C26.metadata", "issuer metadata"); }
        self.arm(s);
        let r = block_on(vercre_issuer::oauth_server(self.p.clone(), de(&req)?));
        if self.fault(&r, "oauth_server", &[])? { return Ok(()); }
        ensure_eq!(r.is_ok(), !bad, "C26.server-metadata", "metadata of {id}");
        if let Ok(r) = r { ensure_eq!(strip_null(json!(r))["authorization_server"], self.w().server, "C26.server-metadata", "server metadata"); }
        Ok(())
    }
    /// The operator changes what the authorization server supports.
    pub fn reconfigure(&mut self, s: &mut Src) {
        let Some(i) = std::sync::Arc::get_mut(&mut self.p.0) else { return };
        let w = &mut i.w;
        match s.upto(6) {
            4 => { let l = s.one(&[json!(["openid", "credential"]), json!(["credential", "offline", "openid"]), json!(["openid"]), json!(["credential"]), json!([]), json!(["openid credential"])]); w.server["scopes_supported"] = l; }
            5 => { w.code_supported = s.chance(2, 3); w.server["response_types_supported"] = if w.code_supported { s.one(&[json!(["code"]), json!(["vp_token", "code"])]) } else { s.one(&[json!(["vp_token"]), json!([])]) }; }
            6 => { w.s256 = s.chance(2, 3); w.server["code_challenge_methods_supported"] = if w.s256 { json!(["S256"]) } else { json!([]) }; }
            0 | 1 => { w.grants = s.one(&[vec![PRE], vec![CODE], vec![], vec![PRE, CODE], vec![CODE, PRE]]); w.server["grant_types_supported"] = json!(w.grants); }
            2 => { w.anonymous = s.bool(); w.server["pre-authorized_grant_anonymous_access_supported"] = json!(w.anonymous); }
            _ => { w.par_required = s.bool(); w.server["require_pushed_authorization_requests"] = json!(w.par_required); }
        }
        let t = format!("now supported: {:?} anonymous:{} par:{} scopes:{} code:{} s256:{}", w.grants, w.anonymous, w.par_required, w.server["scopes_supported"], w.code_supported, w.s256);
        self.note(t);
    }
    /// Everything one person could be given now has to be approved first.
    pub fn hold(&mut self, s: &mut Src) {
        let Some(p) = (if self.toks.is_empty() { None } else { Some(s.pick(&self.toks).subject.clone()) }) else { return };
        let all: Vec<String> = self.w().people.get(&p).map(|d| d.keys().cloned().collect()).unwrap_or_default();
        let mut pend = self.p.0.pending.lock().unwrap();
        for k in all { pend.insert((p.clone(), k)); }
    }
    /// The issuer's back office approves or withholds a dataset.
    pub fn approve(&mut self, s: &mut Src) {
        let all: Vec<(String, String)> = self.w().people.iter().flat_map(|(p, d)| d.keys().map(move |k| (p.clone(), k.clone()))).collect();
        if all.is_empty() { return; }
        let mut pend = self.p.0.pending.lock().unwrap();
        // what somebody is waiting for is usually approved
        if s.chance(2, 3) { if let Some((p, c)) = self.txns.last().and_then(|x| self.toks.iter().find(|t| t.tok == x.tok).map(|t| (t.subject.clone(), x.cands.clone()))) { for c in c { pend.remove(&(p.clone(), c)); } return; } }
        if s.bool() { let waiting: Vec<_> = pend.iter().cloned().collect(); if !waiting.is_empty() { let x = s.one(&waiting); pend.remove(&x); return; } }
        let x = s.one(&all);
        if !pend.remove(&x) { pend.insert(x); }
    }
    pub fn known_subjects(&self) -> &[&str] { &SUBJECTS }
}
fn short(v: &Value) -> String { let mut m: Map<String, Value> = v.as_object().cloned().unwrap_or_default(); m.remove("credential_issuer"); Value::Object(m).to_string() }
fn sorted(v: &Value) -> Value {
    match v { Value::Object(o) => { let m: BTreeMap<_, _> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect(); json!(m) } Value::Array(a) => Value::Array(a.iter().map(sorted).collect()), v => v.clone() }
}
