//! C21-C27: histories of an issuer.
use pbt::{block_on, Case, Fail, Src, Suite};
use serde::de::DeserializeOwned;
use serde_json::{json, Value};

use crate::keys::{read_jws, Key};
use crate::sha;
use crate::sim::{Count, Sim};
use crate::world::{Proofs, World, CODE, ISSUER};

fn weights(id: &str) -> [u64; 12] {
    match id {
        "C21" => [8, 8, 0, 2, 3, 0, 0, 0, 0, 0, 2, 0],
        "C22" => [4, 1, 5, 10, 3, 0, 0, 0, 1, 0, 2, 0],
        "C23" => [7, 1, 1, 5, 12, 2, 0, 0, 0, 0, 2, 0],
        "C24" => [3, 1, 0, 2, 5, 14, 1, 0, 0, 0, 2, 1],
        "C25" => [3, 0, 0, 2, 5, 14, 2, 0, 0, 0, 0, 2],
        "C26" => [3, 0, 0, 1, 4, 8, 8, 5, 4, 2, 2, 5],
        _ => [4, 2, 2, 4, 7, 9, 4, 2, 1, 1, 3, 2],
    }
}
fn focus(id: &str) -> &'static [usize] {
    match id { "C21" => &[0, 1], "C22" => &[2, 3], "C23" => &[4], "C24" | "C25" => &[5], "C26" => &[6, 7, 8, 9], _ => &[] }
}
fn step(sim: &mut Sim, op: usize, s: &mut Src) -> Result<(), Fail> {
    match op {
        0 => sim.offer(s), 1 => sim.retrieve(s), 2 => sim.push(s), 3 => sim.authorize(s), 4 => sim.token(s), 5 => sim.credential(s),
        6 => sim.deferred(s), 7 => sim.notify(s), 8 => sim.register(s), 9 => sim.metadata(s),
        10 => { sim.tick(s); Ok(()) } _ => { sim.approve(s); Ok(()) }
    }
}
fn deep(id: &str, n: &Count) -> bool {
    match id {
        "C21" => n.offers > 0 && (n.retrieved > 0 || n.tokens > 0), "C22" => n.codes > 0 && n.refused > 0, "C23" => n.tokens > 0 && n.refused > 0,
        "C24" => n.issued > 0 && n.refused > 0, "C25" => n.issued > 0, "C26" => n.collected + n.notified + n.registered > 0, _ => n.issued > 0 && (n.faults > 0 || n.expired > 0 || n.refused > 2),
    }
}
/// Whether a failure is one of the property's.
fn ours(id: &str, e: &Fail) -> bool {
    let tag = e.sig.split('.').next().unwrap_or("");
    tag == id || e.sig.starts_with("panic") || id == "C27" && (e.sig.contains("accepted") || e.sig.contains("C25"))
}
fn history(id: &str, s: &mut Src) -> Result<Case, Fail> {
    let open = match id { "C21" | "C22" | "C23" => s.chance(1, 2), _ => s.chance(4, 5) };
    let mut sim = Sim::new(World::new(s, open));
    let wt = weights(id);
    let fo = focus(id);
    sim.faulty = id == "C27";
    let r = (|| {
        // usually somebody gets as far as a token
        if matches!(id, "C24" | "C25" | "C26" | "C27") && s.chance(4, 5) {
            sim.wrong = [1, 0, 0];
            for _ in 0..3 { sim.offer(s)?; sim.retrieve(s).ok(); if !sim.offers.is_empty() { break; } }
            sim.token(s)?;
        }
        for _ in 0..s.size(4, 28) {
            if matches!(id, "C26" | "C27") && s.chance(1, 8) {
                // somebody has to wait
                sim.hold(s);
                sim.wrong = [12, 1, 0];
                for op in [5, 6, 11, 6] { step(&mut sim, op, s)?; }
                continue;
            }
            if !open && s.chance(1, 10) { sim.reconfigure(s); }
            let op = s.weighted(&wt);
            // what is not in focus is mostly done properly
            sim.wrong = if id == "C25" { [20, 1, 0] } else if fo.contains(&op) { [5, 4, 1] } else if id == "C27" { [6, 2, 1] } else { [12, 1, 0] };
            step(&mut sim, op, s)?;
        }
        Ok(())
    })();
    let n = &sim.n;
    let show = sim.log.iter().take(6).map(|l| l.chars().take(160).collect::<String>()).collect::<Vec<_>>().join(" | ");
    match r {
        Err(e) if ours(id, &e) => Err(e),
        Err(e) => Ok(Case::new(false, e.sig.clone()).label(true, "stopped by another property")),
        Ok(()) => Ok(Case::new(deep(id, n), show).label(n.issued > 0, "issued").label(n.mdl > 0, "mdl").label(n.narrowed > 0, "narrowed").label(n.deferred > 0, "deferred").label(n.collected > 0, "collected").label(n.badproof > 0, "bad proof refused")
            .label(n.retrieved > 0, "retrieved").label(n.codes > 0, "code").label(n.pars > 0, "pushed").label(n.tokens > 0, "token").label(n.expired > 0, "used after expiry").label(n.faults > 0, "fault").label(n.notified > 0, "notified").label(n.registered > 0, "registered").label(n.refused > 0, "refused")),
    }
}
pub fn run(id: &'static str) -> ! {
    let rule = match id {
        "C21" => "a history in which an offer was made and retrieved or used", "C22" => "a history with a request authorized and one refused", "C23" => "a history with a token granted and a request refused",
        "C24" => "a history with a credential issued and a request refused", "C25" => "a history in which a credential was issued", "C26" => "a history with a deferred credential collected, a notification or a registration",
        _ => "a history in which a credential was issued and a provider call failed, something was used after its time, or requests were refused",
    };
    let mut su = Suite::new(id, rule);
    su.scale(match id { "C21" | "C22" | "C23" => 24, _ => 15 });
    su.assume("JOSE, DID and COSE crates are the kit's stand-ins (real Ed25519); the provider answers at once; time is chrono's clock, moved by the check");
    let (q, t) = if id == "C27" { (5_000, 60_000) } else { (4_000, 50_000) };
    su.check("histories", q, t, |s| history(id, s));
    if id == "C25" { su.known_probe(|| probe_claims().map_or(Ok(()), Err)); }
    if id == "C26" { su.known_probe(|| probe_deferred().map_or(Ok(()), Err)); }
    su.finish()
}

/// A world with one person who holds one simple credential with at least two claims.
fn simple() -> (Sim, String) {
    for i in 0.. {
        let mut s = Src::random(i);
        let w = World::new(&mut s, true);
        let c = &w.cfgs[0];
        let Some((id, d)) = w.people["alice"].iter().find(|(_, d)| d.cfg == 0) else { continue };
        let id = id.clone();
        if c.typ.is_some() && c.proofs == Proofs::Jwt && c.claims.as_ref().is_some_and(|m| m.values().all(|v| !v)) && d.claims.contains_key("email") && d.claims.contains_key("degree") && d.status.is_none() { return (Sim::new(w), id); }
    }
    unreachable!()
}
fn call<T: DeserializeOwned>(v: Value) -> Option<T> { serde_json::from_value(v).ok() }
/// A token for the person's credential, with a choice of claims.
fn token_for(sim: &Sim, keep: Option<&[String]>) -> Option<(String, String)> {
    let w = sim.w();
    let mut d = w.cfgs[0].by_id(keep);
    d["type"] = json!("openid_credential");
    let verifier = "abcdefgh";
    let req = json!({"credential_issuer": ISSUER, "response_type": "code", "client_id": w.wallets[0].id, "redirect_uri": w.wallets[0].redirects[0], "code_challenge": sha::b64(&sha::sha256(verifier.as_bytes())),
        "code_challenge_method": "S256", "authorization_details": [d], "subject_id": "alice"});
    let a = block_on(vercre_issuer::authorize(sim.p.clone(), call(req)?)).ok()?;
    let req = json!({"credential_issuer": ISSUER, "client_id": w.wallets[0].id, "grant_type": CODE, "code": a.code, "code_verifier": verifier, "redirect_uri": w.wallets[0].redirects[0]});
    let t = block_on(vercre_issuer::token(sim.p.clone(), call(req)?)).ok()?;
    Some((t.access_token.clone(), json!(t)["c_nonce"].as_str()?.to_string()))
}
fn ask(sim: &Sim, tok: &str, id: &str, nonce: &str) -> Option<Result<Value, vercre_openid::Error>> {
    let k = Key::new(21);
    let jwt = k.jws(&json!({"alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": k.kid}), &json!({"aud": ISSUER, "iat": 1, "nonce": nonce}));
    Some(block_on(vercre_issuer::credential(sim.p.clone(), call(json!({"credential_issuer": ISSUER, "access_token": tok, "credential_identifier": id, "proof": {"proof_type": "jwt", "jwt": jwt}}))?)).map(|r| json!(r)))
}
/// The claims chosen at authorization are those of the credential issued.
fn probe_claims() -> Option<Fail> {
    let (sim, id) = simple();
    let (tok, nonce) = token_for(&sim, Some(&["email".to_string()]))?;
    let r = ask(&sim, &tok, &id, &nonce)?.ok()?;
    let (_, j, _) = read_jws(r["credential"].as_str()?, &sim.w().key)?;
    j["vc"]["credentialSubject"].get("degree").map(|_| Fail::new("authorized-claims", format!("only email was authorized: {j}")))
}
/// A deferred credential can be collected after the wallet got a new nonce for another request.
fn probe_deferred() -> Option<Fail> {
    let (sim, id) = simple();
    let (tok, nonce) = token_for(&sim, None)?;
    sim.p.0.pending.lock().unwrap().insert(("alice".into(), id.clone()));
    let r = ask(&sim, &tok, &id, &nonce)?.ok()?;
    let txn = r["transaction_id"].as_str()?.to_string();
    let _ = ask(&sim, &tok, &id, "a wrong nonce")?.err()?;
    sim.p.0.pending.lock().unwrap().clear();
    block_on(vercre_issuer::deferred(sim.p.clone(), call(json!({"credential_issuer": ISSUER, "access_token": tok, "transaction_id": txn}))?)).err().map(|e| Fail::new("deferred-nonce", format!("{e}")))
}
