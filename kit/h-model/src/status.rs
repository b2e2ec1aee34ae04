//! C13 status lists and C14 status list credentials.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

use pbt::{block_on, ensure, ensure_eq, gen, Case, Fail, Src, Suite};
use serde::Serialize;
use serde_json::{json, Value};
use vercre_core::Kind;
use vercre_status::bitstring::{bitstring, credential, Error};
use vercre_w3c_vc::model::StatusPurpose;
use vercre_w3c_vc::proof::{self, Payload, Verify};

use crate::keys::{read_jws, Docs, Key};
use crate::sha;

const BITS: usize = 131_072;
fn purpose(s: &mut Src) -> StatusPurpose { s.one(&[StatusPurpose::Revocation, StatusPurpose::Suspension, StatusPurpose::Message]) }
// the configuration and log types cannot be named outside the crate: they are read from JSON
#[derive(Serialize)]
struct Config { purpose: StatusPurpose, list: usize, size: usize }
#[derive(Serialize)]
struct LogEntry { credential_id: String, subject_id: String, status: Vec<StatusValue> }
#[derive(Serialize)]
struct StatusValue { purpose: StatusPurpose, list_index: usize, value: u8 }
fn config(purpose: StatusPurpose, list: usize, size: usize) -> Config { Config { purpose, list, size } }
fn as_<T: serde::de::DeserializeOwned>(v: &impl Serialize) -> T { serde_json::from_value(json!(v)).expect("configuration") }
fn make(cfg: &Config, log: &[LogEntry]) -> anyhow::Result<String> { bitstring(&as_(cfg), &as_::<Vec<_>>(&log)) }

/// Expands a published list: multibase `u`, base64url, gzip, most significant bit first.
fn expand(list: &str) -> Result<Vec<bool>, Fail> {
    let bad = |m: &str| Fail::new("not-expandable", format!("{m}: {}", list.chars().take(80).collect::<String>()));
    let b = list.strip_prefix('u').ok_or_else(|| bad("no multibase prefix u"))?;
    let z = sha::unb64(b).ok_or_else(|| bad("not base64url without padding"))?;
    let mut raw = vec![];
    flate2::read::GzDecoder::new(&z[..]).read_to_end(&mut raw).map_err(|e| bad(&format!("not gzip: {e}")))?;
    Ok(raw.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect())
}
struct Log { entries: Vec<LogEntry>, want: BTreeSet<usize>, refused: bool, mine: usize, show: String }
fn log(s: &mut Src, p: &StatusPurpose, size: usize) -> Log {
    let mut l = Log { entries: vec![], want: BTreeSet::new(), refused: false, mine: 0, show: String::new() };
    let slots = BITS / size;
    let bad = s.chance(1, 6);
    let mut used: BTreeMap<&'static str, BTreeSet<usize>> = BTreeMap::new();
    let n = s.size(0, 12);
    for e in 0..n {
        let k = s.size(0, 3);
        let mut status = vec![];
        for _ in 0..k {
            let q = if s.chance(3, 5) { p.clone() } else { purpose(s) };
            let mut index = match s.upto(4) {
                0 => s.size(0, 20), 1 => s.size(0, slots - 1), 2 => slots - 1 - s.size(0, 20).min(slots - 1), 3 => s.size(0, 7) * 8, _ => slots / 2 + s.size(0, 3),
            };
            index = index.min(slots - 1);
            let name = match q { StatusPurpose::Revocation => "r", StatusPurpose::Suspension => "s", StatusPurpose::Message => "m" };
            let mine = q == *p;
            // every credential has its own place in a list
            if !used.entry(name).or_default().insert(index) { continue; }
            let max = if q == StatusPurpose::Message { ((1u32 << size.min(8)) - 1) as u64 } else { 1 };
            let mut value = match s.upto(2) { 0 => max, _ => s.upto(max) } as u8;
            if bad && mine && s.chance(1, 2) {
                if q == StatusPurpose::Message && size < 8 && s.bool() { value = (max as usize + 1 + s.size(0, 255 - max as usize - 1)) as u8; }
                else { index = match s.upto(3) { 0 => slots, 1 => slots + s.size(0, 1000), 2 => usize::MAX / size - s.size(0, 3), _ => usize::MAX - s.size(0, 10) }; }
                l.refused = true;
            }
            if mine {
                l.mine += 1;
                if !l.refused { for b in 0..8usize.min(size.max(1)) { if value >> b & 1 == 1 { l.want.insert(index * size + b); } } }
            }
            l.show += &format!(" {name}[{index}]={value}");
            status.push(StatusValue { purpose: q, list_index: index, value });
        }
        l.entries.push(LogEntry { credential_id: format!("c{e}"), subject_id: gen::ident(s), status });
    }
    l
}
pub fn lists() -> ! {
    let mut su = Suite::new("C13", "a log holding at least two statuses of the list's purpose, or one that must be refused");
    su.scale(10);
    su.assume("statuses of one purpose have different indexes; revocation and suspension lists have size 1 and values 0 and 1");
    su.assume("gzip is expanded with flate2 (trusted)");
    su.check("expanded", 12_000, 60_000, |s| {
        let p = purpose(s);
        let size = if p == StatusPurpose::Message { s.one(&[1, 2, 3, 4, 5, 7, 8, 9, 16]) } else { 1 };
        let cfg = config(p.clone(), s.size(0, 3), size);
        let l = log(s, &p, size);
        let show = format!("{p} size {size}:{}", l.show);
        let got = make(&cfg, &l.entries);
        if l.refused {
            ensure!(got.is_err(), "not-refused", "a status outside the list or its bits was accepted: {show}");
            return Ok(Case::new(true, show).label(true, "refused"));
        }
        let got = got.map_err(|e| Fail::new("refused", format!("{e}: {show}")))?;
        let bits = expand(&got)?;
        ensure!(bits.len() >= BITS, "too-short", "{} bits: {show}", bits.len());
        let set: BTreeSet<usize> = bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i).collect();
        ensure_eq!(set, l.want, "wrong-bits", "bits set for {show}");
        Ok(Case::new(l.mine >= 2, show).label(p == StatusPurpose::Message, "message").label(size > 1, "multi-bit"))
    });
    su.check("one-bit-difference", 5_000, 60_000, |s| {
        // changing one credential's status changes that credential's bits only
        let p = purpose(s);
        let size = if p == StatusPurpose::Message { s.one(&[1, 2, 4, 8]) } else { 1 };
        let cfg = config(p.clone(), 0, size);
        let max = if p == StatusPurpose::Message { ((1u32 << size) - 1) as u64 } else { 1 };
        let n = s.size(1, 40);
        let base = s.size(0, BITS / size - 40);
        let vals: Vec<u8> = (0..n).map(|_| s.upto(max) as u8).collect();
        let j = s.size(0, n - 1);
        let mk = |v: &[u8]| -> Vec<LogEntry> { v.iter().enumerate().map(|(i, v)| LogEntry { credential_id: i.to_string(), subject_id: String::new(), status: vec![StatusValue { purpose: p.clone(), list_index: base + i, value: *v }] }).collect() };
        let mut other = vals.clone();
        other[j] = ((u64::from(vals[j]) + 1 + s.upto(max - 1)) % (max + 1)) as u8;
        let show = format!("{p} size {size} at {base}: {vals:?} -> [{j}]={}", other[j]);
        let run = |e: &[LogEntry]| make(&cfg, e).map_err(|e| Fail::new("refused", format!("{e}: {show}"))).and_then(|t| expand(&t));
        let (a, b) = (run(&mk(&vals))?, run(&mk(&other))?);
        let diff: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect();
        let r = (base + j) * size..(base + j + 1) * size;
        ensure!(a.len() == b.len() && !diff.is_empty() && diff.iter().all(|i| r.contains(i)), "leak", "changed bits {diff:?}, expected in {r:?}: {show}");
        Ok(Case::new(n > 1, show))
    });
    su.finish()
}
pub fn credentials() -> ! {
    let mut su = Suite::new("C14", "every generated list credential (any issuer, base url, list number, ttl and key)");
    su.scale(15);
    su.assume("signatures are Ed25519 through the kit's stand-in for vercre-infosec, checked with ed25519-dalek");
    su.check("credential", 8_000, 100_000, |s| {
        let key = if s.bool() { Key::new(s.upto(50)) } else { Key::web(s.upto(50), "did:web:issuer.example", "key-0") };
        let mut docs = Docs::default();
        if !key.did.starts_with("did:key") { docs.publish(&[&key]); }
        let issuer = { let t = gen::ident(s); if t.is_empty() { "https://issuer.example".into() } else { t } };
        let base = format!("https://{}.example{}{}", gen::word(s, 1, 8).replace('_', "x"), if s.bool() { format!("/{}", gen::word(s, 1, 5)) } else { String::new() }, if s.bool() { "/" } else { "" });
        let cfg = config(purpose(s), s.one(&[0, 1, 7, 10, 12345]), 1);
        let ttl = s.opt(|s| s.one(&[0, 1, 300_000, 86_400_000, u64::MAX]));
        let l = log(s, &cfg.purpose, 1);
        let list = make(&cfg, &l.entries).unwrap_or_else(|_| "uAAAA".into());
        let show = format!("issuer {issuer:?} base {base} {} list {} ttl {ttl:?}", cfg.purpose, cfg.list);
        let before = chrono::Utc::now().timestamp();
        let jwt = block_on(credential(&issuer, &as_(&cfg), &base, &list, ttl, key.clone())).map_err(|e| Fail::new("not-built", format!("{e}: {show}")))?;
        let after = chrono::Utc::now().timestamp();
        let (h, c, ok) = read_jws(&jwt, &key).ok_or_else(|| Fail::new("not-a-jws", format!("{jwt}: {show}")))?;
        ensure!(ok, "signature", "the issuer's key does not verify {jwt}: {show}");
        ensure_eq!(h["kid"], json!(key.kid), "kid", "{show}");
        let id = format!("{}/{}", base.trim_end_matches('/'), cfg.list);
        let vc = &c["vc"];
        ensure_eq!(vc["id"], json!(id), "id", "{show}");
        ensure_eq!(c["jti"], json!(id), "jti", "{show}");
        ensure_eq!(vc["issuer"], json!(issuer), "issuer", "{show}");
        ensure_eq!(c["iss"], json!(issuer), "iss", "{show}");
        let types: Vec<&str> = vc["type"].as_array().map(|a| a.iter().filter_map(Value::as_str).collect()).unwrap_or_default();
        ensure!(types.contains(&"VerifiableCredential") && types.contains(&"BitstringStatusListCredential"), "type", "{types:?}: {show}");
        let subj = &vc["credentialSubject"];
        ensure_eq!(subj["type"], json!("BitstringStatusList"), "subject-type", "{show}");
        ensure_eq!(subj["encodedList"], json!(list), "encodedList", "{show}");
        ensure_eq!(subj["statusPurpose"], json!(cfg.purpose.to_string()), "statusPurpose", "{show}");
        ensure_eq!(subj["ttl"], json!(ttl.unwrap_or(300_000)), "ttl", "{show}");
        ensure_eq!(subj["id"], json!(format!("{id}#list")), "subject-id", "{show}");
        let iat = c["iat"].as_i64().unwrap_or(-1);
        ensure!((before..=after).contains(&iat), "iat", "{iat} not in {before}..={after}: {show}");
        // verifiers accept it, and only as it is
        let v = block_on(proof::verify(Verify::Vc(&Kind::String(jwt.clone())), &docs)).map_err(|e| Fail::new("not-verified", format!("{e}: {show}")))?;
        let Payload::Vc { vc: read, .. } = v else { return Err(Fail::new("kind", show)) };
        ensure_eq!(read.id.as_deref(), Some(id.as_str()), "read-id", "{show}");
        let mut c2 = c.clone();
        c2["vc"]["credentialSubject"]["encodedList"] = json!("uAAAA_changed");
        let p: Vec<&str> = jwt.split('.').collect();
        let forged = format!("{}.{}.{}", p[0], sha::b64(c2.to_string().as_bytes()), p[2]);
        ensure!(block_on(proof::verify(Verify::Vc(&Kind::String(forged)), &docs)).is_err(), "forged", "a changed list verifies: {show}");
        Ok(Case::new(true, show).label(ttl.is_some(), "ttl").label(base.ends_with('/'), "trailing slash"))
    });
    su.check("errors", 2_000, 40_000, |s| {
        let t = gen::text(s, 20);
        let (e, code, name) = match s.upto(3) {
            0 => (Error::Retrieval(t.clone()), -128, "-128"), 1 => (Error::Verification(t.clone()), -129, "-129"),
            2 => (Error::ListLength(t.clone()), -130, "-130"), _ => (Error::Range(t.clone()), -67, "-67"),
        };
        let ser = serde_json::to_value(&e).map_err(|x| Fail::new("error-not-serialized", format!("{x}: {e:?}")))?;
        let txt: Value = serde_json::from_str(&e.to_string()).map_err(|x| Fail::new("error-text", format!("{x}: {e}")))?;
        for (v, how) in [(&ser, "serialized"), (&txt, "displayed"), (&e.to_json(), "to_json")] {
            ensure!(v["code"] == json!(code) && v["detail"] == json!(t) && v["type"] == json!(format!("https://www.w3.org/ns/credentials/status-list#{name}")), "error-content", "{how}: {v} for {t:?}");
        }
        Ok(Case::new(t.contains(['"', '\\', '\n', '{']), format!("{code} {t:?}")))
    });
    su.finish()
}
