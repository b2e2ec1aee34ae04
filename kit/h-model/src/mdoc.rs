//! C20 mobile documents.
use std::collections::BTreeSet;

use ciborium::Value as V;
use pbt::{block_on, ensure, ensure_eq, gen, Case, Fail, Suite};
use serde_json::{json, Map, Value};

use crate::keys::Key;
use crate::sha;

fn get<'a>(m: &'a V, k: &str) -> Option<&'a V> { m.as_map()?.iter().find(|(n, _)| n.as_text() == Some(k)).map(|(_, v)| v) }
fn at(m: &V, k: i64) -> Option<&V> { m.as_map()?.iter().find(|(n, _)| n.as_integer() == Some(k.into())).map(|(_, v)| v) }
fn bytes(v: &V) -> Vec<u8> { let mut b = vec![]; ciborium::into_writer(v, &mut b).expect("cbor"); b }
fn read(b: &[u8]) -> Option<V> { ciborium::from_reader(b).ok() }
/// The content of `#6.24(bstr)`.
fn tag24(v: &V) -> Option<Vec<u8>> { match v { V::Tag(24, b) => b.as_bytes().cloned(), _ => None } }
fn int(v: &V) -> Option<i128> { v.as_integer().map(i128::from) }
/// The JSON a CBOR value stands for.
fn json_of(v: &V) -> Option<Value> {
    Some(match v {
        V::Null => Value::Null, V::Bool(b) => json!(b), V::Text(t) => json!(t), V::Float(f) => json!(f),
        V::Integer(i) => { let i = i128::from(*i); if let Ok(u) = u64::try_from(i) { json!(u) } else { json!(i64::try_from(i).ok()?) } }
        V::Array(a) => Value::Array(a.iter().map(json_of).collect::<Option<_>>()?),
        V::Map(m) => Value::Object(m.iter().map(|(k, v)| Some((k.as_text()?.to_string(), json_of(v)?))).collect::<Option<_>>()?),
        _ => return None,
    })
}
/// Reads a document with the kit's own code: its signature, digests, salts and elements have to be those of `ds`.
pub fn examine(text: &str, key: &Key, ds: &Map<String, Value>) -> Result<(), Fail> {
    let mut ds = ds.clone();
    let show = Value::Object(ds.clone()).to_string();
    let fail = |m: &'static str| Fail::new(m, format!("{show}: {text}"));
    let doc = sha::unb64(&text).and_then(|b| read(&b)).ok_or_else(|| fail("not-cbor"))?;
    let auth = get(&doc, "issuerAuth").and_then(V::as_array).filter(|a| a.len() == 4).ok_or_else(|| fail("no-issuer-auth"))?;
    let (protected, payload, sig) = (auth[0].as_bytes().ok_or_else(|| fail("protected"))?, auth[2].as_bytes().ok_or_else(|| fail("payload"))?, auth[3].as_bytes().ok_or_else(|| fail("signature"))?);
    let tbs = bytes(&V::Array(vec![V::from("Signature1"), V::Bytes(protected.clone()), V::Bytes(vec![]), V::Bytes(payload.clone())]));
    ensure!(key.verifies(&tbs, sig), "signature", "the issuer's key does not verify: {show}");
    ensure!(read(protected).and_then(|p| at(&p, 1).and_then(int)) == Some(-8), "alg", "{show}");
    ensure!(at(&auth[1], 4).and_then(V::as_bytes).map(Vec::as_slice) == Some(key.kid.as_bytes()), "kid", "{show}");
    let mso = read(payload).as_ref().and_then(tag24).and_then(|b| read(&b)).ok_or_else(|| fail("mso"))?;
    ensure!(get(&mso, "version").and_then(V::as_text) == Some("1.0") && get(&mso, "digestAlgorithm").and_then(V::as_text) == Some("SHA-256") && get(&mso, "docType").and_then(V::as_text) == Some("org.iso.18013.5.1.mDL"), "mso-header", "{mso:?}");
    let dk = get(&mso, "deviceKeyInfo").and_then(|d| get(d, "deviceKey")).ok_or_else(|| fail("device-key"))?;
    ensure!(at(dk, 1).and_then(int) == Some(1) && at(dk, -1).and_then(int) == Some(6) && at(dk, -2).and_then(V::as_bytes).map(Vec::as_slice) == Some(&key.public()[..]), "device-key", "{dk:?}");
    let v = get(&mso, "validityInfo").ok_or_else(|| fail("validity"))?;
    let day = |k: &str| get(v, k).and_then(V::as_text).and_then(|t| chrono::DateTime::parse_from_rfc3339(t).ok()).map(|d| d.timestamp());
    let (signed, from, until) = (day("signed").ok_or_else(|| fail("signed"))?, day("validFrom").ok_or_else(|| fail("valid-from"))?, day("validUntil").ok_or_else(|| fail("valid-until"))?);
    ensure!((signed - chrono::Utc::now().timestamp()).abs() < 900 && from >= signed && until > from, "validity", "signed {signed} from {from} until {until}");
    // name spaces, items and digests
    let spaces = get(&doc, "nameSpaces").and_then(V::as_map).ok_or_else(|| fail("name-spaces"))?;
    let digests = get(&mso, "valueDigests").and_then(V::as_map).ok_or_else(|| fail("digests"))?;
    let mut randoms = BTreeSet::new();
    let mut seen = Map::new();
    for (ns, items) in spaces {
        let ns = ns.as_text().ok_or_else(|| fail("name-space"))?;
        let dig = digests.iter().find(|(k, _)| k.as_text() == Some(ns)).map(|(_, v)| v).ok_or_else(|| fail("name-space-digests"))?;
        let items = items.as_array().ok_or_else(|| fail("items"))?;
        let mut ids = BTreeSet::new();
        let mut elements = Map::new();
        for it in items {
            let item = tag24(it).and_then(|b| read(&b)).ok_or_else(|| fail("item"))?;
            let id = get(&item, "digestID").and_then(int).ok_or_else(|| fail("digest-id"))?;
            ensure!(id >= 0 && ids.insert(id), "digest-id", "digest id {id} twice or negative in {ns}: {show}");
            let d = at(dig, i64::try_from(id).map_err(|_| fail("digest-id"))?).and_then(V::as_bytes).ok_or_else(|| fail("digest-missing"))?;
            ensure!(d[..] == sha::sha256(&bytes(it))[..], "digest", "digest {id} of {ns} is not that of its item: {show}");
            let rnd = get(&item, "random").and_then(V::as_bytes).ok_or_else(|| fail("random"))?;
            ensure!(rnd.len() >= 16 && randoms.insert(rnd.clone()), "random", "salt too short or used twice: {rnd:?} {show}");
            let name = get(&item, "elementIdentifier").and_then(V::as_text).ok_or_else(|| fail("element"))?;
            let val = get(&item, "elementValue").and_then(json_of).ok_or_else(|| fail("element-value"))?;
            ensure!(elements.insert(name.into(), val).is_none(), "element-twice", "{name}: {show}");
        }
        ensure_eq!(dig.as_map().map(Vec::len), Some(items.len()), "digest-count", "{ns}: {show}");
        seen.insert(ns.into(), Value::Object(elements));
    }
    ds.retain(|_, v| !v.as_object().unwrap().is_empty());
    ensure_eq!(Value::Object(seen), Value::Object(ds.clone()), "elements", "elements of the document");
    ensure!(digests.iter().all(|(k, _)| k.as_text().is_some_and(|k| ds.contains_key(k))), "digests-extra", "{show}");
    Ok(())
}
pub fn mdoc() -> ! {
    let mut su = Suite::new("C20", "a dataset with at least two elements");
    su.scale(60);
    su.assume("COSE and CBOR helpers are stand-ins of the kit; documents are read with ciborium, own SHA-256 and ed25519-dalek");
    su.check("document", 6_000, 80_000, |s| {
        let key = if s.bool() { Key::new(s.upto(40)) } else { Key::web(s.upto(40), "did:web:mdl.example", "key-0") };
        let mut ds = Map::new();
        for _ in 0..s.size(0, 3) {
            let ns = s.one(&["org.iso.18013.5.1", "org.iso.18013.5.1.aamva", "x", "名"]).to_string();
            ds.insert(ns, Value::Object(s.vec(0, 8, |s| (if s.bool() { s.one(&["given_name", "age_over_18", "portrait", "driving_privileges"]).to_string() } else { gen::ident(s) }, gen::json(s, 2))).into_iter().collect()));
        }
        let bad = s.chance(1, 10);
        if bad { let v = s.one(&[json!("text"), json!(1), json!([]), Value::Null]); ds.insert("zz".into(), v); }
        let show = Value::Object(ds.clone()).to_string();
        let r = block_on(vercre_iso_mdl::to_credential(ds.clone(), key.clone()));
        if bad { ensure!(r.is_err(), "invalid-dataset", "a name space that is not an object was accepted: {show}"); return Ok(Case::new(true, show).label(true, "refused")); }
        let text = r.map_err(|e| Fail::new("refused", format!("{e}: {show}")))?;
        examine(&text, &key, &ds)?;
        ds.retain(|_, v| !v.as_object().unwrap().is_empty());
        let n: usize = ds.values().map(|v| v.as_object().unwrap().len()).sum();
        Ok(Case::new(n > 1, show).label(ds.len() > 1, "name spaces"))
    });
    su.finish()
}
