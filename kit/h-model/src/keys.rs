//! Signing keys of the generated parties.
use std::collections::BTreeMap;
use ed25519_dalek::{Signer as _, SigningKey};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::{Algorithm, PublicKeyJwk, Signer};

use crate::sha;

#[derive(Clone)]
pub struct Key { pub sk: SigningKey, pub kid: String, pub did: String, pub alg: Algorithm }
impl Key {
    /// A did:key key made from a seed.
    pub fn new(seed: u64) -> Self {
        let sk = SigningKey::from_bytes(&sha::sha256(&seed.to_be_bytes()));
        let mb = vercre_did::to_multibase(sk.verifying_key().as_bytes());
        Self { sk, kid: format!("did:key:{mb}#{mb}"), did: format!("did:key:{mb}"), alg: Algorithm::EdDSA }
    }
    /// A key published in the document of `did` under `fragment`.
    pub fn web(seed: u64, did: &str, fragment: &str) -> Self { Self { kid: format!("{did}#{fragment}"), did: did.into(), ..Self::new(seed) } }
    pub fn raw(&self, msg: &[u8]) -> Vec<u8> { self.sk.sign(msg).to_bytes().to_vec() }
    pub fn public(&self) -> [u8; 32] { self.sk.verifying_key().to_bytes() }
    pub fn jwk(&self) -> PublicKeyJwk { PublicKeyJwk { x: sha::b64(&self.public()), ..Default::default() } }
    pub fn verifies(&self, msg: &[u8], sig: &[u8]) -> bool {
        ed25519_dalek::Signature::from_slice(sig).is_ok_and(|s| self.sk.verifying_key().verify_strict(msg, &s).is_ok())
    }
    /// A compact JWS made here, not by the code under test.
    pub fn jws(&self, header: &serde_json::Value, claims: &serde_json::Value) -> String {
        let p = format!("{}.{}", sha::b64(header.to_string().as_bytes()), sha::b64(claims.to_string().as_bytes()));
        format!("{p}.{}", sha::b64(&self.raw(p.as_bytes())))
    }
}
impl Signer for Key {
    async fn try_sign(&self, msg: &[u8]) -> anyhow::Result<Vec<u8>> { Ok(self.raw(msg)) }
    async fn public_key(&self) -> anyhow::Result<Vec<u8>> { Ok(self.public().to_vec()) }
    fn algorithm(&self) -> Algorithm { self.alg.clone() }
    fn verification_method(&self) -> String { self.kid.clone() }
}
/// The published documents.
#[derive(Clone, Default)]
pub struct Docs(pub BTreeMap<String, Document>);
impl Docs {
    pub fn publish(&mut self, keys: &[&Key]) {
        for k in keys {
            let d = self.0.entry(k.did.clone()).or_insert_with(|| Document { id: k.did.clone(), verification_method: Some(vec![]), ..Default::default() });
            d.verification_method.as_mut().unwrap().push(VerificationMethod { id: k.kid.clone(), controller: k.did.clone(), method_type: MethodType::JsonWebKey2020 { public_key_jwk: k.jwk() } });
        }
    }
}
impl DidResolver for Docs {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> { self.0.get(url).cloned().ok_or_else(|| anyhow::anyhow!("not published: {url}")) }
}
/// Reads a compact JWS without the code under test: header, claims, whether `key` signed it.
pub fn read_jws(jws: &str, key: &Key) -> Option<(serde_json::Value, serde_json::Value, bool)> {
    let p: Vec<&str> = jws.split('.').collect();
    if p.len() != 3 { return None; }
    let h = serde_json::from_slice(&sha::unb64(p[0])?).ok()?;
    let c = serde_json::from_slice(&sha::unb64(p[1])?).ok()?;
    let sig = sha::unb64(p[2])?;
    Some((h, c, key.verifies(format!("{}.{}", p[0], p[1]).as_bytes(), &sig)))
}
/// JSON without null members (an optional member written as null is an absent one).
pub fn strip_null(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value as V;
    match v {
        V::Object(o) => V::Object(o.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, strip_null(v))).collect()),
        V::Array(a) => V::Array(a.into_iter().map(strip_null).collect()),
        v => v,
    }
}
