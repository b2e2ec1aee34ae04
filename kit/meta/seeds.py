SER = "crates/core/src/urlencode/ser.rs"; URL = "crates/core/src/urlencode.rs"; GEN = "crates/core/src/gen.rs"; CORE = "crates/core/src/lib.rs"
MAT = "crates/dif-exch/src/matcher.rs"; DIF = "crates/dif-exch/src/lib.rs"
DIFHEAD = '''use serde_json::{json, Value};
use vercre_dif_exch::*;
struct J(Value);
impl Claims for J { fn to_json(&self) -> anyhow::Result<Value> { Ok(self.0.clone()) } }
fn sat(fields: Value, cred: Value) -> bool {
    let c: Constraints = serde_json::from_value(json!({"fields": fields})).unwrap();
    c.satisfied(&J(cred)).unwrap_or(false)
}
'''
SEEDS = []
def S(id, property, edits, deps, demo, needs, breaks, after=None, kit=False, files={}, tail=None):
    SEEDS.append(dict(files=files, tail=tail, id=id, property=property, edits=edits, deps=deps, demo=demo, needs=needs, breaks=breaks, after=after, kit=kit))

S("s01", "C02", [(SER, '''        if self.level > TOP_LEVEL {
            self.output += "]}";
        } else {
            self.output += "]";
        }
        self.level -= 1;
''', '''        if self.level > TOP_LEVEL {
            self.output += "]}";
            return Ok(());
        }
        self.output += "]";
        self.level -= 1;
''')], ["core"], '''use serde::Serialize;
#[derive(Serialize)] enum E { Pair(u32, u32) }
#[derive(Serialize)] struct In { e: E }
#[derive(Serialize)] struct Top { a: In, b: String, c: String }
fn main() {
    let q = vercre_core::urlencode::to_string(&Top { a: In { e: E::Pair(1, 2) }, b: "x".into(), c: "y".into() }).unwrap();
    println!("{q}");
    assert!(q.ends_with("&b=x&c=y"));
}
''', "a tuple variant nested in a structure, with members after it", "the nesting level is not restored after a nested tuple variant, so every later member is written as part of the nested JSON")
S("s02", "C01", [(SER, '''    fn serialize_u64(self, v: u64) -> Result<()> {
        self.output += &v.to_string();
        Ok(())
    }
''', '''    fn serialize_u64(self, v: u64) -> Result<()> {
        // JSON numbers are signed
        #[allow(clippy::cast_possible_wrap)]
        self.serialize_i64(v as i64)
    }
''')], ["core"], '''use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, PartialEq, Debug)] struct In { n: u64 }
#[derive(Serialize, Deserialize, PartialEq, Debug)] struct Top { a: In }
fn main() {
    let t = Top { a: In { n: u64::MAX - 7 } };
    let q = vercre_core::urlencode::to_string(&t).unwrap();
    let b: Top = vercre_core::urlencode::from_str(&q).expect("decodes");
    assert_eq!(b, t);
}
''', "an unsigned number above the signed range inside a nested structure", "large unsigned numbers come out negative")
S("s03", "C02", [(SER, '''        if !self.output.ends_with('[') {
            self.output += ",";
        }
        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.output += "]";
        self.level -= 1;
        Ok(())
    }
}

impl ser::SerializeTuple for''', '''        if !self.output.ends_with(['[', '}']) {
            self.output += ",";
        }
        value.serialize(&mut **self)
    }

    fn end(self) -> Result<()> {
        self.output += "]";
        self.level -= 1;
        Ok(())
    }
}

impl ser::SerializeTuple for''')], ["core"], '''use serde::Serialize;
#[derive(Serialize)] struct In { a: u8 }
#[derive(Serialize)] struct Top { l: Vec<In> }
fn main() {
    let q = vercre_core::urlencode::to_string(&Top { l: vec![In { a: 1 }, In { a: 2 }] }).unwrap();
    println!("{q}");
    assert_eq!(q, "l=%5B%7B%22a%22%3A1%7D%2C%7B%22a%22%3A2%7D%5D");
}
''', "a list of two or more structures", "the comma between structures in a list is lost")
S("s04", "C05", [(GEN, "(0..len).map(|_| chars[fastrand::usize(..chars.len())]).collect()", "(0..len).map(|_| chars[fastrand::usize(..chars.len() - 1)]).collect()")], ["core"], '''fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..5_000 { seen.extend(vercre_core::gen::tx_code().chars()); }
    println!("{seen:?}");
    assert_eq!(seen.len(), 10);
}
''', "the statistics of many draws: no single value is malformed", "the last character of every alphabet is never used (no PIN holds a 9)")
S("s05", "C05", [(GEN, '''pub fn transaction_id() -> String {
    let rnd = random_string(STATE_LEN, SAFE_CHARS);
''', '''pub fn transaction_id() -> String {
    // one draw is enough for a short-lived identifier
    let rnd = random_string(STATE_LEN / 4, SAFE_CHARS).repeat(4);
''')], ["core"], '''fn main() {
    let a = vercre_core::gen::transaction_id();
    // 32 characters are 43 of base64url; 8 characters repeated give a pattern of period 32 in the encoding of 24
    let n = (0..200).map(|_| vercre_core::gen::transaction_id()).filter(|t| t.len() == 43 && t[0..10] == t[32..42]).count();
    println!("{a} {n}");
    assert!(n == 0);
}
''', "looking inside the encoded transaction id: its length and alphabet are right", "transaction ids carry a quarter of the randomness")
S("s06", "C06", [(CORE, '''            Self::Many(many) => {
                many.push(item);
            }
''', '''            Self::Many(many) => {
                if many.last() != Some(&item) {
                    many.push(item);
                }
            }
''')], ["core"], '''use vercre_core::Quota;
fn main() {
    let mut q = Quota::Many(vec![1, 2]);
    q.add(2);
    assert_eq!(q.len(), 3);
}
''', "adding an item equal to the last one", "an addition is dropped silently")
S("s07", "C07", [(MAT, "if let Some(node) = nodes.into_iter().next() {", "if let Some(node) = nodes.into_iter().last() {")], ["dif"], DIFHEAD + '''fn main() {
    let f = json!([{"path": ["$.list[*].id"], "filter": {"type": "string", "const": "a"}}]);
    assert!(sat(f.clone(), json!({"list": [{"id": "a"}, {"id": "b"}]})));
    assert!(!sat(f, json!({"list": [{"id": "b"}, {"id": "a"}]})));
}
''', "a path that selects several values", "the last value selected decides instead of the first")
S("s08", "C07", [(MAT, '''            if nodes.is_empty() {
                continue;
            }
''', '''            if nodes.is_empty() {
                if self.optional.unwrap_or_default() {
                    return Ok(true);
                }
                continue;
            }
''')], ["dif"], DIFHEAD + '''fn main() {
    let f = json!([{"path": ["$.old", "$.new"], "optional": true, "filter": {"type": "string", "const": "a"}}]);
    assert!(sat(f.clone(), json!({"other": 1})));
    assert!(!sat(f, json!({"new": "forged"})));
}
''', "an optional field with two paths, the first absent, the second present and failing the filter", "an optional field is accepted as soon as its first path is absent")
S("s09", "C08", [(MAT, 'Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),', 'Value::String(str_node) => {\n                Ok(DateTime::parse_from_str(str_node, "%Y-%m-%dT%H:%M:%S%.f%#z").is_ok())\n            }')], ["dif"], DIFHEAD + '''fn main() {
    let f = json!([{"path": ["$.d"], "filter": {"type": "string", "format": "date-time"}}]);
    for good in ["2023-11-20T23:21:55Z", "2023-11-20T23:21:55.5+13:00"] { assert!(sat(f.clone(), json!({"d": good}))); }
    assert!(!sat(f, json!({"d": "2023-11-20T23:21:55+13"})));
}
''', "an offset without minutes", "text that is not an RFC 3339 date-time passes the date-time format")
S("s10", "C08", [(MAT, "Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),", "Value::Array(arr_node) => {\n            Ok(arr_node.first() == Some(&const_val) || arr_node.last() == Some(&const_val))\n        }")], ["dif"], DIFHEAD + '''fn main() {
    let f = json!([{"path": ["$.type"], "filter": {"type": "string", "const": "b"}}]);
    assert!(sat(f, json!({"type": ["a", "b", "c"]})));
}
''', "a list of three or more with the constant in the middle", "a constant inside a list is not found")
S("s11", "C09", [(MAT, '''    let Ok(re) = Regex::new(pattern) else {
        return Err(anyhow!("invalid regex pattern: {pattern}"));
    };
''', '''    // fall back to the literal text when the pattern is not a regular expression
    let re = Regex::new(pattern).or_else(|_| Regex::new(&regex::escape(pattern)))?;
''')], ["dif"], DIFHEAD + '''fn main() {
    let f = json!([{"path": ["$.t"], "filter": {"type": "string", "pattern": "("}}]);
    assert!(!sat(f, json!({"t": "a(b"})));
}
''', "a pattern that is not a regular expression and a value that holds it literally", "an invalid pattern is satisfied by values containing its text", )
S("s12", "C10", [(DIF, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub intent_to_retain: Option<bool>,
''', '''    #[serde(skip_serializing_if = "not_retained")]
    pub intent_to_retain: Option<bool>,
'''), (DIF, '''/// A JSON Schema descriptor used to filter''', '''// retention is off by default
const fn not_retained(intent: &Option<bool>) -> bool {
    !matches!(intent, Some(true))
}

/// A JSON Schema descriptor used to filter''')], ["dif"], '''use serde_json::json;
use vercre_dif_exch::Field;
fn main() {
    let j = json!({"path": ["$.a"], "intent_to_retain": false});
    let f: Field = serde_json::from_value(j.clone()).unwrap();
    assert_eq!(serde_json::to_value(f).unwrap(), j);
}
''', "a field that states its intent to retain as false", "an explicit false is lost when a definition is written", )
MACHEAD = '''#[allow(dead_code)]
mod vercre_issuer {
    #[derive(Debug)] pub enum AuthorizationRequest { Object(RequestObject) }
    #[derive(Debug)] pub struct RequestObject { pub credential_issuer: String, pub response_type: String, pub client_id: String, pub redirect_uri: Option<String>, pub state: Option<String>, pub code_challenge: String, pub code_challenge_method: String, pub authorization_details: Option<Vec<AuthorizationDetail>>, pub scope: Option<String>, pub resource: Option<String>, pub subject_id: String, pub wallet_issuer: Option<String>, pub user_hint: Option<String>, pub issuer_state: Option<String> }
    #[derive(Debug)] pub struct AuthorizationDetail { pub type_: AuthorizationDetailType, pub credential: CredentialAuthorization, pub locations: Option<Vec<String>> }
    #[derive(Debug)] pub enum AuthorizationDetailType { OpenIdCredential }
    #[derive(Debug)] pub enum CredentialAuthorization { ConfigurationId { credential_configuration_id: String, claims: Option<ProfileClaims> }, Format(Format) }
    #[derive(Debug)] pub enum ProfileClaims { W3c(CredentialDefinition) }
    #[derive(Debug)] pub enum Format { JwtVcJson(ProfileW3c) }
    #[derive(Debug)] pub struct ProfileW3c { pub credential_definition: CredentialDefinition }
    #[derive(Debug)] pub struct CredentialDefinition { pub context: Option<Vec<String>>, pub type_: Option<Vec<String>>, pub credential_subject: Option<std::collections::HashMap<String, Claim>> }
    #[derive(Debug)] pub enum Claim { Entry(ClaimDefinition), Set(std::collections::HashMap<String, Claim>) }
    #[derive(Debug, Default)] pub struct ClaimDefinition;
    #[derive(Debug)] pub struct TokenRequest { pub credential_issuer: String, pub client_id: Option<String>, pub grant_type: TokenGrantType, pub authorization_details: Option<Vec<AuthorizationDetail>>, pub client_assertion: Option<String> }
    #[derive(Debug)] pub enum TokenGrantType { PreAuthorizedCode { pre_authorized_code: String, tx_code: Option<String> }, AuthorizationCode { code: String, redirect_uri: Option<String>, code_verifier: Option<String> } }
    #[derive(Debug)] pub struct CreateOfferRequest { pub credential_issuer: String, pub subject_id: Option<String>, pub credential_configuration_ids: Vec<String>, pub grant_types: Option<Vec<GrantType>>, pub tx_code_required: bool, pub send_type: SendType }
    #[derive(Debug)] pub enum GrantType { PreAuthorizedCode, AuthorizationCode }
    #[derive(Debug)] pub enum SendType { ByVal, ByRef }
    #[derive(Debug)] pub struct CredentialRequest { pub credential_issuer: String, pub access_token: String, pub credential: CredentialIssuance, pub proof: Option<Proof>, pub credential_response_encryption: Option<String> }
    #[derive(Debug)] pub enum CredentialIssuance { Identifier { credential_identifier: String }, Format(Format) }
    #[derive(Debug)] pub enum Proof { Single { proof_type: SingleProof } }
    #[derive(Debug)] pub enum SingleProof { Jwt { jwt: String } }
}
'''
S("s13", "C11", [("crates/macros/src/authorization.rs", '''            user_hint: #user_hint,
            issuer_state: #issuer_state,
''', '''            user_hint: #issuer_state,
            issuer_state: #user_hint,
''')], ["macros"], MACHEAD + '''use vercre_macros::authorization_request;
fn main() {
    let r = authorization_request!({"credential_issuer": "i", "response_type": "code", "client_id": "c", "code_challenge": "x", "code_challenge_method": "S256", "subject_id": "s", "issuer_state": "abc"});
    let vercre_issuer::AuthorizationRequest::Object(o) = r;
    assert_eq!(o.issuer_state.as_deref(), Some("abc"));
    assert!(o.user_hint.is_none());
}
''', "one of the two rarely used optional members", "two members are swapped")
S("s14", "C11", [("crates/macros/src/authorization.rs", '''        if let Some(nested) = v.as_object()
            && !nested.is_empty()
        {
            let claims = claims(nested);
''', '''        if let Some(nested) = v.as_object()
            && nested.values().any(|v| v.as_object().is_some_and(|o| !o.is_empty()))
        {
            let claims = claims(nested);
''')], ["macros"], MACHEAD + '''use vercre_macros::authorization_request;
fn main() {
    let r = authorization_request!({"credential_issuer": "i", "response_type": "code", "client_id": "c", "code_challenge": "x", "code_challenge_method": "S256", "subject_id": "s",
        "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "id", "credential_definition": {"credentialSubject": {"address": {"street": {}}}}}]});
    let t = format!("{r:?}");
    println!("{t}");
    assert!(t.contains("street"));
}
''', "a nested set of claims exactly two levels deep", "the innermost claims are dropped and the whole parent claim is requested")
REFUSED = """cd "$T" && cargo build -q --offline || exit 2
# the same request with the fault must be refused
cp "$D/bad.rs" "$T/src/main.rs"
if cargo build -q --offline 2>"$T/log"; then echo "a malformed request compiles"; exit 1; fi
grep -q "error" "$T/log" && ! grep -q "^error\\[E" "$T/log"
"""
S("s15", "C12", [("crates/macros/src/token.rs", '''                return Err(Error::new(span, "`type` must be `openid_credential`"));
            }
        } else {
            return Err(Error::new(span, "`type` is not set"));
        }
''', '''                return Err(Error::new(span, "`type` must be `openid_credential`"));
            }
        } else if detail.get("credential_configuration_id").is_none() {
            return Err(Error::new(span, "`type` is not set"));
        }
''')], ["macros"], MACHEAD + '''use vercre_macros::token_request;
fn main() {
    let _ = token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v",
        "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "id"}]});
}
''', "an authorization detail that has a configuration id and no type", "a detail without its required type is accepted",
    files={"bad.rs": MACHEAD + '''use vercre_macros::token_request;
fn main() {
    let _ = token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v",
        "authorization_details": [{"credential_configuration_id": "id"}]});
}
'''}, tail='''cd "$T" && cargo build -q --offline || exit 2
# the same request with a detail that lacks its type must be refused
cp "$D/bad.rs" "$T/src/main.rs"
if cargo build -q --offline 2>"$T/log"; then echo "a detail without type compiles"; exit 1; fi
grep -q "error" "$T/log" && ! grep -q "^error\\[E" "$T/log"
''')

S("s16", "C06", [(CORE, """    /// Simple string value
    String(String),

    /// Complex object value
    Object(T),
""", """    /// Complex object value
    Object(T),

    /// Simple string value
    String(String),
""")], ["core"], '''use vercre_core::Kind;
fn main() {
    let k: Kind<serde_json::Value> = serde_json::from_str("\\"https://example.com\\"").unwrap();
    assert_eq!(k, Kind::String("https://example.com".into()));
    let o: Kind<serde_json::Value> = serde_json::from_str("{\\"id\\": 1}").unwrap();
    assert!(matches!(o, Kind::Object(_)));
}
''', "an object type that can also be read from a string", "a string is read as the object")
S("s17", "C09", [(MAT, 'return Err(anyhow!("Invalid JSONPath: {path}"));', "continue;")], ["dif"], DIFHEAD + '''fn main() {
    let c = json!({"type": ["VerifiableCredential"]});
    assert!(sat(json!([{"path": ["$.missing", "$.type"]}]), c.clone()));
    assert!(!sat(json!([{"path": ["$.["]}]), c.clone()));
    assert!(!sat(json!([{"path": ["$.[", "$.type"]}]), c.clone()));
    assert!(!sat(json!([{"path": ["$.["], "optional": true}]), c));
}
''', "an invalid path followed by one that matches, or in an optional field", "a malformed query is skipped instead of failing the field")
S("s18", "C05", [(GEN, "    let chars: Vec<char> = charset.chars().collect();\n", '''    // refresh the generator from time to time
    static DRAWN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
    if DRAWN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 0x1_0000 == 0 {
        fastrand::seed(u64::from(std::process::id()));
    }
    let chars: Vec<char> = charset.chars().collect();
''')], ["core"], '''fn main() {
    let mut seen = std::collections::HashSet::new();
    for i in 0..140_000 { assert!(seen.insert(vercre_core::gen::token()), "token {i} repeats an earlier one"); }
}
''', "a process that has drawn more than 131,072 values", "the generator is reseeded with the same seed every 65,536 values, so tokens repeat")
S("s19", "C01", [(SER, """    fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap> {
        self.level += 1;
""", """    fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap> {
        self.level += 1;
        if self.level > 32 {
            return Err(Error::Message("nesting is too deep".into()));
        }
""")], ["core"], '''use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, PartialEq, Debug)] struct Top { a: serde_json::Value, b: String }
fn main() {
    let mut a = serde_json::json!("x");
    for _ in 0..40 { a = serde_json::json!({"k": a}); }
    let t = Top { a, b: "y".into() };
    let q = vercre_core::urlencode::to_string(&t).expect("encodes");
    assert_eq!(vercre_core::urlencode::from_str::<Top>(&q).expect("decodes"), t);
}
''', "objects nested more than 32 deep", "deep values no longer encode")
S("s20", "C10", [(DIF, "    pub path: Vec<String>,", "    #[serde(default, skip_serializing_if = \"Vec::is_empty\")]\n    pub path: Vec<String>,")], ["dif"], '''use serde_json::json;
use vercre_dif_exch::*;
fn main() {
    let d = |f: serde_json::Value| serde_json::from_value::<PresentationDefinition>(json!({"id": "d", "input_descriptors": [{"id": "i", "constraints": {"fields": [f]}}]}));
    assert!(d(json!({"path": ["$.a"], "name": "n"})).is_ok());
    assert!(d(json!({"name": "n"})).is_err());
}
''', "a field without paths (or with an empty list of them)", "a required member may be missing, and an empty one is dropped")
S("s21", "C12", [("crates/macros/src/credential.rs", """    if let Some(identifier) = input.get("credential_identifier") {
        Ok(quote! {""", """    if let Some(identifier) = input.get("credential_identifier") {
        // the identifier says it all
        input.fields.retain(|k, _| !k.starts_with("credential_d"));
        Ok(quote! {""")], ["macros"], MACHEAD + '''use vercre_macros::credential_request;
fn main() {
    let _ = credential_request!({"credential_issuer": "i", "access_token": "t", "credential_identifier": "c"});
}
''', "a credential request with both an identifier and a definition", "a member of the other kind of request is dropped silently",
    files={"bad.rs": MACHEAD + '''use vercre_macros::credential_request;
fn main() {
    let _ = credential_request!({"credential_issuer": "i", "access_token": "t", "credential_identifier": "c", "credential_definition": {"type": ["A"]}});
}
'''}, tail=REFUSED)
S("s22", "C11", [("crates/macros/src/create_offer.rs", """    let subject_id = input.option("subject_id");
""", """    // the subject is known in advance only when it is pre-authorized
    let subject_id = match input.fields.get("grant_types").and_then(Value::as_array) {
        Some(g) if g.iter().all(|g| g.as_str() == Some("authorization_code")) => {
            input.get("subject_id");
            quote! {None}
        }
        _ => {
            let subject_id = input.option("subject_id");
            quote! {#subject_id}
        }
    };
""")], ["macros"], MACHEAD + '''use vercre_macros::create_offer_request;
fn main() {
    let r = create_offer_request!({"credential_issuer": "i", "subject_id": "s", "credential_configuration_ids": ["c"], "grant_types": ["authorization_code"]});
    assert_eq!(r.subject_id.as_deref(), Some("s"));
}
''', "an offer with a subject and only the authorization code grant", "a member that was given is dropped")
S("s23", "C04", [("crates/core/src/pkce.rs", "Sha256::digest(verifier.as_bytes())", "Sha256::digest(&verifier.as_bytes()[..verifier.len().min(MAX_LEN)])")], ["core"], '''use vercre_core::pkce::code_challenge;
fn main() {
    let v = "a".repeat(128);
    assert_ne!(code_challenge(&v), code_challenge(&(v.clone() + "b")));
    assert_ne!(code_challenge(&(v.clone() + "b")), code_challenge(&(v + "c")));
}
''', "a verifier of more than 128 bytes", "verifiers that differ after 128 bytes have the same challenge")
S("s24", "C07", [(MAT, "        for field in fields {\n", "        for field in fields.iter().filter(|f| f.intent_to_retain != Some(false) || f.filter.is_some()) {\n")], ["dif"], DIFHEAD + '''fn main() {
    assert!(!sat(json!([{"path": ["$.a"]}]), json!({"b": 1})));
    assert!(!sat(json!([{"path": ["$.a"], "intent_to_retain": false}]), json!({"b": 1})));
}
''', "a required field without filter that the verifier does not retain", "such a field is not checked")
S("s25", "C01", [(SER, "        self.serialize_str(&v.to_string())\n", """        if self.level > TOP_LEVEL {
            self.output += &format!("\\"{v}\\"");
            return Ok(());
        }
        self.serialize_str(&v.to_string())
""")], ["core"], '''use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, PartialEq, Debug)] struct In { c: char, t: String }
#[derive(Serialize, Deserialize, PartialEq, Debug)] struct Top { a: In, b: char }
fn main() {
    for c in ['a', 'é', '&', '%', '"', '\\\\', '\\n'] {
        let t = Top { a: In { c, t: "x".into() }, b: c };
        let q = vercre_core::urlencode::to_string(&t).expect("encodes");
        assert_eq!(vercre_core::urlencode::from_str::<Top>(&q).expect("decodes"), t);
    }
}
''', "a nested member of type char holding a quote, a backslash or a separator", "such a value does not decode to what was encoded")
S("s26", "C08", [(MAT, "Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),", "Value::String(str_node) => Ok(str_node.len() <= 32 && DateTime::parse_from_rfc3339(str_node).is_ok()),")], ["dif"], DIFHEAD + '''fn main() {
    let f = json!([{"path": ["$.t"], "filter": {"type": "string", "format": "date-time"}}]);
    assert!(sat(f.clone(), json!({"t": "2023-11-20T23:21:55Z"})));
    assert!(sat(f.clone(), json!({"t": "2023-11-20T23:21:55.123456789+05:30"})));
    assert!(!sat(f, json!({"t": "2023-11-20"})));
}
''', "a date-time with nanoseconds and an offset", "it is no longer taken for a date-time")
S("s27", "C12", [("crates/macros/src/parse.rs", "            lhs: lhs.value(),", "            lhs: lhs.value().trim().to_string(),")], ["macros"], MACHEAD + '''use vercre_macros::credential_request;
fn main() {
    let _ = credential_request!({"credential_issuer": "i", "access_token": "t", "credential_identifier": "c"});
}
''', "a member name with blanks around it", "a request with a member it does not have compiles",
    files={"bad.rs": MACHEAD + '''use vercre_macros::credential_request;
fn main() {
    let _ = credential_request!({"credential_issuer": "i", "access_token": "t", " credential_identifier": "c"});
}
'''}, tail=REFUSED)
S("s28", "C02", [(SER, "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &v.to_string();", "    fn serialize_f64(self, v: f64) -> Result<()> {\n        self.output += &((v * 1e9).round() / 1e9).to_string();")], ["core"], '''use serde::Serialize;
#[derive(Serialize)] struct In { n: f64 }
#[derive(Serialize)] struct Top { a: In, b: f64 }
fn main() {
    for n in [0.5, 1.25e3, 1e-12, 123.456_789_012_345] {
        let q = vercre_core::urlencode::to_string(&Top { a: In { n }, b: n }).expect("encodes");
        let b: f64 = q.rsplit_once("b=").unwrap().1.parse().unwrap();
        assert!((b - n).abs() <= n * 1e-13, "{n} is written as {q}");
    }
}
''', "a number with more than nine decimals", "numbers are rounded on the wire")
S("s29", "C12", [("crates/macros/src/token.rs", '''            Some("jwt_vc_json") => Ok(quote! {
                #path::CredentialAuthorization::Format (''', '''            Some(f) if f.starts_with("jwt_vc_json") => Ok(quote! {
                #path::CredentialAuthorization::Format (''')], ["macros"], MACHEAD + '''use vercre_macros::credential_request;
fn main() {
    let _ = credential_request!({"credential_issuer": "i", "access_token": "t", "credential_identifier": "c"});
}
''', "a token request with a detail of format jwt_vc_json-ld", "an unsupported format compiles, as another one",
    files={"bad.rs": MACHEAD + '''use vercre_macros::token_request;
fn main() {
    let _ = token_request!({"credential_issuer": "i", "grant_type": "authorization_code", "code": "c", "code_verifier": "v", "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json-ld", "credential_definition": {"type": ["A"]}}]});
}
'''}, tail=REFUSED)
