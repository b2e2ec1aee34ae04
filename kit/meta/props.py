NOT_APPLICABLE = []
PBT = "property-based testing: "
def P(id, title, statement, over, for_all, why, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files, mech=mech, observe=observe, technique=PBT + technique, note=note)
SAMPLED = "Generated-input search: no violation in the cases explored (counts in the evidence file); not a proof. "
STAND = "Git-only dependencies (signing, DIDs) are replaced by stand-ins with real Ed25519. "
PROPS = [
P("C01", "URL-encoded values decode back to the value that was encoded",
  "For every structured request value (text with any characters, enumerations, nested structures, lists, tuples, maps, optional, tagged, untagged and flattened members), URL-encoding it and decoding the result into the same type yields an equal value. Text members hold any Unicode text that is not itself the text of a JSON array or object; top-level numbers, booleans and nulls are outside the claim.",
  ["inputs"], "every value of every serializable request type", "The tests encode and decode one structure with plain ASCII text and no separators; the claim is about every value and every character.",
  ["crates/core/src/urlencode.rs", "crates/core/src/urlencode/ser.rs"], [("serializer", "crates/core/src/urlencode/ser.rs"), ("from_str", "crates/core/src/urlencode.rs")], ["vercre_core::urlencode::to_string / from_str"],
  "typed round trip", SAMPLED + "The oracle is equality after a round trip; C02 and C03 pin each half against an independent decoder and encoder."),
P("C02", "URL-encoded output is a standard query string carrying each member exactly",
  "Encoding a structure or map gives name=value pairs joined by '&', in member order, using only unreserved URL characters, '%' escapes and the separators. Any standard percent-decoder recovers each member: text as it is, numbers, booleans and null as their text, nested structures, lists, maps and enum variants as JSON equal to the JSON serialization of that member. A value with a member that cannot be serialized is refused, and what failed before never shows in a later encoding.",
  ["inputs"], "every value of the serde data model at any nesting", "Two fixed encodings are tested; special characters, nesting, tuples, maps and variants at depth are not reached.",
  ["crates/core/src/urlencode/ser.rs"], [("Serializer levels, separators and escaping", "crates/core/src/urlencode/ser.rs")], ["vercre_core::urlencode::to_string"],
  "differential against an independent percent-decoder and serde_json over dynamically shaped values", SAMPLED + "Trusts serde_json as the JSON reference; map keys are text, numbers, booleans or unit variants and floats are binary fractions."),
P("C03", "URL decoding accepts any standard encoding and cannot be confused by data",
  "A query string produced by any RFC 3986 percent-encoder (members in any order, optional escapes, either hex case) decodes to the values it carries. Data inside one parameter never creates, replaces or hides another parameter, a parameter given twice is refused, and no input string makes decoding panic.",
  ["inputs"], "every query string", "One well-formed string is decoded by the tests; hostile or merely unusual strings never are.",
  ["crates/core/src/urlencode.rs"], [("from_str", "crates/core/src/urlencode.rs")], ["vercre_core::urlencode::from_str"],
  "independent encoder as generator, injection attempts, mutated strings for totality", SAMPLED + "'+' is taken literally."),
P("C04", "PKCE challenges are the S256 transform and verifiers are well formed",
  "For every code verifier text, the derived code challenge is the unpadded base64url SHA-256 of that text, so different verifiers have different challenges. Every generated code verifier has 43 to 128 unreserved characters and differs from those generated before.",
  ["inputs", "histories"], "every verifier text and every sequence of generated verifiers", "No test covers PKCE.",
  ["crates/core/src/pkce.rs"], [("code_challenge, code_verifier", "crates/core/src/pkce.rs")], ["vercre_core::pkce"],
  "differential against an independent SHA-256 and base64url; invariants over generated verifiers", SAMPLED + "The independent hash is checked against the RFC 7636 vector."),
P("C05", "Generated codes, tokens, nonces and states are unpredictable and URL safe",
  "Authorization codes, issuer states, nonces, notification ids, URI tokens, access tokens and transaction ids are URL-safe text that carries at least 32 random characters, and none repeats, whatever the order in which they are drawn. A transaction code (PIN) is always six decimal digits, every digit position varying over all ten digits and no combination of three adjacent digits left out.",
  ["histories"], "every sequence of draws and every state of the generator", "No test draws any of these values.",
  ["crates/core/src/gen.rs"], [("random_string", "crates/core/src/gen.rs")], ["vercre_core::gen"],
  "histories of draws with uniqueness, alphabet, length, per-position bias and correlation statistics", SAMPLED + "Thresholds are at least six standard deviations from a uniform generator; fastrand is trusted."),
P("C06", "One-or-many and string-or-object values keep their items, order and JSON shape",
  "Adding to a one-or-many value keeps every earlier item and the order, and turns a single item into a list; length, emptiness and shape queries agree with its items. A single item is written as that item, several as an array, a string as a string and an object as an object, and reading the JSON gives the value back.",
  ["inputs", "histories"], "every item, every history of additions", "No test covers these types.",
  ["crates/core/src/lib.rs"], [("Kind, Quota", "crates/core/src/lib.rs")], ["vercre_core::{Kind, Quota}"],
  "model-based histories against a list, JSON round trip", SAMPLED),
P("C07", "A credential satisfies constraints exactly when every field matches",
  "Constraints are satisfied exactly when every field matches, in whatever order they are listed; without fields they are always satisfied. A field matches when, trying its paths in order, the first value selected by some path passes the filter (or there is no filter), a value failing the filter leads to the next path, and an optional field also matches when no path selects anything. Credentials that cannot be read as JSON never satisfy constraints that have fields.",
  ["inputs"], "every credential and every set of fields, paths and filters", "Three tests cover one field with one path on one credential, all satisfied; refusal is never tested.",
  ["crates/dif-exch/src/matcher.rs"], [("Constraints::satisfied, Field::matched", "crates/dif-exch/src/matcher.rs")], ["Constraints::satisfied"],
  "differential against a reference evaluator with its own JSONPath; metamorphic laws", SAMPLED + "Null and object values under a pattern filter are left open."),
P("C08", "const, pattern and format filters decide claim values exactly",
  "A const filter accepts text equal to the constant, a number or boolean whose text is the constant, and a list having the constant as an element, and nothing else. A pattern filter accepts text (or some text element of a list, or the text of a number or boolean) in which the regular expression is found, anchors referring to the value itself. The date and date-time formats accept exactly text that is a calendar date, or an RFC 3339 date-time.",
  ["inputs"], "every claim value and every filter", "One satisfied case per filter kind is tested, all on the same credential.",
  ["crates/dif-exch/src/matcher.rs"], [("match_const, match_pattern, match_format", "crates/dif-exch/src/matcher.rs")], ["Constraints::satisfied"],
  "differential against own constant, regular-expression and calendar readings", SAMPLED + "Null and object values under a pattern, non-text elements of lists under a pattern, and leap seconds are left open."),
P("C09", "Constraint evaluation never panics and fails closed on malformed input",
  "Whatever the credential, JSONPath text, regular expression text or format name, evaluating constraints returns. A field whose evaluation meets an invalid path, an invalid pattern or an unsupported format is never satisfied, even if it is optional or a later path would match, and neither is a required field whose paths select nothing.",
  ["inputs"], "every credential and every text used as path, pattern or format", "The tests use valid input only.",
  ["crates/dif-exch/src/matcher.rs"], [("Constraints::satisfied", "crates/dif-exch/src/matcher.rs")], ["Constraints::satisfied"],
  "fuzzing with mutated paths, patterns and formats; fail-closed oracle", SAMPLED),
P("C10", "Presentation definitions and submissions keep every member through JSON",
  "Every presentation definition and submission written with the specification's member names is read with each member at its value and written again as the same JSON; members that are absent stay absent. A definition or submission lacking a required member (ids, input descriptors, constraints, the paths of a field, definition id, descriptor map, format or path of a mapping) is refused.",
  ["inputs"], "every definition and submission", "Three fragments are deserialized by tests; nothing is written and nothing refused.",
  ["crates/dif-exch/src/lib.rs"], [("serde attributes of the model", "crates/dif-exch/src/lib.rs")], ["serde_json::from_str / to_value of the model types", "PresentationSubmission::from_str"],
  "independently written JSON, read, inspected and rewritten", SAMPLED),
P("C11", "Request macros build the request the JSON they are given stands for",
  "For every well-formed invocation of create_offer_request!, authorization_request!, token_request! and credential_request! (members in any order, values as literals, variables, paths, fields or calls, any number of configuration ids, grant types, authorization details and nested claims), the invocation compiles. The value it gives serializes to the JSON the invocation was written as: every member given is present with its value and no other member is set, apart from documented defaults.",
  ["inputs"], "every well-formed invocation of the request macros", "The macro tests need crates the sandbox lacks and cover one invocation each.",
  ["crates/macros/src/authorization.rs", "crates/macros/src/token.rs", "crates/macros/src/credential.rs", "crates/macros/src/create_offer.rs", "crates/macros/src/parse.rs"],
  [("expand functions", "crates/macros/src")], ["create_offer_request!, authorization_request!, token_request!, credential_request!"],
  "generated invocations compiled against the real issuer types, run, and compared with their JSON", SAMPLED + "Literal-only positions are given literals; crates missing offline are replaced by stand-ins for the issuer to compile."),
P("C12", "Malformed request macro invocations do not compile",
  "An invocation of a request macro that lacks a required member, has a member its request does not have (or that belongs to another grant), or names an unsupported grant type, format, detail type or proof type is refused at compile time. The same holds when the fault is inside one of several authorization details, grant types or configuration ids.",
  ["inputs"], "every malformed invocation of the request macros", "No test has an invocation that must be refused.",
  ["crates/macros/src/authorization.rs", "crates/macros/src/token.rs", "crates/macros/src/credential.rs", "crates/macros/src/create_offer.rs", "crates/macros/src/parse.rs"],
  [("expand functions, Json::parse", "crates/macros/src")], ["compile errors of the request macros"],
  "well-formed invocations with one generated fault, put through the compiler", SAMPLED),
P("C13", "A status list holds each entry's status at its own index and nothing else",
  "For every set of log entries and list configuration, the encoded list (multibase base64url of a gzipped bitstring of at least 131072 bits, most significant bit first) has, for each entry of the list's purpose, the entry's value at index times status size, and zero everywhere else. Entries of other purposes are ignored, an index outside the list or a value that does not fit its bits is refused, and changing one status changes only that entry's bits.",
  ["inputs", "histories"], "every set of log entries, purposes and sizes", "The crate has one test with two entries.",
  ["crates/status/src/bitstring.rs", "crates/status/src/log.rs", "crates/status/src/config.rs"], [("bitstring", "crates/status/src/bitstring.rs")], ["vercre_status::bitstring::bitstring"],
  "decoded by an independent reader and compared with a map model; metamorphic updates", SAMPLED + STAND),
P("C14", "A status list credential says what its configuration says and verifies",
  "The issued status list credential is signed by the issuer, verifies, and carries the configured id, issuer, status list type, purpose, encoded list, time to live (300000 ms by default) and issue time; a changed list no longer verifies. Status errors serialize as JSON with their code and detail whatever the text.",
  ["inputs"], "every list configuration and every error text", "No test verifies an issued list.",
  ["crates/status/src/issuer.rs", "crates/status/src/verifier.rs", "crates/status/src/bitstring.rs"], [("credential", "crates/status/src/issuer.rs")], ["vercre_status::issuer::credential", "vercre_status error JSON"],
  "issue, verify with an independent reading of the token, tamper", SAMPLED + STAND),
P("C15", "A signed credential or presentation verifies to exactly what was signed",
  "Creating a JOSE proof for any credential or presentation and verifying it returns the same credential or presentation, client id, nonce and issue time, and its registered claims (iss, sub, jti, exp, aud, nonce) mirror the document. Any change of header, payload or signature, a signature by another or unpublished key, an unsigned document, or a credential given as a presentation (or the reverse) is refused.",
  ["inputs"], "every credential, presentation and alteration of a token", "The tests sign and verify one fixed credential and never tamper.",
  ["crates/w3c-vc/src/proof.rs", "crates/w3c-vc/src/proof/jose.rs"], [("create, verify", "crates/w3c-vc/src/proof.rs")], ["vercre_w3c_vc::proof::{create, verify}"],
  "round trip, independent token reading, mutation of tokens", SAMPLED + STAND + "A presentation object with an embedded proof is not covered."),
P("C16", "Credentials and presentations keep every member through JSON and text",
  "Every credential and presentation written with the W3C member names is read with each member at its value and written again as the same JSON, one-or-many members keeping their shape; presentations are also read from their JSON text and base64url text. Builders refuse documents without their required members, and a language-tagged text keeps every value added, one per language.",
  ["inputs", "histories"], "every credential and presentation, every history of builder calls", "Two fixed documents are serialized by tests.",
  ["crates/w3c-vc/src/model/vc.rs", "crates/w3c-vc/src/model/vp.rs", "crates/w3c-vc/src/model/types.rs"], [("serde attributes, builders, FromStr", "crates/w3c-vc/src/model")], ["vercre_w3c_vc::model"],
  "independently written JSON, read, inspected and rewritten; model-based builder histories", SAMPLED),
P("C17", "OpenID errors carry their code and description exactly, in every form",
  "For every OpenID error and every description text, the JSON, Display and query string forms carry the specified error code and that description, together with the fresh nonce and its expiry or the polling interval where the error has them, and are well formed whatever characters the text has.",
  ["inputs"], "every error kind and description", "Descriptions without special characters are tested.",
  ["crates/openid/src/error.rs"], [("Error serialization", "crates/openid/src/error.rs")], ["vercre_openid::Error"],
  "independent JSON and query string readers", SAMPLED),
P("C18", "OpenID issuer and verifier messages keep every member on the wire",
  "Every issuance and presentation message (offer, authorization, token, credential, deferred, notification, metadata, request object, response) written with the specification's member names is read with each member at its value and written again as the same JSON. Query string forms and QR codes carry the same members as JSON, and token or credential requests lacking what their grant or format requires are refused.",
  ["inputs"], "every message of every kind", "A few fixed messages are serialized by tests.",
  ["crates/openid/src/issuer.rs", "crates/openid/src/oauth.rs", "crates/openid/src/verifier.rs"], [("serde attributes", "crates/openid/src")], ["vercre_openid::{issuer, verifier}"],
  "independently written JSON and query strings, read, inspected and rewritten", SAMPLED + "Shapes the types cannot tell apart (see DESIGN.md) are left out."),
P("C19", "A requested claimset is accepted only if supported and complete",
  "A claimset requested for a credential is accepted exactly when every requested claim, at every depth, is one the credential configuration supports and every mandatory claim of a part that is requested is present. Looking up a configuration by format finds a configuration whose format is the one asked for, and none if there is none.",
  ["inputs"], "every configuration and every requested claimset", "One happy-path lookup is tested.",
  ["crates/openid/src/issuer.rs"], [("verify_claims, credential_configuration_id", "crates/openid/src/issuer.rs")], ["CredentialDefinition::verify_claims, Issuer::credential_configuration_id"],
  "differential against a reference decision; metamorphic removal and addition of claims", SAMPLED + "A single value requested where a set is offered is left open."),
P("C20", "An issued mdoc covers every claim with a verifiable, salted digest",
  "Every claim of every name space is in the mdoc exactly once with its value, under a unique non-negative digest id and a salt of at least 16 bytes not used twice. The mobile security object's digest for that id is the SHA-256 of the item's bytes, it carries the device key and validity, and the COSE signature over it verifies with the issuer's key; a name space that is not an object is refused.",
  ["inputs"], "every set of name spaces and claims", "The crate's test checks that an mdoc is produced.",
  ["crates/iso-mdl/src/lib.rs", "crates/iso-mdl/src/mdoc.rs", "crates/iso-mdl/src/mso.rs"], [("to_credential", "crates/iso-mdl/src/lib.rs")], ["vercre_iso_mdl::to_credential"],
  "independent CBOR reader, digest recomputation and signature verification", SAMPLED + STAND),
P("C21", "An offer says what was asked for and is made only if it can be honoured",
  "A credential offer is created exactly when the issuer is known, at least one and only supported configurations are offered, every grant is supported, and, for a pre-authorized offer, the subject is named and entitled to each credential; it then names just those credentials and grants with fresh keys, and a six-digit transaction code, never part of the offer, exactly when one was required. An offer by reference can be retrieved once, within its five minutes and from its own issuer only, and is the offer that was made.",
  ["histories", "inputs"], "every history of offers, retrievals and their use", "Three fixed offers are created by tests that do not run here; refusal, expiry and reuse are not covered.",
  ["vercre-issuer/src/create_offer.rs", "vercre-issuer/src/credential_offer.rs"], [("create_offer, credential_offer", "vercre-issuer/src")], ["vercre_issuer::{create_offer, credential_offer}"],
  "model-based histories over a generated issuer, compared with a model of the issuer", SAMPLED + STAND),
P("C22", "Authorization is granted only for what client, server and subject allow",
  "An authorization request, direct or pushed, gets a fresh code exactly when client, redirect URI, response type, grant, PKCE method, issuer state and requested credentials (by configuration, format or scope) are valid, its claims are supported, and the subject is entitled to every credential asked for; exactly those are authorized. A pushed request can be used only by its URI, within its lifetime, and is required where the server says so; the client's state comes back unchanged.",
  ["histories", "inputs"], "every authorization request in every history", "A handful of requests are tried by tests that do not run here.",
  ["vercre-issuer/src/authorize.rs", "vercre-issuer/src/par.rs"], [("verify, process", "vercre-issuer/src/authorize.rs"), ("par", "vercre-issuer/src/par.rs")], ["vercre_issuer::{authorize, par}"],
  "model-based histories with faulty requests, compared with a model of the issuer", SAMPLED + STAND + "Reuse of a pushed request within its lifetime and scopes wholly covered by details are left open."),
P("C23", "A code is exchanged for a token once, by its client, with its secrets",
  "A token is granted exactly when the code is live and unused, the grant is supported, the transaction code (pre-authorized) or client, redirect URI and PKCE verifier (authorization code) are those of the code, and the authorization details asked for are within what was authorized. The token is fresh, lasts as long as the response says, and covers exactly the credential identifiers the subject has for the authorized (or narrowed) credentials.",
  ["histories", "inputs"], "every sequence of codes, exchanges and replays", "Two successful exchanges are covered by tests that do not run here.",
  ["vercre-issuer/src/token.rs", "vercre-issuer/src/state.rs"], [("token verify and process", "vercre-issuer/src/token.rs")], ["vercre_issuer::token"],
  "model-based histories with replays, expiry and swapped secrets", SAMPLED + STAND),
P("C24", "A credential is issued only to a live token with a fresh proof of its own key",
  "A credential request is honoured exactly when its token is live and covers the credential asked for (by identifier or format) and, where the configuration takes proofs, every proof is a valid signature by the key it names over this issuer's audience and the token's current nonce. Each issuance, and each refusal of a proof, replaces the nonce, so no proof works twice.",
  ["histories", "inputs"], "every credential request in every history", "Happy paths only, in tests that do not run here.",
  ["vercre-issuer/src/credential.rs"], [("verify_proof, verify", "vercre-issuer/src/credential.rs")], ["vercre_issuer::credential"],
  "model-based histories with eleven kinds of faulty proof and replays of old nonces", SAMPLED + STAND),
P("C25", "An issued credential holds its subject's own claims and nothing else",
  "A credential issued is signed by the issuer and is bound to the key that was proved; it holds exactly the claims of the dataset of the token's subject for the identifier asked for, narrowed to the claims a request by format selects, with the configuration's type and display, the dataset's status entry and the time of issue. Mobile driving licences carry the same claims under valid digests and signature.",
  ["histories", "inputs"], "every dataset, subject, selection of claims and history", "One credential per format is compared with a snapshot in tests that do not run here.",
  ["vercre-issuer/src/credential.rs"], [("issue_response, authorized claims", "vercre-issuer/src/credential.rs")], ["vercre_issuer::credential"],
  "model-based histories; credentials read independently and compared with the dataset", SAMPLED + STAND + "Claims selected at authorization are not applied (known finding)."),
P("C26", "Deferred issuance, notification, registration and metadata follow the state",
  "A credential whose claims are pending is deferred under a fresh transaction, which the same token can collect exactly once, with the credential that was asked for, as soon as the claims are ready and not before, within its lifetime. Notifications are accepted for issued credentials only, clients are registered only with a live token and as they asked, and metadata is what the provider has.",
  ["histories", "inputs"], "every order of deferral, approval, collection, notification and registration", "One deferral and one registration are covered by tests that do not run here.",
  ["vercre-issuer/src/deferred.rs", "vercre-issuer/src/notification.rs", "vercre-issuer/src/register.rs", "vercre-issuer/src/metadata.rs"], [("process", "vercre-issuer/src/deferred.rs")], ["vercre_issuer::{deferred, notification, register, metadata, oauth_server}"],
  "model-based histories of waiting and collecting", SAMPLED + STAND + "Collection after the nonce changed (known finding), repeated notifications and the token of a notification are left open."),
P("C27", "No history, expiry or provider failure yields an unauthorized credential",
  "In every history of offers, authorizations, exchanges, issuances and deferrals by several wallets and subjects, with time passing and any call to a provider failing, a request whose provider call failed is refused, nothing is granted that an undisturbed issuer would not grant, and every credential issued is one its receiver was authorized for.",
  ["histories", "crash_points", "schedules"], "every history, every provider call as the point of failure, every passage of time", "No test makes a provider fail or lets time pass.",
  ["vercre-issuer/src", "vercre-issuer/src/state.rs"], [("state transitions", "vercre-issuer/src/state.rs")], ["every endpoint of vercre_issuer"],
  "stateful histories with fault injection and clock control", SAMPLED + STAND),
P("C28", "A presentation request is what was asked for, signed, and short-lived",
  "A request is created exactly when the verifier is known and something is asked for, with a fresh state and nonce and a definition holding the descriptors as given; a same-device request is handed out at once, a cross-device one only by its URI. A fetched request is signed by its verifier, always the same, and is served only for that verifier, until it is answered or its five minutes are over.",
  ["histories", "inputs"], "every history of requests, fetches and answers at several verifiers", "Fixed requests are created by tests that do not run here.",
  ["vercre-verifier/src/create_request.rs", "vercre-verifier/src/request_object.rs", "vercre-verifier/src/metadata.rs"], [("process", "vercre-verifier/src/create_request.rs")], ["vercre_verifier::{create_request, request_object, metadata}"],
  "model-based histories with expiry, foreign keys and provider failures", SAMPLED + STAND),
P("C29", "A presentation is accepted once, and only if it satisfies its request",
  "A response is accepted exactly when its state is that of a live request, its presentations are signed by their holders for this request's nonce and verifier, its submission answers the request's definition and maps every input descriptor, in an allowed format, to a presented credential that is signed by its issuer, has not expired and satisfies the descriptor's constraints. An accepted response closes the request, and a refused one leaves it as it was.",
  ["histories", "inputs"], "every response in every history", "Happy paths only, in tests that do not run here.",
  ["vercre-verifier/src/response.rs"], [("verify", "vercre-verifier/src/response.rs")], ["vercre_verifier::response"],
  "model-based histories with faulty, swapped and replayed responses", SAMPLED + STAND + "Embedded proofs and holder binding are known findings; the validity period of the presentation token itself and wildcard paths are left open."),
P("C30", "A wallet gets and keeps exactly the credentials its holder accepted",
  "Whatever the offer (either grant, both or none) or the wallet's own request (by configuration, format or scope), the steps offer, accept, PIN, token or authorize, credentials, deferred and save work in that order and are refused, without calling the issuer, in any other; the issuer is asked for exactly what the holder accepted. Saving stores each credential as issued and nothing else, a credential that does not verify is refused, a failed save can be repeated, and cancelling or finishing removes the flow.",
  ["histories", "crash_points", "inputs"], "every order of steps, offer, choice and provider failure", "One path per grant is covered by tests that do not run here.",
  ["vercre-holder/src/issuance", "vercre-holder/src/issuance.rs"], [("issuance endpoints", "vercre-holder/src/issuance")], ["vercre_holder::issuance"],
  "stateful histories against the real issuer, with meddled messages and fault injection", SAMPLED + STAND + "JWT credentials only; what happens to a flow after a failed call to the issuer is left open."),
P("C31", "A wallet presents matching credentials, with consent, to who asked for them",
  "For a request with one input descriptor, by URI or by value, the wallet finds exactly the stored credentials that satisfy it; after the holder's authorization, and not before, it sends them in one presentation signed by its key for that request's nonce and verifier, which the verifier accepts if there is a matching credential. A request that is not signed by its named key is refused, steps out of order are refused, and a presentation status is read back from its text.",
  ["histories", "inputs"], "every store of credentials, request and order of steps", "Two fixed flows are covered by tests that do not run here.",
  ["vercre-holder/src/presentation", "vercre-holder/src/presentation.rs"], [("presentation endpoints", "vercre-holder/src/presentation")], ["vercre_holder::presentation"],
  "stateful histories against the real verifier, some after issuance by the real issuer", SAMPLED + STAND + "Requests with several descriptors are a known finding."),
]
