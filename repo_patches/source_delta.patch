From 4e7d9a2b5f4a8f27c423fe0796bbc25681809cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:24 +0000
Subject: [PATCH 01/61] fix: escape separators and JSON special characters when
 url-encoding text

---
 crates/core/src/urlencode/ser.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..7d4efbd 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -1,11 +1,21 @@
-use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC};
 use serde::{ser, Serialize};
 
 use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
-const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+const UNRESERVED: &AsciiSet = &NON_ALPHANUMERIC
+    .remove(b'%')
+    .remove(b'&')
+    .remove(b'=')
+    .remove(b'.')
+    .remove(b'_')
+    .remove(b'-')
+    .remove(b'~');
+
+// Escaped in data so as not to be taken for the separators (`&`, `=`) or the
+// escape character (`%`) of the url-encoded string.
+const RESERVED: &AsciiSet = &CONTROLS.add(b'%').add(b'&').add(b'=');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -137,11 +147,10 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output += v;
-            self.output += "\"";
+            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
+            self.output.extend(utf8_percent_encode(&json, RESERVED));
         } else {
-            self.output += v;
+            self.output.extend(utf8_percent_encode(v, RESERVED));
         }
         Ok(())
     }
-- 
2.43.0


From ee32c3e60fe254dbc2e666d1f32a15f78bfc5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:24 +0000
Subject: [PATCH 02/61] fix: url-encode the fields after a tuple at their own
 level

---
 crates/core/src/urlencode/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 7d4efbd..05ca111 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -251,7 +251,6 @@ impl ser::Serializer for &mut Serializer {
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
-- 
2.43.0


From 642fbe8e822fc75f5c74c89654ef4f813282f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:24 +0000
Subject: [PATCH 03/61] fix: url-encode a top-level map (or flattened struct)
 as parameters

---
 crates/core/src/urlencode/ser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 05ca111..adf3371 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -443,8 +443,12 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            if !self.output.ends_with('{') {
+                self.output += ",";
+            }
+        } else if !self.output.is_empty() {
+            self.output += "&";
         }
         key.serialize(&mut **self)
     }
@@ -453,12 +457,18 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        if self.level > TOP_LEVEL {
+            self.output += ":";
+        } else {
+            self.output += "=";
+        }
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
+        if self.level > TOP_LEVEL {
+            self.output += "}";
+        }
         self.level -= 1;
         Ok(())
     }
-- 
2.43.0


From f76fef2596c7e2fcc80a3e97d77ab8f16eac6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:47 +0000
Subject: [PATCH 04/61] fix: split a url-encoded string into parameters before
 decoding them

---
 crates/core/src/urlencode.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..eae6e43 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -6,6 +6,7 @@ mod ser;
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
 use serde::de::DeserializeOwned;
+use serde_json::{Map, Value};
 
 use crate::urlencode::error::{Error, Result};
 
@@ -48,18 +49,27 @@ pub fn from_str<T>(s: &str) -> Result<T>
 where
     T: DeserializeOwned,
 {
-    // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    let mut params = Map::new();
+
+    // split before decoding: decoded data may contain separators
+    for pair in s.split('&').filter(|pair| !pair.is_empty()) {
+        let Some((name, value)) = pair.split_once('=') else {
+            return Err(Error::Message(format!("parameter {pair} has no value")));
+        };
+        let name = percent_decode_str(name).decode_utf8_lossy().to_string();
+        let value = percent_decode_str(value).decode_utf8_lossy().to_string();
+
+        // nested values are JSON objects and arrays, anything else is text
+        let value = match serde_json::from_str(&value) {
+            Ok(nested @ (Value::Object(_) | Value::Array(_))) => nested,
+            _ => Value::String(value),
+        };
+        if params.insert(name.clone(), value).is_some() {
+            return Err(Error::Message(format!("duplicate parameter {name}")));
+        }
+    }
+
+    serde_json::from_value(Value::Object(params)).map_err(|e| Error::Message(e.to_string()))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4530274f14f669dbfd0ebb2866c0d250ed3a1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 05/61] fix: compare text, boolean and null claims with a const
 filter

---
 crates/dif-exch/src/matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..6c4fe9a 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -109,10 +109,10 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match vc_node {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
+        Value::String(str_node) => Ok(*str_node == const_val),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
-        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
-        Value::Null => Ok(true),
+        Value::Bool(bool_node) => Ok(bool_node.to_string() == const_val),
+        Value::Null => Ok(false),
         Value::Object(_) => {
             unimplemented!("object matching not implemented")
         }
-- 
2.43.0


From 31b2ea36ae575fb4d337d4c7013faeed42c1afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 06/61] fix: do not panic on an object claim with a const
 filter

---
 crates/dif-exch/src/matcher.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 6c4fe9a..c05290e 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -113,9 +113,8 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
         Value::Bool(bool_node) => Ok(bool_node.to_string() == const_val),
         Value::Null => Ok(false),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
-        }
+        // a constant is text: it never equals an object
+        Value::Object(_) => Ok(false),
     }
 }
 
-- 
2.43.0


From fa02d9b833947e29ee36da95558e31717e643dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 07/61] fix: do not panic on a format filter that is not
 supported

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index c05290e..3c98387 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -145,7 +145,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("format matching not implemented for {format}")),
     }
 }
 
-- 
2.43.0


From 558d733cde9f58347fece2ce3acb4d83dc3d0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 08/61] fix: match a pattern filter with claim values rather
 than their JSON text

---
 crates/dif-exch/src/matcher.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 3c98387..e42c3df 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -127,7 +127,15 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    let is_match = |node: &Value| match node {
+        Value::String(str_node) => re.is_match(str_node),
+        _ => re.is_match(&node.to_string()),
+    };
+
+    match vc_node {
+        Value::Array(arr_node) => Ok(arr_node.iter().any(is_match)),
+        _ => Ok(is_match(vc_node)),
+    }
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From c67a88020b957f644a5c9de435adda1394998c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 09/61] fix: try a field's next path when the filter does not
 match

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index e42c3df..74e59e0 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -74,7 +74,7 @@ impl Field {
             if let Some(node) = nodes.into_iter().next() {
                 match filter.value.matched(node) {
                     Ok(true) => return Ok(true),
-                    Ok(false) => break,
+                    Ok(false) => {}
                     Err(e) => return Err(e),
                 }
             }
-- 
2.43.0


From fa427cd1d3967b5ad6779da547e5883692ce0aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:17 +0000
Subject: [PATCH 10/61] fix: an optional field that is present has to match its
 filter

---
 crates/dif-exch/src/matcher.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 74e59e0..89b4b70 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -34,8 +34,8 @@ impl Constraints {
 
         // EVERY field must match
         for field in fields {
-            // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
+            // if no match, constraints are not satisfied
+            if !field.matched(&vc_val).unwrap_or_default() {
                 return Ok(false);
             }
         }
@@ -50,8 +50,11 @@ impl Field {
     /// provided `VerifiableCredential`.
     /// The [Presentation Exchange 2.0.0] specification only requires one
     /// matching JSON path expression for the field to be considered
-    /// matched.
+    /// matched. An optional field is also matched when it is absent, but not
+    /// when its value does not match the filter.
     fn matched(&self, vc: &Value) -> Result<bool> {
+        let mut found = false;
+
         // find the FIRST matching JSON path expression for field
         for path in &self.path {
             // execute JSONPath query
@@ -64,6 +67,7 @@ impl Field {
             if nodes.is_empty() {
                 continue;
             }
+            found = true;
 
             // no filter == match(?)
             let Some(filter) = &self.filter else {
@@ -80,7 +84,7 @@ impl Field {
             }
         }
 
-        Ok(false)
+        Ok(!found && self.optional.unwrap_or_default())
     }
 }
 
-- 
2.43.0


From 3c82ad295a5e4f59f13ee70a94fe176ad3309c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 11/61] fix: separate the items of authorization_details in
 request macros

---
 crates/macros/src/authorization.rs | 2 +-
 crates/macros/src/token.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..d97e1e4 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -93,7 +93,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
                 locations: None
-            }
+            },
         });
     }
 
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..19d04cb 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -118,7 +118,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
                 locations: None
-            }
+            },
         });
     }
 
-- 
2.43.0


From 20e354db8669f535547a6ad8cb7a08c72295c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 12/61] fix: accept several grant types in create_offer_request
 and report malformed ones

---
 crates/macros/src/create_offer.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..84725fc 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -55,18 +55,25 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
     if let Some(gts) = input {
         let mut tokens = TokenStream::new();
 
-        for gt in gts.as_array().unwrap() {
-            match gt.as_str().unwrap() {
+        let Some(gts) = gts.as_array() else {
+            return Err(Error::new(span, "`grant_types` must be an array"));
+        };
+
+        for gt in gts {
+            let Some(grant_type) = gt.as_str() else {
+                return Err(Error::new(span, "`grant_types` must be strings"));
+            };
+            match grant_type {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                 }
                 _ => {
                     return Err(Error::new(
                         span,
-                        format!("unsupported grant type: {}", gt.as_str().unwrap()),
+                        format!("unsupported grant type: {grant_type}"),
                     ));
                 }
             }
-- 
2.43.0


From e0c14b32e478c29f5493e9f6a1fcfad8ea87d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 13/61] fix: do not require SendType in scope to use
 create_offer_request

---
 crates/macros/src/create_offer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 84725fc..575e597 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -30,8 +30,9 @@ pub fn request(input: &Json) -> Result<TokenStream> {
     let grant_types = grant_types(input.get("grant_types"))?;
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
-    let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+    let send_type = input
+        .get("send_type")
+        .map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
-- 
2.43.0


From a1bbcde02945cf38824022d4dd0e1924ce031e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 14/61] fix: expand the credential definition of token_request
 to the types it fills

---
 crates/macros/src/authorization.rs |  2 +-
 crates/macros/src/token.rs         | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index d97e1e4..4a7d697 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -219,7 +219,7 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     }
 }
 
-fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
+pub fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
     let path = quote! {vercre_issuer};
 
     let claims = claimset.iter().map(|(k, v)| {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 19d04cb..3a2a3ac 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::claims;
 use crate::parse::{Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
@@ -134,9 +135,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
+            quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
         } else {
             quote! {None}
         };
@@ -227,7 +226,6 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
 
 fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
-    let path = quote! {vercre_issuer};
 
     if let Some(subject_value) = definition.get("credentialSubject") {
         let Some(credential_subject) = subject_value.as_object() else {
@@ -235,13 +233,9 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
         };
 
         // build claims map
-        let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
-        });
+        let claims = claims(credential_subject);
 
-        Ok(quote! {
-            Some(std::collections::HashMap::from([#(#claims),*]))
-        })
+        Ok(quote! {#claims})
     } else {
         Ok(quote! {None})
     }
-- 
2.43.0


From 779e7b7e8df32c59dab9902b090cb90695b3e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 15/61] fix: keep the claims of a credential_request's
 credential definition

---
 crates/macros/src/authorization.rs | 2 +-
 crates/macros/src/credential.rs    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 4a7d697..31c21cf 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -202,7 +202,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     })
 }
 
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
+pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
 
     if let Some(subject_value) = definition.get("credentialSubject") {
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 72a33a0..e015877 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -2,6 +2,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
@@ -79,11 +80,11 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`type` is not set"));
     };
 
-    // let subject = subject(credential_definition)?;
+    let subject = subject(credential_definition)?;
 
     Ok(quote! {
         #path::CredentialDefinition {
-            credential_subject: None,
+            credential_subject: #subject,
             context: None,
             type_: Some(#type_array),
         }
-- 
2.43.0


From b0041518fbb28f69e99cd1aaeaf94402e18cc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:39 +0000
Subject: [PATCH 16/61] fix: name the missing field in request macro errors

---
 crates/macros/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..f57d6ca 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -20,7 +20,7 @@ impl Json {
     /// Expect the key to be present and return the value or an error.
     pub fn expect(&mut self, key: &str) -> Result<Value> {
         let Some(v) = self.fields.remove(key) else {
-            return Err(Error::new(Span::call_site(), "`{key}` is not set"));
+            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
         };
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
-- 
2.43.0


From 20090a6968e76afcb2a2d157c4d5f800ae2efeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:23 +0000
Subject: [PATCH 17/61] fix: build status list credentials with a context and a
 well-formed id

---
 crates/status/src/bitstring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 4593791..a8629cd 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -15,6 +15,7 @@ use flate2::write::GzEncoder;
 use serde::{Deserialize, Serialize};
 use serde_json::{Map, Value};
 use thiserror::Error;
+use vercre_core::Kind;
 use vercre_infosec::Signer;
 use vercre_w3c_vc::model::{CredentialStatus, CredentialSubject, StatusPurpose, VcBuilder};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
@@ -203,7 +204,7 @@ pub async fn credential(
     if !base_url.ends_with('/') {
         base_url.push('/');
     }
-    let id = format!("{base_url}/{}", config.list);
+    let id = format!("{base_url}{}", config.list);
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
@@ -216,6 +217,7 @@ pub async fn credential(
     let issued_at = Utc::now().timestamp();
 
     let vc = VcBuilder::new()
+        .add_context(Kind::String("https://www.w3.org/ns/credentials/status/v1".into()))
         .id(id.clone())
         .add_type("BitstringStatusListCredential")
         .issuer(credential_issuer)
-- 
2.43.0


From 0720eabdabc15d4443010a72c99d36e4f3ebda2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:44 +0000
Subject: [PATCH 18/61] fix: keep a status inside its own bits of the status
 list

---
 crates/status/src/bitstring.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index a8629cd..71b041c 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -151,17 +151,23 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 continue;
             }
 
-            let position = status.list_index * config.size;
-            if position >= bits.len() {
+            let Some(position) = status
+                .list_index
+                .checked_mul(config.size)
+                .filter(|p| p.checked_add(config.size).is_some_and(|end| end <= bits.len()))
+            else {
                 return Err(anyhow!("status index out of range"));
-            }
+            };
             match config.purpose {
                 StatusPurpose::Revocation | StatusPurpose::Suspension => {
                     bits.set(position, status.value != 0);
                 }
                 StatusPurpose::Message => {
                     let value = status.value.view_bits::<Lsb0>();
-                    for (i, bit) in value.iter().enumerate() {
+                    if config.size < value.len() && value[config.size..].any() {
+                        return Err(anyhow!("status value does not fit the status size"));
+                    }
+                    for (i, bit) in value.iter().take(config.size).enumerate() {
                         bits.set(position + i, *bit);
                     }
                 }
-- 
2.43.0


From c5ed4b85f117805b54ce30b3155481c97258c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:44 +0000
Subject: [PATCH 19/61] fix: encode the status list as a multibase bitstring

---
 crates/status/src/bitstring.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 71b041c..272af1c 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -8,7 +8,7 @@ use std::io::Write;
 use anyhow::anyhow;
 use base64ct::{Base64UrlUnpadded, Encoding};
 use bitvec::bits;
-use bitvec::order::Lsb0;
+use bitvec::order::{Lsb0, Msb0};
 use bitvec::view::BitView;
 use chrono::Utc;
 use flate2::write::GzEncoder;
@@ -144,7 +144,7 @@ pub struct ValidationError {
 // TODO: Provide methods for updating the bitstring incrementally.
 #[allow(clippy::module_name_repetitions)]
 pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Result<String> {
-    let bits = bits![mut 0; MAX_ENTRIES];
+    let bits = bits![mut u8, Msb0; 0; MAX_ENTRIES];
     for entry in issued {
         for status in &entry.status {
             if status.purpose != config.purpose {
@@ -175,15 +175,16 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
         }
     }
 
-    let uncompressed = bits.into_iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
+    let uncompressed = bits.to_bitvec().into_vec();
 
     let mut gz_encoder = GzEncoder::new(Vec::new(), flate2::Compression::default());
-    gz_encoder.write_all(uncompressed.as_bytes())?;
+    gz_encoder.write_all(&uncompressed)?;
     let compressed = gz_encoder.finish()?;
 
     let encoded = Base64UrlUnpadded::encode_string(&compressed);
 
-    Ok(encoded)
+    // `u` is the multibase prefix of base64url without padding
+    Ok(format!("u{encoded}"))
 }
 
 /// Generates a bitstring status list credential for the given status type.
-- 
2.43.0


From 23d8c44f8295e1fefa6a8becc94df78a08f24059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:08 +0000
Subject: [PATCH 20/61] fix: escape the detail of status list errors

---
 crates/status/src/bitstring.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 272af1c..79df196 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -48,23 +48,28 @@ pub const DEFAULT_TTL: u64 = 300_000;
 #[derive(Error, Debug, Deserialize)]
 pub enum Error {
     /// Retrievel of the status list failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": {}}}"#, json_text(.0))]
     Retrieval(String),
 
     /// Validation of the status entry failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": {}}}"#, json_text(.0))]
     Verification(String),
 
     /// The status list length does not satisfy the minimum length required for
     /// herd privacy.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": {}}}"#, json_text(.0))]
     ListLength(String),
 
     /// The index into the status list is larger than the length of the list.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": {}}}"#, json_text(.0))]
     Range(String),
 }
 
+// text as a JSON string
+fn json_text(text: &str) -> Value {
+    Value::String(text.to_string())
+}
+
 impl Serialize for Error {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
         use serde::ser::Error as SerdeError;
-- 
2.43.0


From 15d40aecc720b89e86e49141bccad1f5dc727afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:08 +0000
Subject: [PATCH 21/61] fix: escape the description of OpenID errors

---
 crates/openid/src/error.rs | 48 +++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 8acb9ce..f7fb13a 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     /// parameter value, repeats a parameter, includes multiple credentials,
     /// utilizes more than one mechanism for authenticating the client, or is
     /// otherwise malformed.
-    #[error(r#"{{"error": "invalid_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_request", "error_description": {}}}"#, json_text(.0))]
     InvalidRequest(String),
 
     /// Client authentication failed (e.g., unknown client, no client
@@ -39,7 +39,7 @@ pub enum Error {
     ///
     /// Verifier's pre-registered metadata has been found based on the Client
     /// Identifier, but `client_metadata` parameter is also set.
-    #[error(r#"{{"error": "invalid_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_client", "error_description": {}}}"#, json_text(.0))]
     InvalidClient(String),
 
     /// The provided authorization grant (e.g., authorization code,
@@ -49,60 +49,60 @@ pub enum Error {
     ///
     /// The Authorization Server expects a PIN in the pre-authorized flow but
     /// the client provides the wrong PIN.
-    #[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, json_text(.0))]
     InvalidGrant(String),
 
     /// The client is not authorized to request an authorization code using this
     /// method.
-    #[error(r#"{{"error": "unauthorized_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unauthorized_client", "error_description": {}}}"#, json_text(.0))]
     UnauthorizedClient(String),
 
     /// The authorization grant type is not supported by the authorization
     /// server.
-    #[error(r#"{{"error": "unsupported_grant_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_grant_type", "error_description": {}}}"#, json_text(.0))]
     UnsupportedGrantType(String),
 
     /// The requested scope is invalid, unknown, malformed, or exceeds the scope
     /// granted.
-    #[error(r#"{{"error": "invalid_scope", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, json_text(.0))]
     InvalidScope(String),
 
     /// Unknown authorization details type or authorization details not
     /// conforming to the respective type definition
-    #[error(r#"{{"error": "invalid_authorization_details", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_authorization_details", "error_description": {}}}"#, json_text(.0))]
     InvalidAuthorizationDetails(String),
 
     /// The resource owner or authorization server denied the request.
-    #[error(r#"{{"error": "access_denied", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "access_denied", "error_description": {}}}"#, json_text(.0))]
     AccessDenied(String),
 
     /// The authorization server does not support obtaining an authorization
     /// code using this method.
-    #[error(r#"{{"error": "unsupported_response_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_response_type", "error_description": {}}}"#, json_text(.0))]
     UnsupportedResponseType(String),
 
     /// The authorization server encountered an unexpected condition that
     /// prevented it from fulfilling the request.
-    #[error(r#"{{"error": "server_error", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "server_error", "error_description": {}}}"#, json_text(.0))]
     ServerError(String),
 
     /// The authorization server is unable to handle the request due to
     /// temporary overloading or maintenance.
-    #[error(r#"{{"error": "temporarily_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "temporarily_unavailable", "error_description": {}}}"#, json_text(.0))]
     TemporarilyUnavailable(String),
 
     /// The Credential Request is missing a required parameter, includes an
     /// unsupported parameter or parameter value, repeats the same
     /// parameter, or is otherwise malformed.
-    #[error(r#"{{"error": "invalid_credential_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_credential_request", "error_description": {}}}"#, json_text(.0))]
     InvalidCredentialRequest(String),
 
     /// Requested credential type is not supported.
-    #[error(r#"{{"error": "unsupported_credential_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_type", "error_description": {}}}"#, json_text(.0))]
     UnsupportedCredentialType(String),
 
     /// Requested credential format is not supported.
-    #[error(r#"{{"error": "unsupported_credential_format", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_format", "error_description": {}}}"#, json_text(.0))]
     UnsupportedFormat(String),
 
     /// Credential Request did not contain a proof, or proof was invalid, i.e.
@@ -111,7 +111,7 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": "{hint}", "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#)]
+    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": {}, "c_nonce_expires_in": {c_nonce_expires_in}}}"#, json_text(.hint), json_text(.c_nonce))]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
@@ -119,7 +119,7 @@ pub enum Error {
     /// indicates that the Credential Issuer requires the Credential
     /// Response to be sent encrypted, but the Credential Request does not
     /// contain the necessary encryption parameters.
-    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": {}}}"#, json_text(.0))]
     InvalidEncryptionParameters(String),
 
     /// The Credential issuance is still pending. The error response SHOULD also
@@ -135,23 +135,24 @@ pub enum Error {
     /// This error occurs when the `transaction_id` was not issued by the
     /// respective Credential Issuer or it was already used to obtain the
     /// Credential.
-    #[error(r#"{{"error": "invalid_transaction_id", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_transaction_id", "error_description": {}}}"#, json_text(.0))]
     InvalidTransactionId(String),
 
     /// The Wallet does not support any of the formats requested by the
     /// Verifier, such as those included in the `vp_formats` registration
     /// parameter.
-    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": {}}}"#, json_text(.0))]
     VpFormatsNotSupported(String),
 
     /// The Presentation Definition URL cannot be reached.
-    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": {}}}"#, json_text(.0))]
     InvalidPresentationDefinitionUri(String),
 
     /// The Presentation Definition URL can be reached, but the specified
     /// `presentation_definition` cannot be found at the URL.
     #[error(
-        r#"{{"error": "invalid_presentation_definition_reference", "error_description": "{0}"}}"#
+        r#"{{"error": "invalid_presentation_definition_reference", "error_description": {}}}"#,
+        json_text(.0)
     )]
     InvalidPresentationDefinitionReference(String),
 
@@ -160,10 +161,15 @@ pub enum Error {
     /// Use when the User Agent cannot invoke the Wallet and another component
     /// receives the request while the End-User wishes to continue the journey
     /// on the Verifier website.
-    #[error(r#"{{"error": "wallet_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "wallet_unavailable", "error_description": {}}}"#, json_text(.0))]
     WalletUnavailable(String),
 }
 
+// text as a JSON string
+fn json_text(text: &str) -> serde_json::Value {
+    serde_json::Value::String(text.to_string())
+}
+
 /// Error response for `OpenID` for Verifiable Credentials.
 #[allow(clippy::module_name_repetitions)]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From f4145fc19561d9626fa3af1d88793cc9907f88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:08 +0000
Subject: [PATCH 22/61] fix: serialize the issuance_pending error

---
 crates/openid/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index f7fb13a..6f3fe35 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -178,6 +178,7 @@ pub struct OidError {
     pub error: String,
 
     /// Error description.
+    #[serde(default)]
     pub error_description: String,
 
     /// Optional client-state parameter.
@@ -191,6 +192,10 @@ pub struct OidError {
     /// The expiry time of the `c_nonce`.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub c_nonce_expires_in: Option<i64>,
+
+    /// The minimum time (in seconds) to wait before retrying a deferred request.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub interval: Option<i64>,
 }
 
 impl Serialize for Error {
-- 
2.43.0


From 2abfbfb5a49d2fbed0c53e0566d4199fd4468a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:08 +0000
Subject: [PATCH 23/61] fix: use the specified member names of a bitstring
 status entry

---
 crates/w3c-vc/src/model/vc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 6dbd03c..bf32009 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -232,6 +232,7 @@ impl Default for CredentialStatusType {
 ///
 /// [Bitstring Status List v1.0](https://www.w3.org/TR/vc-bitstring-status-list/)
 #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
+#[serde(rename_all = "camelCase")]
 pub struct Bitstring {
     /// The purpose of the status declaration stored in the bitstring.
     pub status_purpose: StatusPurpose,
-- 
2.43.0


From daeff25f0e5b60f3772cd0c10e55cbd9e2844ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:08 +0000
Subject: [PATCH 24/61] fix: do not panic on a presentation that starts with a
 multibyte character or is empty

---
 crates/w3c-vc/src/model/vp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..99b8118 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -168,7 +168,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
-- 
2.43.0


From ad7aac29ed1f4b97ff851b27cc5a61a7c4f1693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:08 +0000
Subject: [PATCH 25/61] fix: do not overflow when generating a digest id

---
 crates/iso-mdl/src/mso.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index 72f6c45..d276270 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -190,7 +190,7 @@ impl DigestIdGenerator {
     pub fn gen(&mut self) -> DigestId {
         let mut digest_id;
         loop {
-            digest_id = i32::abs(rand::thread_rng().gen());
+            digest_id = rand::thread_rng().gen_range(0..=i32::MAX);
             if self.used.insert(digest_id) {
                 return digest_id;
             }
-- 
2.43.0


From 1c2e9447c7d00d5b483e36ee66823cba232a0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:08 +0000
Subject: [PATCH 26/61] fix: sign the COSE Sig_structure of the mobile security
 object

---
 crates/iso-mdl/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/iso-mdl/src/lib.rs b/crates/iso-mdl/src/lib.rs
index 2a8c3c5..2f83ed5 100644
--- a/crates/iso-mdl/src/lib.rs
+++ b/crates/iso-mdl/src/lib.rs
@@ -72,9 +72,7 @@ pub async fn to_credential(
         y: None,
     };
 
-    // sign
     let mso_bytes = Tag24(mso).to_vec()?;
-    let signature = signer.sign(&mso_bytes).await;
 
     // build COSE_Sign1
     let algorithm = match signer.algorithm() {
@@ -86,13 +84,15 @@ pub async fn to_credential(
 
     let protected = HeaderBuilder::new().algorithm(algorithm).build();
     let unprotected = HeaderBuilder::new().key_id(key_id).build();
-    let cose_sign_1 = CoseSign1Builder::new()
+    let mut cose_sign_1 = CoseSign1Builder::new()
         .protected(protected)
         .unprotected(unprotected)
         .payload(mso_bytes)
-        .signature(signature)
         .build();
 
+    // sign the `Sig_structure` (with no external data)
+    cose_sign_1.signature = signer.try_sign(&cose_sign_1.tbs_data(&[])).await?;
+
     // add COSE_Sign1 to IssuerSigned object
     mdoc.issuer_auth = mso::IssuerAuth(cose_sign_1);
 
-- 
2.43.0


From ff42083e0e1864641fdfb8e904d0250fcc9b42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:08 +0000
Subject: [PATCH 27/61] fix: encode mdoc items with the specified names and
 byte strings

---
 crates/iso-mdl/src/lib.rs  |  6 +++---
 crates/iso-mdl/src/mdoc.rs | 23 +++++++++++++++++++++--
 crates/iso-mdl/src/mso.rs  |  4 ++--
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/iso-mdl/src/lib.rs b/crates/iso-mdl/src/lib.rs
index 2f83ed5..ec15549 100644
--- a/crates/iso-mdl/src/lib.rs
+++ b/crates/iso-mdl/src/lib.rs
@@ -23,7 +23,7 @@ use sha2::{Digest, Sha256};
 use vercre_infosec::cose::{CoseKey, Tag24};
 use vercre_infosec::{Algorithm, Curve, KeyType, Signer};
 
-use crate::mdoc::{IssuerSigned, IssuerSignedItem};
+use crate::mdoc::{ByteString, IssuerSigned, IssuerSignedItem};
 use crate::mso::{DigestIdGenerator, MobileSecurityObject};
 
 /// Convert a Credential Dataset to a base64url-encoded, CBOR-encoded, ISO mDL
@@ -50,13 +50,13 @@ pub async fn to_credential(
         for (k, v) in name_space {
             let item = Tag24(IssuerSignedItem {
                 digest_id: id_gen.gen(),
-                random: thread_rng().gen::<[u8; 16]>().into(),
+                random: ByteString(thread_rng().gen::<[u8; 16]>().into()),
                 element_identifier: k.clone(),
                 element_value: cbor!(v)?,
             });
 
             // digest of `IssuerSignedItem` for MSO
-            let digest = Sha256::digest(&item.to_vec()?).to_vec();
+            let digest = ByteString(Sha256::digest(&item.to_vec()?).to_vec());
             mso.value_digests.entry(key.clone()).or_default().insert(item.digest_id, digest);
 
             // add item to IssuerSigned object
diff --git a/crates/iso-mdl/src/mdoc.rs b/crates/iso-mdl/src/mdoc.rs
index 9af4ba4..bdc88e1 100644
--- a/crates/iso-mdl/src/mdoc.rs
+++ b/crates/iso-mdl/src/mdoc.rs
@@ -13,7 +13,7 @@
 
 use std::collections::BTreeMap;
 
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
 use vercre_infosec::cose::{cbor, Tag24};
 
 use crate::mso;
@@ -53,15 +53,34 @@ impl IssuerSigned {
 /// CBOR serialization:  `#6.24(bstr .cbor IssuerSignedItem)`
 pub type IssuerSignedItemBytes = Tag24<IssuerSignedItem>;
 
+/// Bytes encoded as a CBOR byte string (rather than an array of integers).
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub struct ByteString(pub Vec<u8>);
+
+impl Serialize for ByteString {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.serialize_bytes(&self.0)
+    }
+}
+
+impl<'de> Deserialize<'de> for ByteString {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let value = ciborium::Value::deserialize(deserializer)?;
+        value.into_bytes().map(Self).map_err(|_| de::Error::custom("not a byte string"))
+    }
+}
+
 /// Issuer-signed data element
 #[derive(Clone, Debug, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 pub struct IssuerSignedItem {
     /// Id of the digest as added to the MSO `value_digests` parameter.
+    #[serde(rename = "digestID")]
     pub digest_id: mso::DigestId,
 
     /// Random hexadecimal value for issuer data authentication.
     /// (min. 16 bytes).
-    pub random: Vec<u8>,
+    pub random: ByteString,
 
     /// Data element identifier. For example, "`family_name`"
     pub element_identifier: String,
diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index d276270..70026a4 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -15,7 +15,7 @@ use rand::Rng;
 use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
 use vercre_infosec::cose::CoseKey;
 
-use crate::mdoc::NameSpace;
+use crate::mdoc::{ByteString, NameSpace};
 
 /// `IssuerAuth` is comprised of an MSO encapsulated and signed by an untagged
 /// `COSE_Sign1` type (RFC 8152).
@@ -94,7 +94,7 @@ impl MobileSecurityObject {
 pub type DigestId = i32;
 
 /// The SHA digest of a data element.
-pub type Digest = Vec<u8>;
+pub type Digest = ByteString;
 
 /// Digest algorithm used by the MSO.
 #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
-- 
2.43.0


From b0f0d206ce63ecd5ff6d50d8cca8bb8bf7723ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:09 +0000
Subject: [PATCH 28/61] fix: refuse a claimset with claims the credential does
 not support

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From a2f31b05ec1064ee17067b302dd191dae1ae6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:09 +0000
Subject: [PATCH 29/61] fix: name the Data Integrity credential format ldp_vc

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 47ff32e..0d7a20c 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -732,7 +732,7 @@ pub enum Format {
     /// used by the Wallet to check whether it supports a certain VC. If
     /// necessary, the Wallet could apply JSON-LD processing to the
     /// Credential issued.
-    #[serde(rename = "ldp-vc")]
+    #[serde(rename = "ldp_vc")]
     LdpVc(ProfileW3c),
 
     /// A W3C Verifiable Credential.
-- 
2.43.0


From 2de77e5efbe3e7bc00c62679d22c5a18cd8ddc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:09 +0000
Subject: [PATCH 30/61] fix: serialize a request object response as it is
 deserialized

---
 crates/openid/src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid/src/verifier.rs b/crates/openid/src/verifier.rs
index ef5a885..acc3bfc 100644
--- a/crates/openid/src/verifier.rs
+++ b/crates/openid/src/verifier.rs
@@ -440,9 +440,9 @@ impl Serialize for RequestObjectResponse {
         S: Serializer,
     {
         match &self.request_object {
-            RequestObjectType::Object(_) => {
+            RequestObjectType::Object(object) => {
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("request_object", &self.request_object)?;
+                map.serialize_entry("request_object", object)?;
                 map.end()
             }
             RequestObjectType::Jwt(jwt) => jwt.serialize(serializer),
-- 
2.43.0


From 214e4af4505707b01e394887fefbc95086cc15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:09 +0000
Subject: [PATCH 31/61] fix: tell a JSON authorization request from a query
 string by its first character

---
 crates/openid/src/issuer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 0d7a20c..b2e627f 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -434,10 +434,10 @@ impl FromStr for AuthorizationRequest {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.contains('=') && s.contains('&') {
-            Ok(urlencode::from_str(s)?)
+        if s.trim_start().starts_with('{') {
+            Ok(serde_json::from_str(s)?)
         } else {
-            Ok(Self::Object(serde_json::from_str(s)?))
+            Ok(urlencode::from_str(s)?)
         }
     }
 }
-- 
2.43.0


From c6dea8465bd0d48830285ab8b4b3e8b1aa2fff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:21 +0000
Subject: [PATCH 32/61] fix: name the purpose of a status list statusPurpose

---
 crates/status/src/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 79df196..3e4d286 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -220,7 +220,7 @@ pub async fn credential(
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
-    claims.insert("purpose".into(), Value::String(config.purpose.to_string()));
+    claims.insert("statusPurpose".into(), Value::String(config.purpose.to_string()));
     claims.insert("encodedList".into(), Value::String(bitstring.into()));
 
     let cache_time = ttl.unwrap_or(DEFAULT_TTL);
-- 
2.43.0


From 35f8489d6eb8cdbe9bad68ccaf4d5b131cc7861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:50 +0000
Subject: [PATCH 33/61] fix: do not panic on a credential with an empty list of
 subjects

---
 crates/w3c-vc/src/proof/jose.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index d25fde6..9d44304 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -87,8 +87,8 @@ pub struct VcClaims {
 impl VcClaims {
     pub fn from_vc(vc: VerifiableCredential, issued_at: i64) -> Self {
         let subject = match &vc.credential_subject {
-            Quota::One(sub) => sub,
-            Quota::Many(subs) => &subs[0],
+            Quota::One(sub) => Some(sub),
+            Quota::Many(subs) => subs.first(),
         };
 
         let issuer_id = match &vc.issuer {
@@ -98,7 +98,7 @@ impl VcClaims {
 
         Self {
             // TODO: find better way to set sub (shouldn't need to be in vc)
-            sub: subject.id.clone().unwrap_or_default(),
+            sub: subject.and_then(|sub| sub.id.clone()).unwrap_or_default(),
             nbf: None,
             iss: issuer_id.clone(),
             iat: issued_at,
-- 
2.43.0


From 068e27aaaef162006cef62338675da35a2c963ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 34/61] fix: allow anonymous token requests when the
 authorization server supports them

---
 vercre-issuer/src/token.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..21317e7 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,10 +94,8 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
-                {
+                let anonymous = request.client_id.as_ref().map_or(true, String::is_empty);
+                if anonymous && !server.pre_authorized_grant_anonymous_access_supported {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
 
@@ -152,7 +150,9 @@ impl Context {
             }
         }
 
-        if let Some(client_id) = &request.client_id {
+        if let Some(client_id) = &request.client_id
+            && !client_id.is_empty()
+        {
             // client metadata
             let Ok(client) = Metadata::client(provider, client_id).await else {
                 return Err(Error::InvalidClient("invalid `client_id`".into()));
-- 
2.43.0


From c4c321e304b351c61cb260f758c24e788c877c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 35/61] fix: keep an access token for as long as the token
 response says

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 21317e7..00b82d5 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -213,6 +213,7 @@ impl Context {
 
         // update state
         let mut state = self.state.clone();
+        state.expires_at = Utc::now() + Expire::Access.duration();
         state.stage = Stage::Validated(Token {
             access_token: access_token.clone(),
             credentials: authorized,
-- 
2.43.0


From 90f3f749bb458ea4f57b89561b159ac359c74fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 36/61] fix: accept pushed authorization requests when the
 server requires them

---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From 80ba37a141fe84c4e190bfbbd335472d0c687cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 37/61] fix: refuse authorization for a credential the issuer
 does not support

---
 vercre-issuer/src/authorize.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..fed9bff 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -300,14 +300,15 @@ impl Context {
                 }
             };
 
+            let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
+            else {
+                return Err(Error::InvalidAuthorizationDetails(
+                    "invalid credential_configuration_id".into(),
+                ));
+            };
+
             // check claims are supported and include all mandatory claims
             if let Some(requested) = &claims {
-                let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
-                else {
-                    return Err(Error::InvalidAuthorizationDetails(
-                        "invalid credential_configuration_id".into(),
-                    ));
-                };
                 config
                     .verify_claims(requested)
                     .map_err(|e| Error::InvalidRequest(e.to_string()))?;
-- 
2.43.0


From b0f313ecdf11732009050ca381d2aa3f36162d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 38/61] fix: authorize every scope item of an authorization
 request

---
 vercre-issuer/src/authorize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fed9bff..dca531c 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -324,7 +324,7 @@ impl Context {
     // Verify Credentials requested in `scope` are supported.
     // N.B. has side effect of saving valid scope items into context for later use.
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
-        if let Some(item) = scope.split_whitespace().next() {
+        for item in scope.split_whitespace() {
             let mut scope_map = HashMap::new();
 
             // find supported configurations that has the requested scope
-- 
2.43.0


From cf4981759b614de7519c2e1f06dbf8a7ee29a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 39/61] fix: authorize an offer made to no subject in
 particular

---
 vercre-issuer/src/authorize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index dca531c..64ed4d1 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -208,7 +208,11 @@ impl Context {
                 return Err(Error::InvalidRequest("issuer state expired".into()));
             }
 
-            if state.subject_id.as_ref() != Some(&request.subject_id) {
+            let Stage::Offered(_) = &state.stage else {
+                return Err(Error::InvalidRequest("invalid issuer state".into()));
+            };
+
+            if state.subject_id.as_ref().is_some_and(|id| id != &request.subject_id) {
                 return Err(Error::InvalidRequest(
                     "request `subject_id` does not match offer".into(),
                 ));
-- 
2.43.0


From 178abf21f782c3b45477eb878e62038d8852a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 40/61] fix: require proof of possession when a request has an
 empty list of proofs

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..08e7fda 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -122,6 +122,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From 8b8004e9e88222599f13cb8b74f46a20b46fa404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 41/61] fix: check the audience of a proof of possession

---
 vercre-holder/src/issuance/credentials.rs | 2 +-
 vercre-issuer/src/credential.rs           | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..4ec9fa0 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -88,7 +88,7 @@ pub async fn credentials(
     // Construct a proof to be used in the credential requests.
     let claims = ProofClaims {
         iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
+        aud: issuance.issuer.credential_issuer.clone(),
         iat: chrono::Utc::now().timestamp(),
         nonce: issuance.token.c_nonce.clone(),
     };
diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 08e7fda..e7c0322 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -145,6 +145,13 @@ impl Context {
                         .await?);
                 }
 
+                // intended for this issuer
+                if jwt.claims.aud != self.issuer.credential_issuer {
+                    return Err(self
+                        .invalid_proof(provider, "Proof JWT audience claim is invalid")
+                        .await?);
+                }
+
                 // previously issued c_nonce
                 if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
-- 
2.43.0


From c5aee1a5dddda1433004c35592eec1011339d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 42/61] fix: look up the status of the credential being issued

---
 vercre-issuer/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index e7c0322..3b3eeef 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -271,7 +271,7 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let status = Status::status(provider, subject_id, &self.authorized.credential_identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From a629a1ec4a71d3365537f9fae38c90828b9067ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 43/61] fix: save issued credentials for the notification
 endpoint

---
 vercre-issuer/src/credential.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 3b3eeef..fb56f45 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -204,10 +204,14 @@ impl Context {
         let signer = SecOps::signer(provider, &request.credential_issuer)
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
+        // issued credential, as saved for the notification endpoint
+        let mut issued = VerifiableCredential::default();
+
         // determine credential format
         let response = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
                 let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
+                issued = vc.clone();
                 self.jwt_vc_json(vc, signer, issuance_date).await?
             }
             Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
@@ -234,9 +238,7 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        state.stage = Stage::Issued(Credential { credential: issued });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From dbe884bc1fe54d4ca8108035ea805128e43a392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 44/61] fix: keep a deferred transaction while issuance is
 pending

---
 vercre-issuer/src/deferred.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..e6eb325 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -48,11 +48,6 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
@@ -61,11 +56,21 @@ async fn process(
     let response = credential(provider.clone(), cred_req).await?;
 
     // is issuance still pending?
-    if let CredentialResponseType::TransactionId(_) = response.response {
+    if let CredentialResponseType::TransactionId(txn_id) = &response.response {
+        // the Wallet retries using the transaction it already has
+        StateStore::purge(provider, txn_id)
+            .await
+            .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
         // TODO: make retry interval configurable
         return Err(Error::IssuancePending(5));
     };
 
+    // remove deferred state item
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
     Ok(DeferredCredentialResponse {
         credential_response: response,
     })
-- 
2.43.0


From 4831cd149957c26af25842780ed2ab50b161543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 45/61] fix: register clients only with a valid access token

---
 vercre-issuer/src/register.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/register.rs b/vercre-issuer/src/register.rs
index 8aa7875..21507e7 100644
--- a/vercre-issuer/src/register.rs
+++ b/vercre-issuer/src/register.rs
@@ -5,7 +5,7 @@ use vercre_openid::issuer::{Provider, RegistrationRequest, RegistrationResponse,
 use vercre_openid::{Error, Result};
 
 // use crate::shell;
-use crate::state::State;
+use crate::state::{Stage, State};
 
 /// Registration request handler.
 ///
@@ -25,10 +25,18 @@ async fn verify(provider: &impl Provider, request: &RegistrationRequest) -> Resu
     tracing::debug!("register::verify");
 
     // verify state is still accessible (has not expired)
-    match StateStore::get::<State>(provider, &request.access_token).await {
-        Ok(_) => Ok(()),
-        Err(e) => Err(Error::ServerError(format!("State not found: {e}"))),
+    let state = StateStore::get::<State>(provider, &request.access_token)
+        .await
+        .map_err(|e| Error::ServerError(format!("State not found: {e}")))?;
+
+    if state.is_expired() {
+        return Err(Error::AccessDenied("access token has expired".into()));
     }
+    let Stage::Validated(_) = &state.stage else {
+        return Err(Error::AccessDenied("invalid access token".into()));
+    };
+
+    Ok(())
 }
 
 async fn process(
-- 
2.43.0


From 4e16859b72dd155334525c67b120a84db60b06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 46/61] fix: accept only credentials that are on offer

---
 vercre-holder/src/issuance/accept.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vercre-holder/src/issuance/accept.rs b/vercre-holder/src/issuance/accept.rs
index 30f5b5c..94f79cf 100644
--- a/vercre-holder/src/issuance/accept.rs
+++ b/vercre-holder/src/issuance/accept.rs
@@ -81,6 +81,19 @@ pub async fn accept(
         }
     };
 
+    // only credentials on offer can be accepted
+    for auth_spec in request.accept.iter().flatten() {
+        if !issuance
+            .offer
+            .credential_configuration_ids
+            .contains(&auth_spec.credential_configuration_id)
+        {
+            let e = anyhow!("credential configuration accepted not found in offer");
+            tracing::error!(target: "Endpoint::accept", ?e);
+            return Err(e);
+        }
+    }
+
     issuance.accepted =
         narrow_scope(&issuance.issuer.credential_configurations_supported, request.accept.as_ref())
             .map_err(|e| {
-- 
2.43.0


From 67ee21c06b840db7631820b46a630a29af0b4628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 47/61] fix: request authorization for the credentials the
 holder accepted

---
 vercre-holder/src/issuance/authorize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..673fa53 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,9 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
-- 
2.43.0


From e26c584eada94d1a5ac9c1b743675956a129304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:33 +0000
Subject: [PATCH 48/61] fix: do not panic on a malformed presentation status

---
 vercre-holder/src/presentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..0108533 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(e) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(e.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From dc6713f4ad24fdf4c6c34d6de2108f6d4834d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:33 +0000
Subject: [PATCH 49/61] fix: make a new proof of possession for each credential
 request

---
 vercre-holder/src/issuance/credentials.rs | 52 +++++++++++------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 4ec9fa0..e6c1447 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -85,37 +85,21 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.issuer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
 
     // Stash the state for the next step (save or cancel or deferred).
@@ -135,9 +119,20 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof to be used in a credential request.
+async fn proof_jwt(provider: impl HolderProvider, issuance: &Issuance) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(issuance.client_id.clone()),
+        aud: issuance.issuer.credential_issuer.clone(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: issuance.token.c_nonce.clone(),
+    };
+    jws::encode(Type::Proof, &claims, provider).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +148,13 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = proof_jwt(provider.clone(), issuance).await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -185,7 +181,7 @@ async fn credential_by_format(
 
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     let Some(authorized) = &issuance.token.authorization_details else {
         bail!("no authorization details in token response");
@@ -217,6 +213,8 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            // a proof is valid for one request only, as the issuer replaces the nonce
+            let jwt = proof_jwt(provider.clone(), issuance).await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
-- 
2.43.0


From 77f2fbf39e853adf7bd015b0b6cc7a897dd4aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:33 +0000
Subject: [PATCH 50/61] fix: do not answer or serve an expired presentation
 request

---
 vercre-verifier/src/request_object.rs |  3 +++
 vercre-verifier/src/response.rs       |  3 +++
 vercre-verifier/src/state.rs          | 12 ++++++------
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/vercre-verifier/src/request_object.rs b/vercre-verifier/src/request_object.rs
index 38033ed..62e70e6 100644
--- a/vercre-verifier/src/request_object.rs
+++ b/vercre-verifier/src/request_object.rs
@@ -46,6 +46,9 @@ async fn process(
     let state = StateStore::get::<State>(&provider, &request.id)
         .await
         .map_err(|e| Error::ServerError(format!("issue fetching state: {e}")))?;
+    if state.expired() {
+        return Err(Error::InvalidRequest("state has expired".into()));
+    }
     let req_obj = state.request_object;
 
     // verify client_id (perhaps should use 'verify' method?)
diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..ceaa5c9 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -63,6 +63,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.expired() {
+        return Err(Error::InvalidRequest("state has expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
diff --git a/vercre-verifier/src/state.rs b/vercre-verifier/src/state.rs
index 701c59d..043d3e5 100644
--- a/vercre-verifier/src/state.rs
+++ b/vercre-verifier/src/state.rs
@@ -30,9 +30,9 @@ pub struct State {
     pub request_object: RequestObject,
 }
 
-// impl State {
-//     /// Determines whether state has expired or not.
-//     pub fn expired(&self) -> bool {
-//         self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
-//     }
-// }
+impl State {
+    /// Determines whether state has expired or not.
+    pub fn expired(&self) -> bool {
+        self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
+    }
+}
-- 
2.43.0


From 1a38a12418511e0ec4117c1b71b19277ec79a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:33 +0000
Subject: [PATCH 51/61] fix: check the audience of a presentation

---
 vercre-verifier/src/response.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index ceaa5c9..9dd0ec1 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -76,8 +76,8 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
 
     // check nonce matches
     for vp_val in &vp_token {
-        let (vp, nonce) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
-            Ok(Payload::Vp { vp, nonce, .. }) => (vp, nonce),
+        let (vp, nonce, client_id) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
+            Ok(Payload::Vp { vp, nonce, client_id }) => (vp, nonce, client_id),
             Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
             Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
         };
@@ -88,6 +88,10 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         if nonce != saved_req.nonce {
             return Err(Error::InvalidRequest("nonce does not match".into()));
         }
+        // a presentation signed as a JWT names the client it is intended for
+        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
+            return Err(Error::InvalidRequest("audience does not match".into()));
+        }
         vps.push(vp);
     }
 
-- 
2.43.0


From f6c1d995f38e7825b8635ced70fa917a457a19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:39 +0000
Subject: [PATCH 52/61] fix: holder keeps the nonce of every credential
 response

The issuer replaces the nonce each time it issues a credential. The nonce of
a credential requested by format, or collected after deferral, was dropped,
so the next credential request of the flow was refused.
---
 vercre-holder/src/issuance/credentials.rs | 6 ++++++
 vercre-holder/src/issuance/deferred.rs    | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index e6c1447..b7e8af2 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -176,6 +176,12 @@ async fn credential_by_format(
             return Err(e);
         }
     };
+    if cred_res.c_nonce.is_some() {
+        issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
+    }
+    if cred_res.c_nonce_expires_in.is_some() {
+        issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
+    }
     Ok(())
 }
 
diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index baa4dde..d879c93 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -91,6 +91,15 @@ pub async fn deferred(
         }
     };
 
+    // the issuer replaces the nonce with every credential issued
+    let cred_res = &deferred_response.credential_response;
+    if cred_res.c_nonce.is_some() {
+        issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
+    }
+    if cred_res.c_nonce_expires_in.is_some() {
+        issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
+    }
+
     // Release issuance state if no more deferred credentials and no
     // credentials to save, otherwise stash the state.
     if issuance.deferred.is_empty() && issuance.credentials.is_empty() {
-- 
2.43.0


From e971741ed90c0b8646724535ebe7797b3ee7edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:39 +0000
Subject: [PATCH 53/61] fix: a presentation needs no type besides
 VerifiablePresentation

A wallet could not answer a request that constrains credentials by pattern
only, as building the presentation failed.
---
 crates/w3c-vc/src/model/vp.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 99b8118..6b97846 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -156,10 +156,6 @@ impl VpBuilder {
         if self.vp.context.len() < 2 {
             bail!("context is required");
         }
-        if let Quota::One(_) = self.vp.type_ {
-            bail!("type is required");
-        }
-
         Ok(self.vp)
     }
 }
-- 
2.43.0


From a26ea159a481e9761d899cf0250bad47b0628c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:49 +0000
Subject: [PATCH 54/61] fix: request macros refuse unknown members inside
 details, definitions and proofs

---
 crates/macros/src/authorization.rs | 8 +++++++-
 crates/macros/src/credential.rs    | 4 +++-
 crates/macros/src/parse.rs         | 8 ++++++++
 crates/macros/src/token.rs         | 8 +++++++-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 31c21cf..8d54a5f 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -4,7 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
-use crate::parse::{Json, Value};
+use crate::parse::{check_members, Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
     // we remove fields as we go so we can check for unexpected input
@@ -106,6 +106,8 @@ fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStre
 
     // credential_configuration_id or format?
     if let Some(credential_configuration_id) = detail.get("credential_configuration_id") {
+        check_members(detail, &["type", "credential_configuration_id", "credential_definition"])?;
+
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
@@ -121,6 +123,8 @@ fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStre
             }
         })
     } else if let Some(format) = detail.get("format") {
+        check_members(detail, &["type", "format", "credential_definition"])?;
+
         // credential_definition is required
         let Some(defn_value) = detail.get("credential_definition") else {
             return Err(Error::new(span, "`credential_definition` is not set"));
@@ -152,6 +156,7 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    check_members(credential_definition, &["type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     // let context = if let Some(context) = credential_definition.get("@context") {
@@ -181,6 +186,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    check_members(credential_definition, &["type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     // let Some(context) = credential_definition.get("@context") else {
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index e015877..06f48f5 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -3,7 +3,7 @@ use quote::quote;
 use syn::parse::{Error, Result};
 
 use crate::authorization::subject;
-use crate::parse::{Json, Value};
+use crate::parse::{check_members, Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
 // doing basic validation and setting sensible defaults.
@@ -70,6 +70,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    check_members(credential_definition, &["type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     // let Some(context) = credential_definition.get("@context") else {
@@ -99,6 +100,7 @@ fn proof(input: &mut Json) -> Result<TokenStream> {
         let Some(proof) = p.as_object() else {
             return Err(Error::new(span, "`proof` must be an object"));
         };
+        check_members(proof, &["proof_type", "jwt"])?;
 
         if let Some(proof_type) = proof.get("proof_type") {
             if proof_type.as_str() != Some("jwt") {
diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index f57d6ca..df75cdd 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -206,6 +206,14 @@ impl Value {
     }
 }
 
+/// Check a nested object has no members other than those allowed.
+pub fn check_members(object: &HashMap<String, Value>, allowed: &[&str]) -> Result<()> {
+    if let Some(key) = object.keys().find(|k| !allowed.contains(&k.as_str())) {
+        return Err(Error::new(Span::call_site(), format!("unexpected field: `{key}`")));
+    }
+    Ok(())
+}
+
 // Dump out remainder of input stream for debugging
 #[allow(dead_code)]
 fn dump(input: ParseStream) -> Result<()> {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 3a2a3ac..3edb6e8 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -5,7 +5,7 @@ use quote::quote;
 use syn::parse::{Error, Result};
 
 use crate::authorization::claims;
-use crate::parse::{Json, Value};
+use crate::parse::{check_members, Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
     // let path = quote! {vercre_openid::issuer};
@@ -132,6 +132,8 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
 
     // credential_configuration_id or format?
     if let Some(credential_configuration_id) = detail.get("credential_configuration_id") {
+        check_members(detail, &["type", "credential_configuration_id", "credential_definition"])?;
+
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
@@ -147,6 +149,8 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
             }
         })
     } else if let Some(format) = detail.get("format") {
+        check_members(detail, &["type", "format", "credential_definition"])?;
+
         // credential_definition is required
         let Some(defn_value) = detail.get("credential_definition") else {
             return Err(Error::new(span, "`credential_definition` is not set"));
@@ -178,6 +182,7 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    check_members(credential_definition, &["@context", "type", "credentialSubject"])?;
     let context = credential_definition
         .get("@context")
         .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
@@ -203,6 +208,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    check_members(credential_definition, &["type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     // let Some(context) = credential_definition.get("@context") else {
-- 
2.43.0


From afdd5d172b23fe324e6d2dfda02a2ed3b9ac5d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:02 +0000
Subject: [PATCH 55/61] fix: request macros keep the locations of an
 authorization detail

---
 crates/macros/src/authorization.rs | 10 +++++++---
 crates/macros/src/token.rs         | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 8d54a5f..d4ccb38 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -88,11 +88,15 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let credential = credential_authorization(detail)?;
 
+        let locations = detail
+            .get("locations")
+            .map_or_else(|| quote! {None}, |locations| quote! {Some(#locations)});
+
         tokens.extend(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
-                locations: None
+                locations: #locations
             },
         });
     }
@@ -106,7 +110,7 @@ fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStre
 
     // credential_configuration_id or format?
     if let Some(credential_configuration_id) = detail.get("credential_configuration_id") {
-        check_members(detail, &["type", "credential_configuration_id", "credential_definition"])?;
+        check_members(detail, &["type", "credential_configuration_id", "credential_definition", "locations"])?;
 
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
@@ -123,7 +127,7 @@ fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStre
             }
         })
     } else if let Some(format) = detail.get("format") {
-        check_members(detail, &["type", "format", "credential_definition"])?;
+        check_members(detail, &["type", "format", "credential_definition", "locations"])?;
 
         // credential_definition is required
         let Some(defn_value) = detail.get("credential_definition") else {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 3edb6e8..6e51259 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -114,11 +114,15 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let configuration = credential_configuration(detail)?;
 
+        let locations = detail
+            .get("locations")
+            .map_or_else(|| quote! {None}, |locations| quote! {Some(#locations)});
+
         tokens.extend(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
-                locations: None
+                locations: #locations
             },
         });
     }
@@ -132,7 +136,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
 
     // credential_configuration_id or format?
     if let Some(credential_configuration_id) = detail.get("credential_configuration_id") {
-        check_members(detail, &["type", "credential_configuration_id", "credential_definition"])?;
+        check_members(detail, &["type", "credential_configuration_id", "credential_definition", "locations"])?;
 
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
@@ -149,7 +153,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
             }
         })
     } else if let Some(format) = detail.get("format") {
-        check_members(detail, &["type", "format", "credential_definition"])?;
+        check_members(detail, &["type", "format", "credential_definition", "locations"])?;
 
         // credential_definition is required
         let Some(defn_value) = detail.get("credential_definition") else {
-- 
2.43.0


From 3bebc33f7ea1eae72ec94fe046033f43383c4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:02 +0000
Subject: [PATCH 56/61] fix: authorization_request! keeps the @context of a
 credential definition

---
 crates/macros/src/authorization.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index d4ccb38..0d37f19 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -160,15 +160,11 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
-    check_members(credential_definition, &["type", "credentialSubject"])?;
-
-    // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let context = if let Some(context) = credential_definition.get("@context") {
-    //     quote! {Some(#context)}
-    // } else {
-    //     quote! {None}
-    // };
+    check_members(credential_definition, &["@context", "type", "credentialSubject"])?;
 
+    let context = credential_definition
+        .get("@context")
+        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
     let type_ = credential_definition
         .get("type")
         .map_or_else(|| quote! {None}, |type_array| quote! {Some(#type_array)});
@@ -176,7 +172,7 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
 
     Ok(quote! {
         #path::CredentialDefinition {
-            context: None,
+            context: #context,
             type_: #type_,
             credential_subject: #subject,
         }
-- 
2.43.0


From 3f03428cee881ad668c08ee044f9c1eca0f4f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:47 +0000
Subject: [PATCH 57/61] fix: a date has exactly the form of a full-date

---
 crates/dif-exch/src/matcher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 89b4b70..1831e7d 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -150,7 +150,9 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match format.as_str() {
         "date" => match vc_node {
-            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok()),
+            // parsing allows spaces, signs and missing digits, a full-date does not
+            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d")
+                .is_ok_and(|date| str_node.len() == 10 && date.to_string() == *str_node)),
             _ => Ok(false),
         },
         "date-time" => match vc_node {
-- 
2.43.0


From 363d0d4d59df90de761be3adf3ede17421f85e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:11 +0000
Subject: [PATCH 58/61] fix: map keys that are not text are written as text in
 query strings

Inside a nested value a number or boolean used as a map key was written
without quotes, which is not JSON and cannot be decoded.
---
 crates/core/src/urlencode/ser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index adf3371..e6f5b2b 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -1,5 +1,6 @@
 use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC};
 use serde::{ser, Serialize};
+use serde_json::Value;
 
 use crate::urlencode::error::{Error, Result};
 
@@ -432,13 +433,8 @@ impl ser::SerializeMap for &mut Serializer {
     type Ok = ();
 
     // The Serde data model allows map keys to be any serializable type. JSON
-    // only allows string keys so the implementation below will produce invalid
-    // JSON if the key serializes as something other than a string.
-    //
-    // A real JSON serializer would need to validate that map keys are strings.
-    // This can be done by using a different Serializer to serialize the key
-    // (instead of `&mut **self`) and having that other serializer only
-    // implement `serialize_str` and return an error on any other data type.
+    // only allows string keys, so numbers and booleans are written as text and
+    // anything else is refused.
     fn serialize_key<T>(&mut self, key: &T) -> Result<()>
     where
         T: ?Sized + Serialize,
@@ -450,7 +446,14 @@ impl ser::SerializeMap for &mut Serializer {
         } else if !self.output.is_empty() {
             self.output += "&";
         }
-        key.serialize(&mut **self)
+
+        let name = match serde_json::to_value(key) {
+            Ok(Value::String(name)) => name,
+            Ok(Value::Number(number)) => number.to_string(),
+            Ok(Value::Bool(boolean)) => boolean.to_string(),
+            _ => return Err(Error::Message("map key is not text".into())),
+        };
+        name.serialize(&mut **self)
     }
 
     fn serialize_value<T>(&mut self, value: &T) -> Result<()>
-- 
2.43.0


From fb856a01eb7ced11381c6aa26cf38cbae40e7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:09 +0000
Subject: [PATCH 59/61] fix: a credential configuration with no display entries
 does not panic the wallet

---
 vercre-holder/src/issuance/credentials.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index b7e8af2..0ee4d19 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -320,9 +320,9 @@ async fn credential(
     };
 
     // Base64-encoded logo if possible.
-    if let Some(display) = &config.display {
+    if let Some(display) = config.display.as_ref().and_then(|display| display.first()) {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = &display.logo {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From c05a1e675ec488e340cb77a6e4b3d879f8df37e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:09 +0000
Subject: [PATCH 60/61] fix: an issuer with no authorization servers listed can
 create offers

---
 vercre-issuer/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/create_offer.rs b/vercre-issuer/src/create_offer.rs
index 0228e40..066bb59 100644
--- a/vercre-issuer/src/create_offer.rs
+++ b/vercre-issuer/src/create_offer.rs
@@ -233,7 +233,7 @@ impl Context {
         // TODO: determine how to select correct server?
         // select `authorization_server`, if specified
         let authorization_server =
-            self.issuer.authorization_servers.as_ref().map(|servers| servers[0].clone());
+            self.issuer.authorization_servers.as_ref().and_then(|servers| servers.first().cloned());
 
         let mut grants = Grants {
             authorization_code: None,
-- 
2.43.0


From 318690c373ba2d191678c7afdb2641df0352b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:09 +0000
Subject: [PATCH 61/61] fix: authorizing without a response type or challenge
 method is an error, not a panic

---
 vercre-holder/src/issuance/authorize.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 673fa53..9e0675b 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -260,20 +260,24 @@ fn authorization_request(
         })?),
     };
 
-    let Some(code_challenge_methods) =
-        issuance.authorization_server.oauth.code_challenge_methods_supported.clone()
+    let oauth = &issuance.authorization_server.oauth;
+    let Some(code_challenge_method) =
+        oauth.code_challenge_methods_supported.as_ref().and_then(|methods| methods.first().cloned())
     else {
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
+    let Some(response_type) = oauth.response_types_supported.first().cloned() else {
+        return Err(anyhow!("response types missing from authorization server metadata"));
+    };
 
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type: issuance.authorization_server.oauth.response_types_supported[0].clone(),
+        response_type,
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
         code_challenge,
-        code_challenge_method: code_challenge_methods[0].clone(),
+        code_challenge_method,
         authorization_details: auth_details,
         scope,
         resource: Some(issuance.issuer.credential_issuer.clone()),
-- 
2.43.0

