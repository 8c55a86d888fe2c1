From 98ca48823b119e180b7e2150a5205b64a2f49cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 01/13] fix: percent-encode the PLAINTEXT signature for
 transmission

The `oauth_signature` value of the PLAINTEXT method is a signing key like
`secret&token_secret`. As `Sign::Signature` documents, it must be written in
percent-encoded form (RFC 5849 section 3.5), or the `&` breaks a form/query
string and the secret is decoded once too often by the server.
---
 .../src/signature_method/plaintext.rs           | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..8fd4e20 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -5,6 +5,8 @@
 use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
+use crate::util::percent_encode;
+
 use super::{write_signing_key, Sign, SignatureMethod};
 
 /// The `PLAINTEXT` signature method.
@@ -16,7 +18,8 @@ pub struct Plaintext<
 }
 
 cfg_type_param_hack! {
-    /// A `Sign` implementation that just returns the signing key used to construct it.
+    /// A `Sign` implementation that just returns the (percent-encoded) signing key used to construct
+    /// it.
     #[derive(Clone, Debug)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
@@ -26,6 +29,9 @@ cfg_type_param_hack! {
     }
 }
 
+/// A writer that percent-encodes the signing key, which makes up the value of `oauth_signature`.
+struct PercentEncodeWrite<'a, W>(&'a mut W);
+
 /// The `PLAINTEXT` signature method with a default configuration.
 #[cfg(feature = "alloc")]
 pub const PLAINTEXT: Plaintext = Plaintext::new();
@@ -92,11 +98,18 @@ where
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        let mut w = PercentEncodeWrite(&mut signing_key);
+        write_signing_key(&mut w, client_secret, token_secret).unwrap();
         PlaintextSign { signing_key }
     }
 }
 
+impl<'a, W: Write> Write for PercentEncodeWrite<'a, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        write!(self.0, "{}", percent_encode(s))
+    }
+}
+
 impl<W> Sign for PlaintextSign<W>
 where
     W: Display + Write,
-- 
2.43.0


From 119ceeb9e617c0ef2f58ff0e771bfa81a60641bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 02/13] fix: sort parameters of the same key by their encoded
 value

RFC 5849 section 3.4.1.3.2 sorts the parameters after encoding them, which
differs from the ordering of the raw values (e.g. `0` and `:` = `%3A`), so a
`ParameterList` with such values used to be given a wrong signature.
---
 oauth1-request/src/request.rs                | 4 ++--
 oauth1-request/src/request/parameter_list.rs | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/oauth1-request/src/request.rs b/oauth1-request/src/request.rs
index c78477f..1cef001 100644
--- a/oauth1-request/src/request.rs
+++ b/oauth1-request/src/request.rs
@@ -32,8 +32,8 @@ pub trait Request {
 /// behavior of this wrapper is unspecified.
 ///
 /// Note that the required ordering is alphabetical ordering of `AsRef<str>` value of the key and
-/// `Display` representation of the value and does not necessarily match that of the one provided by
-/// the [`Ord`] trait, which may provide, for example, numerical ordering instead.
+/// percent encoded `Display` representation of the value and does not necessarily match that of the
+/// one provided by the [`Ord`] trait, which may provide, for example, numerical ordering instead.
 ///
 /// If you have a slice instead of an iterator, consider using [`ParameterList`], which guarantees
 /// the correct ordering.
diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..516afee 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,10 +8,12 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::PercentEncode;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
-/// This is like an array of `(K, V)` but the parameters are guaranteed to be sorted alphabetically.
+/// This is like an array of `(K, V)` but the parameters are guaranteed to be sorted alphabetically
+/// (by the percent encoded value for parameters with the same key).
 ///
 /// ## Example
 ///
@@ -240,7 +242,9 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        // Parameters with the same key are sorted by the _encoded_ value (RFC 5849 section 3.4.1.3.2).
+        kl.cmp(kr)
+            .then_with(|| fmt_cmp::cmp(&PercentEncode(vl), &PercentEncode(vr)))
     }
 }
 
-- 
2.43.0


From 0f9712a34a53b6707d10c0dcce0ec68981c96f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 03/13] fix: uppercase and percent-encode custom HTTP methods
 in the base string

RFC 5849 section 3.4.1.1 requires both; without them a request with a method
like `M-SEARCH`-ish custom tokens containing reserved characters or with a
lowercase method gets a signature the server cannot reproduce.
---
 oauth1-request/src/signature_method/digest_common.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/digest_common.rs b/oauth1-request/src/signature_method/digest_common.rs
index 07145fa..1327cc8 100644
--- a/oauth1-request/src/signature_method/digest_common.rs
+++ b/oauth1-request/src/signature_method/digest_common.rs
@@ -3,7 +3,7 @@ use core::fmt::{self, Display, Formatter, Write};
 use base64::display::Base64Display;
 use digest::Update;
 
-use crate::util::PercentEncode;
+use crate::util::{percent_encode, PercentEncode};
 
 #[derive(Clone, Debug)]
 pub struct UpdateSign<U>(pub U);
@@ -14,7 +14,14 @@ struct UpdateWrite<'a, M>(&'a mut M);
 
 impl<U: Update> UpdateSign<U> {
     pub fn request_method(&mut self, method: &str) {
-        self.0.update(method.as_bytes());
+        // The method is in uppercase and percent encoded (RFC 5849 section 3.4.1.1).
+        let mut buf = [0; 4];
+        for c in method.chars() {
+            let c: &str = c.to_ascii_uppercase().encode_utf8(&mut buf);
+            for s in percent_encode(c) {
+                self.0.update(s.as_bytes());
+            }
+        }
         self.0.update(b"&");
     }
 
-- 
2.43.0


From 5d401ed5baf88fe18785c1a8f60fe0cb96fd3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 04/13] fix: delegate Sign::consumer_key of Either to the
 wrapped Sign

A Sign that overrides `consumer_key` was bypassed when wrapped in an Either.
---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From 4aa92c33a62d2b7150e1eb8bdc198815448cb80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 05/13] fix: support raw identifiers as fields of a derived
 Request

The macro accessed a field `r#type` as `self.type`, which does not compile.
---
 oauth1-request-derive/src/field.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..c89749a 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -25,7 +25,7 @@ def_meta! {
 }
 
 pub enum Name<'a> {
-    Original(&'a Ident),
+    Original(Ident),
     Renamed(&'a LitStr),
 }
 
@@ -35,7 +35,7 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
+        let ident = ident.unwrap();
         Self { ident, ty, meta }
     }
 
@@ -44,7 +44,7 @@ impl Field {
         if let Some(ref name) = self.meta.rename {
             Name::Renamed(&name.0)
         } else {
-            Name::Original(&self.ident)
+            Name::Original(self.ident.unraw())
         }
     }
 }
@@ -52,7 +52,7 @@ impl Field {
 impl<'a> Name<'a> {
     pub fn span(&self) -> Span {
         match *self {
-            Name::Original(ident) => ident.span(),
+            Name::Original(ref ident) => ident.span(),
             Name::Renamed(lit) => lit.span(),
         }
     }
@@ -62,7 +62,7 @@ impl<'a> Name<'a> {
     // `proc_macro` crate use `to_string` under the hood as of this writing.
     pub fn string_value(&self) -> String {
         match *self {
-            Name::Original(ident) => ident.to_string(),
+            Name::Original(ref ident) => ident.to_string(),
             Name::Renamed(lit) => lit.value(),
         }
     }
@@ -72,7 +72,7 @@ impl<'a> Name<'a> {
 impl<'a> ToTokens for Name<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match *self {
-            Name::Original(ident) => {
+            Name::Original(ref ident) => {
                 let mut lit = Literal::string(&ident.to_string());
                 lit.set_span(ident.span());
                 tokens.append(lit);
-- 
2.43.0


From 5ff318d18c4a4faef14f15ee1c28696fa30c48b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 06/13] fix: do not print secrets in Debug output of PLAINTEXT
 and RSA-SHA1 types

`Credentials` hides its secret in Debug output, but the signing key of
`PlaintextSign` (and `Authorizer`) and the private key of `RsaSha1` (and
`Builder`) were printed.
---
 .../src/signature_method/plaintext.rs         |  9 ++++++++-
 .../src/signature_method/rsa_sha1.rs          | 19 ++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 8fd4e20..d38f245 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -20,7 +20,7 @@ pub struct Plaintext<
 cfg_type_param_hack! {
     /// A `Sign` implementation that just returns the (percent-encoded) signing key used to construct
     /// it.
-    #[derive(Clone, Debug)]
+    #[derive(Clone)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
         #[cfg(not(feature = "alloc"))] W,
@@ -81,6 +81,13 @@ impl<W> Debug for Plaintext<W> {
     }
 }
 
+// Implement `Debug` manually so as not to print the shared-secrets.
+impl<W> Debug for PlaintextSign<W> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.write_str("PlaintextSign { signing_key: <hidden> }")
+    }
+}
+
 impl<W> Default for Plaintext<W>
 where
     W: Default + Display + Write,
diff --git a/oauth1-request/src/signature_method/rsa_sha1.rs b/oauth1-request/src/signature_method/rsa_sha1.rs
index 30d1cc4..8b05e66 100644
--- a/oauth1-request/src/signature_method/rsa_sha1.rs
+++ b/oauth1-request/src/signature_method/rsa_sha1.rs
@@ -6,7 +6,7 @@ pub use self::rsa::pkcs8::DecodePrivateKey;
 pub use self::rsa::RsaPrivateKey;
 
 use alloc::vec::Vec;
-use core::fmt::{self, Display, Formatter};
+use core::fmt::{self, Debug, Display, Formatter};
 
 use digest::Digest;
 use sha1::Sha1;
@@ -15,14 +15,14 @@ use super::digest_common::{Base64PercentEncodeDisplay, UpdateSign};
 use super::{Sign, SignatureMethod};
 
 /// The `RSA-SHA1` signature method.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 #[repr(transparent)]
 pub struct RsaSha1 {
     key: RsaPrivateKey,
 }
 
 /// A type that signs a signature base string with the RSA-SHA1 signature algorithm.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub struct RsaSha1Sign<K = RsaPrivateKey> {
     inner: UpdateSign<Sha1>,
     key: K,
@@ -40,6 +40,19 @@ impl RsaSha1 {
     }
 }
 
+// Implement `Debug` manually so as not to print the private key.
+impl Debug for RsaSha1 {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.write_str("RsaSha1 { key: <hidden> }")
+    }
+}
+
+impl<K> Debug for RsaSha1Sign<K> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.write_str("RsaSha1Sign { key: <hidden> }")
+    }
+}
+
 impl From<RsaPrivateKey> for RsaSha1 {
     fn from(key: RsaPrivateKey) -> Self {
         RsaSha1::new(key)
-- 
2.43.0


From 49a8a48f95b0e26e65d7cbc3a4da840d56c4bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 07/13] fix: do not emit a zero timestamp

The timestamp must be a positive integer (RFC 5849 section 3.3), and a clock
before the epoch already yields 1, but one in its first second yielded 0.
---
 oauth1-request/src/serializer/auth.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..69b5705 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -389,7 +389,8 @@ fn get_current_timestamp() -> u64 {
         } else if #[cfg(feature = "std")] {
             use std::time::{SystemTime, UNIX_EPOCH};
             match SystemTime::now().duration_since(UNIX_EPOCH) {
-                Ok(d) => d.as_secs(),
+                // The timestamp must be positive (RFC 5849 section 3.3).
+                Ok(d) => d.as_secs().max(1),
                 Err(_) => 1,
             }
         } else {
-- 
2.43.0


From f6121c4f37c88d973b80dc239fcd1e4b6dfec813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 08/13] fix: do not count skipped fields as duplicate
 parameters

A field with `#[oauth1(skip)]` is not serialized so another field may be
renamed to its name.
---
 oauth1-request-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index 50e4d65..f7fbeae 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -78,7 +78,9 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
         .collect();
 
     fields.sort_by_cached_key(|f| f.name().string_value());
-    fields.iter().fold(String::new(), |prev_name, f| {
+    // Skipped fields are not parameters so their names neither conflict nor are restricted.
+    let params = fields.iter().filter(|f| !f.meta.skip);
+    params.fold(String::new(), |prev_name, f| {
         let name = f.name();
         let (name, span) = (name.string_value(), name.span());
         if name == prev_name {
-- 
2.43.0


From f37f9683fbd38e6ba08585d172d5db54d9347a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 09/13] fix: reject non-ASCII field names in derive(Request)

Parameter keys are serialized as is, so `rename` only accepts URI-safe names,
but a non-ASCII field name went through the check.
---
 oauth1-request-derive/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index f7fbeae..e7bf5e3 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -86,6 +86,10 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
         if name == prev_name {
             cx.add_error_message(span, format!("duplicate parameter \"{}\"", name));
         }
+        // Field names may be non-ASCII, while the keys are serialized without being encoded.
+        if !name.is_ascii() {
+            cx.add_error_message(span, "parameter name must be URI-safe");
+        }
         name
     });
 
-- 
2.43.0


From 22744f473f84c28177d01130991cb602c53af0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 10/13] fix: write the request parameters to signed forms and
 queries

Builder::to_form and Builder::to_query (and Authorizer::form/query) are documented to write the
protocol parameters along with the other request parameters, but only signed the latter without
writing them, so the receiver could not verify the signature.
---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 69b5705..cedbfe8 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From 276c73a583f5f9547fef30b15f85b53c8d42561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 11/13] fix: do not repeat nonces after fork

`ThreadRng` reseeds only "soon" after a fork, so that processes forked from one which has signed a
request generated the same nonces as their parent at first.
---
 oauth1-request/src/serializer/auth.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index cedbfe8..00afbf6 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -411,13 +411,9 @@ fn get_current_timestamp() -> u64 {
 }
 
 fn get_rng() -> impl RngCore + CryptoRng {
-    cfg_if::cfg_if! {
-        if #[cfg(feature = "std")] {
-            thread_rng()
-        } else {
-            rand::rngs::OsRng
-        }
-    }
+    // Do not use `thread_rng` here, whose buffered output would be repeated in child processes
+    // after `fork`, making them generate the same nonces as their parent.
+    rand::rngs::OsRng
 }
 
 // This is worth 72 bits of entropy. The nonce is required to be unique across all requests with
-- 
2.43.0


From b3d9957c074d17183398291cba96389e8c19375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 12/13] fix: do not take values that write nothing as equal to
 any other

fmt_cmp::cmp considers a left-hand side that never calls write_str equal to whatever right-hand
side, so a ParameterList with an empty value (percent encoding of which writes nothing) was left
unsorted and the Recorder's records compared as equal.
---
 oauth1-request/src/request/parameter_list.rs |  4 ++--
 oauth1-request/src/serializer/recorder.rs    |  3 ++-
 oauth1-request/src/util.rs                   | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 516afee..56d433c 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,7 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
-use crate::util::PercentEncode;
+use crate::util::{cmp_display, PercentEncode};
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -244,7 +244,7 @@ where
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
         // Parameters with the same key are sorted by the _encoded_ value (RFC 5849 section 3.4.1.3.2).
         kl.cmp(kr)
-            .then_with(|| fmt_cmp::cmp(&PercentEncode(vl), &PercentEncode(vr)))
+            .then_with(|| cmp_display(&PercentEncode(vl), &PercentEncode(vr)))
     }
 }
 
diff --git a/oauth1-request/src/serializer/recorder.rs b/oauth1-request/src/serializer/recorder.rs
index c4a958c..162f81d 100644
--- a/oauth1-request/src/serializer/recorder.rs
+++ b/oauth1-request/src/serializer/recorder.rs
@@ -9,6 +9,7 @@ use core::cmp::Ordering;
 use core::fmt::Display;
 
 use super::Serializer;
+use crate::util::cmp_display;
 
 /// A `Serializer` that records the history of operations done to itself.
 ///
@@ -184,7 +185,7 @@ where
             | (
                 &Record::ParameterEncoded(ref k1, ref v1),
                 &Record::ParameterEncoded(ref k2, ref v2),
-            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
+            ) => k1.as_ref() == k2.as_ref() && cmp_display(v1, v2) == Ordering::Equal,
             (&Record::Callback, &Record::Callback)
             | (&Record::ConsumerKey, &Record::ConsumerKey)
             | (&Record::Nonce, &Record::Nonce)
diff --git a/oauth1-request/src/util.rs b/oauth1-request/src/util.rs
index 3592217..7052757 100644
--- a/oauth1-request/src/util.rs
+++ b/oauth1-request/src/util.rs
@@ -1,9 +1,27 @@
 mod oauth_parameter;
 mod percent_encoding;
 
+use core::cmp::Ordering;
+use core::fmt::{self, Display, Formatter};
+
 pub use self::oauth_parameter::OAuthParameter;
 pub use self::percent_encoding::{percent_encode, DoublePercentEncode, PercentEncode};
 
+/// Compares two values in their `Display` representations.
+pub fn cmp_display<T: Display, U: Display>(lhs: &T, rhs: &U) -> Ordering {
+    // `fmt_cmp::cmp` treats an `lhs` that never calls `write_str` as equal to any `rhs`, so make sure
+    // to call it.
+    struct Adapter<'a, T>(&'a T);
+    impl<T: Display> Display for Adapter<'_, T> {
+        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+            f.write_str("")?;
+            self.0.fmt(f)
+        }
+    }
+
+    fmt_cmp::cmp(&Adapter(lhs), rhs)
+}
+
 /// Converts from `struct Foo<#[cfg(pred)] T>(T);` to
 /// `#[cfg(pred)] struct Foo<T>(T); #[cfg(not(pred))] struct Foo<>(T);` so that `#[derive]` work
 /// for the struct with older compilers.
-- 
2.43.0


From c15543b472efa804bb12e753df44520788e89615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 13/13] fix: do not resolve standard traits in the scope of
 derive(Request)

---
 oauth1-request-derive/src/method_body/helper.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/oauth1-request-derive/src/method_body/helper.rs b/oauth1-request-derive/src/method_body/helper.rs
index 0804b11..aa965b3 100644
--- a/oauth1-request-derive/src/method_body/helper.rs
+++ b/oauth1-request-derive/src/method_body/helper.rs
@@ -38,9 +38,9 @@ def_tokens! {FmtHelper;
 
     struct Fmt<T, F>(T, F);
 
-    impl<T: Copy, F> Display for Fmt<T, F>
+    impl<T: ::core::marker::Copy, F> Display for Fmt<T, F>
     where
-        F: Fn(T, &mut Formatter<'_>) -> Result,
+        F: ::core::ops::Fn(T, &mut Formatter<'_>) -> Result,
     {
         fn fmt(&self, f: &mut Formatter<'_>) -> Result {
             self.1(self.0, f)
@@ -50,16 +50,16 @@ def_tokens! {FmtHelper;
     impl DeriveRequestAssertion {
         // The order of arguments is imoprtant here.
         // If you reverse the order, deref coercions won't work for `t` (see the test below).
-        fn fmt<'a, F, T: ?Sized>(&self, f: F, t: &'a T) -> Fmt<&'a T, F>
+        fn fmt<'a, F, T: ?::core::marker::Sized>(&self, f: F, t: &'a T) -> Fmt<&'a T, F>
         where
-            F: Fn(&T, &mut Formatter<'_>) -> Result,
+            F: ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result,
         {
             Fmt(t, f)
         }
 
-        fn fmt_impls_fn<F, T: ?Sized>(&self, f: F) -> impl Fn(&T, &mut Formatter<'_>) -> Result
+        fn fmt_impls_fn<F, T: ?::core::marker::Sized>(&self, f: F) -> impl ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result
         where
-            F: Fn(&T, &mut Formatter<'_>) -> Result,
+            F: ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result,
         {
             f
         }
@@ -68,9 +68,9 @@ def_tokens! {FmtHelper;
 
 def_tokens! {SkipIfHelper;
     impl DeriveRequestAssertion {
-        fn skip_if_impls_fn<F, T: ?Sized>(&self, f: F) -> impl Fn(&T) -> bool
+        fn skip_if_impls_fn<F, T: ?::core::marker::Sized>(&self, f: F) -> impl ::core::ops::Fn(&T) -> bool
         where
-            F: Fn(&T) -> bool,
+            F: ::core::ops::Fn(&T) -> bool,
         {
             f
         }
-- 
2.43.0

